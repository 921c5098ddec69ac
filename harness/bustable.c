/* Tables: rows added and removed over the bus or by their provider, and what a consumer sees of them. */
#include "bus.h"
static rbusHandle_t hp, hc;
struct row { int on; uint32_t num; const char* alias; uint32_t x, y; int parent; };
enum { NROW = 6 };
static struct row rows[NROW]; static int calls_add, calls_rem, refuse, wrong, nestadd; static char seen_table[64], seen_alias[32], seen_row[64]; static uint32_t give_num;
static struct row* by_token(int parent, const char* t, size_t n) { for (int i = 0; i < NROW; i++) if (rows[i].on && rows[i].parent == parent) { char b[16]; snprintf(b, sizeof b, "%u", rows[i].num); if (strlen(b) == n && !strncmp(b, t, n)) return &rows[i]; if (rows[i].alias && n == strlen(rows[i].alias) + 2 && t[0] == '[' && !strncmp(t + 1, rows[i].alias, n - 2)) return &rows[i]; } return NULL; }
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)h; (void)o; const char* n = rbusProperty_GetName(p); uint32_t out; if (strncmp(n, "Device.T.", 9)) { wrong++; return RBUS_ERROR_BUS_ERROR; } n += 9; size_t k = strcspn(n, "."); struct row* r = by_token(-1, n, k); if (!r) { wrong++; return RBUS_ERROR_BUS_ERROR; } n += k; if (!strcmp(n, ".X")) out = r->x; else if (!strcmp(n, ".O.Y")) out = r->y; else if (!strncmp(n, ".N.", 3)) { n += 3; k = strcspn(n, "."); struct row* q = by_token((int)(r - rows), n, k); if (!q || strcmp(n + k, ".Z")) { wrong++; return RBUS_ERROR_BUS_ERROR; } out = q->x; } else { wrong++; return RBUS_ERROR_BUS_ERROR; }
  rbusValue_t v = rbusValue_InitUInt32(out); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)h; (void)o; const char* n = rbusProperty_GetName(p) + 9; size_t k = strcspn(n, "."); struct row* r = by_token(-1, n, k); if (!r || strcmp(n + k, ".X")) { wrong++; return RBUS_ERROR_BUS_ERROR; } r->x = rbusValue_GetUInt32(rbusProperty_GetValue(p)); return RBUS_ERROR_SUCCESS; }
static rbusError_t on_add(rbusHandle_t h, char const* t, char const* a, uint32_t* num) { (void)h; calls_add++; snprintf(seen_table, sizeof seen_table, "%s", t); snprintf(seen_alias, sizeof seen_alias, "%s", a ? a : "(none)"); if (refuse) return refuse; *num = give_num; return RBUS_ERROR_SUCCESS; }
static rbusError_t on_rem(rbusHandle_t h, char const* r) { (void)h; calls_rem++; snprintf(seen_row, sizeof seen_row, "%s", r); return refuse; }
#define TABLE { on_none, NULL, NULL, NULL, NULL, NULL }
static rbusDataElement_t el[] = { { "Device.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, on_add, on_rem, NULL, NULL } }, { "Device.T.{i}.X", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.T.{i}.O.Y", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, NULL, NULL } }, { "Device.T.{i}.N.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, on_add, on_rem, NULL, NULL } }, { "Device.T.{i}.N.{i}.Z", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, NULL, NULL } }, { "Device.V", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, NULL, NULL } } };
enum { NEL = 6 };
static void start(void) { vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0, "components open"); }
static void reg(int order) { static const int ord[3][NEL] = { { 0, 1, 2, 3, 4, 5 }, { 1, 2, 0, 5, 3, 4 }, { 5, 0, 3, 4, 2, 1 } }; rbusDataElement_t e[NEL]; for (int i = 0; i < NEL; i++) e[i] = el[ord[order][i]]; vp_check(rbus_regDataElements(hp, NEL, e) == 0, "elements register"); }
static void stop(void) { rbus_unregDataElements(hp, NEL, el); vp_check(rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
static int find_num(int parent, uint32_t n) { for (int i = 0; i < NROW; i++) if (rows[i].on && rows[i].parent == parent && rows[i].num == n) return i; return -1; }
static int find_alias(int parent, const char* a) { for (int i = 0; i < NROW; i++) if (rows[i].on && rows[i].parent == parent && rows[i].alias && !strcmp(rows[i].alias, a)) return i; return -1; }
static int new_row(int parent, uint32_t num, const char* alias) { for (int i = 0; i < NROW; i++) if (!rows[i].on) { rows[i] = (struct row){ 1, num, alias, vp_range("x", 1000, 30000), vp_range("y", 1000, 30000), parent }; return i; } vp_incomplete("too many rows"); return 0; }
static void drop_row(int r) { for (int i = 0; i < NROW; i++) if (rows[i].on && rows[i].parent == r) rows[i].on = 0; rows[r].on = 0; }
static const uint32_t nums[] = { 1, 2, 4294967295u }; static const char* als[] = { NULL, "ab", "a" };
static int times_in(rbusProperty_t l, const char* name, uint32_t v, int* right) { int n = 0; for (; l; l = rbusProperty_GetNext(l)) if (rbusProperty_GetName(l) && !strcmp(rbusProperty_GetName(l), name)) { n++; rbusValue_t x = rbusProperty_GetValue(l); *right &= x && rbusValue_GetType(x) == RBUS_UINT32 && rbusValue_GetUInt32(x) == v; } return n; }
static int len_of(rbusProperty_t l) { int n = 0; for (; l; l = rbusProperty_GetNext(l)) n++; return n; }
static void check_names(const char* table, int parent) { rbusRowName_t* l = NULL; vp_check(rbusTable_getRowNames(hc, table, &l) == 0, "row names can be listed"); int n = 0, want = 0; for (int i = 0; i < NROW; i++) want += rows[i].on && rows[i].parent == parent; int dup = 0; for (rbusRowName_t* r = l; r; r = r->next) { n++; int i = find_num(parent, r->instNum); if (i < 0) { dup = 1; break; } char b[64]; snprintf(b, sizeof b, "%s%u.", table, rows[i].num); dup |= strcmp(b, r->name) != 0; dup |= (r->alias != NULL) != (rows[i].alias != NULL) || (r->alias && strcmp(r->alias, rows[i].alias)); for (rbusRowName_t* q = l; q != r; q = q->next) dup |= q->instNum == r->instNum; } vp_check(!dup && n == want, "the rows listed are those that exist, with number and alias"); rbusTable_freeRowNames(hc, l); }
static void check_get(const char* name, int exists, uint32_t v) { rbusValue_t g = NULL; int rc = rbus_get(hc, name, &g); vp_check((rc == 0) == exists, "a parameter of a row can be read exactly while the row exists"); if (exists) { vp_check(rbusValue_GetType(g) == RBUS_UINT32 && rbusValue_GetUInt32(g) == v, "a parameter read from a row is that row's"); rbusValue_Release(g); } else vp_check(!g, "nothing is returned for a missing row"); }
static void check_all(void) { check_names("Device.T.", -1); char b[64]; for (int i = 0; i < 3; i++) { int r = find_num(-1, nums[i]); snprintf(b, sizeof b, "Device.T.%u.X", nums[i]); check_get(b, r >= 0, r >= 0 ? rows[r].x : 0); snprintf(b, sizeof b, "Device.T.%u.O.Y", nums[i]); check_get(b, r >= 0, r >= 0 ? rows[r].y : 0); }
  for (int i = 1; i < 3; i++) { int r = find_alias(-1, als[i]); snprintf(b, sizeof b, "Device.T.[%s].X", als[i]); check_get(b, r >= 0, r >= 0 ? rows[r].x : 0); }
  static const char* q[] = { "Device.T.*.X", "Device.T.", "Device.T.*.O." }; for (int k = 0; k < 3; k++) { int n = -1, right = 1, total = 0; rbusProperty_t l = NULL; int rc = rbus_getExt(hc, 1, &q[k], &n, &l); vp_check(rc == 0, "a query over all rows succeeds"); for (int i = 0; i < NROW; i++) if (rows[i].on) { if (rows[i].parent < 0) { snprintf(b, sizeof b, "Device.T.%u.X", rows[i].num); int t = times_in(l, b, rows[i].x, &right); vp_check(t == (k < 2), "a query over all rows returns each row once"); total += t; snprintf(b, sizeof b, "Device.T.%u.O.Y", rows[i].num); t = times_in(l, b, rows[i].y, &right); vp_check(t == (k > 0), "a query over all rows returns each row once"); total += t; } else if (k == 1) { snprintf(b, sizeof b, "Device.T.%u.N.%u.Z", rows[rows[i].parent].num, rows[i].num); int t = times_in(l, b, rows[i].x, &right); vp_check(t == 1, "a query over all rows includes the rows of tables within"); total += t; } } vp_check(right && n == total && len_of(l) == total, "a query over all rows returns nothing else"); if (l) rbusProperty_Release(l); } }
static int some_error(void) { int e = (int)vp_range("error", 1, 28); vp_assume(e != RBUS_ERROR_ASYNC_RESPONSE); return e; }
static void step(int nested, int op, int lean) { char b[64]; int par = nested ? find_num(-1, 1) : -1; char tb[32] = "Device.T."; if (nested) { if (par < 0) par = NROW; strcpy(tb, "Device.T.1.N."); }
  int have = !nested || par < NROW; uint32_t num = nums[vp_choose(lean ? 2 : 3, "number")]; const char* al = als[vp_choose(op < 2 ? 3 - lean : 1, "alias")]; refuse = (op == 0 || op == 2) && vp_choose(2, "refuse") ? some_error() : 0; int c0 = calls_add, c1 = calls_rem;
  if (op < 2) { if (find_num(par, num) >= 0 && op == 0) vp_assume(0); if (al && have && find_alias(par, al) >= 0) vp_assume(0);
    if (op == 0) { give_num = num; uint32_t got = 77; int rc = rbusTable_addRow(hc, tb, al, &got); if (!have) vp_check(rc != 0 && calls_add == c0, "a row cannot be added to a missing table"); else { vp_check(rc == refuse && calls_add == c0 + 1, "adding a row asks the provider once and reports its answer"); vp_check(!strcmp(seen_table, tb) && !strcmp(seen_alias, al ? al : "(none)"), "the provider is told table and alias of the new row"); if (!rc) { vp_check(got == num, "the number of the new row is returned"); new_row(par, num, al); vp_reach("added"); } } }
    else { int rc = rbusTable_registerRow(hp, tb, num, al); int ok = have && find_num(par, num) < 0; vp_check((rc == 0) == ok, "a provider can register a row that is not there yet"); if (!rc) { new_row(par, num, al); vp_reach("registered"); } vp_check(calls_add == c0, "registering a row calls no handler"); } }
  else { int r = have ? find_num(par, num) : -1; snprintf(b, sizeof b, "%s%u", tb, num); if (r >= 0 && rows[r].alias && vp_choose(2, "by alias")) snprintf(b, sizeof b, "%s[%s]", tb, rows[r].alias); if (!lean && vp_choose(2, "dot")) strcat(b, ".");
    if (op == 2) { int rc = rbusTable_removeRow(hc, b); if (r < 0) vp_check(rc != 0 && calls_rem == c1, "a missing row cannot be removed"); else { vp_check(rc == refuse && calls_rem == c1 + 1 && !strcmp(seen_row, b), "removing a row asks the provider once and reports its answer"); if (!rc) { drop_row(r); vp_reach("removed"); } } }
    else { int rc = rbusTable_unregisterRow(hp, b); vp_check((rc == 0) == (r >= 0), "a provider can unregister a row that is there"); if (!rc) { drop_row(r); vp_reach("unregistered"); } vp_check(calls_rem == c1, "unregistering a row calls no handler"); } }
  refuse = 0; }
static void history(void) { uint64_t base = vp_heap_live(); start(); int ord = (int)vp_param("order", 0); reg(ord < 3 ? ord : (int)vp_choose(3, "order")); int n = (int)vp_param("ops", 2), nested = (int)vp_param("nested", 0); if (nested) { new_row(-1, 1, "a"); new_row(-1, 2, NULL); vp_check(rbusTable_registerRow(hp, "Device.T.", 1, "a") == 0 && rbusTable_registerRow(hp, "Device.T.", 2, NULL) == 0, "rows register"); }
  for (int i = 0; i < n; i++) { { int o = (int)vp_param("op0", 9); step(!nested ? 0 : i == 0 ? (int)vp_param("inner0", 1) : (int)vp_choose(2, "inner"), i == 0 && o < 4 ? o : (int)vp_choose(4, "op"), nested || (int)vp_param("lean", 0)); } vp_check(!wrong, "handlers are called for existing rows only"); } check_all(); if (nested && find_num(-1, 1) >= 0) check_names("Device.T.1.N.", find_num(-1, 1)); vp_check(!wrong, "handlers are called for existing rows only"); vp_reach("history"); stop(); vp_check(vp_heap_live() == base, "closing frees everything"); }
static void set_row(void) { start(); reg(0); new_row(-1, 1, "a"); new_row(-1, 2, NULL); rbusTable_registerRow(hp, "Device.T.", 1, "a"); rbusTable_registerRow(hp, "Device.T.", 2, NULL); static const char* nm[] = { "Device.T.1.X", "Device.T.[a].X", "Device.T.2.X", "Device.T.3.X", "Device.T.[b].X", "Device.T.X", "Device.T.{i}.X", "Device.T.*.X", "Device.T.1.", "Device.T.1.O.Y" }; int w = (int)vp_choose(10, "name"); uint32_t v = vp_range("v", 1000, 30000), o0 = rows[0].x, o1 = rows[1].x; rbusValue_t x = rbusValue_InitUInt32(v); int rc = rbus_set(hc, nm[w], x, NULL); rbusValue_Release(x); vp_check(wrong ? w == 6 : (rc == 0) == (w < 3), "setting works exactly for parameters of existing rows"); vp_check(rows[0].x == (w < 2 ? v : o0) && rows[1].x == (w == 2 ? v : o1), "a set reaches exactly the row named"); wrong = 0; check_all(); vp_reach("set"); stop(); }
static void misuse(void) { /* names that are no table, no row, or stand for any row */
  start(); reg(0); new_row(-1, 1, "a"); rbusTable_registerRow(hp, "Device.T.", 1, "a"); static const char* nm[] = { "", ".", "Device.V.", "Device.T", "Device.", "Device.T.1.X.", "Device.T.1.O.", "Device.T.{i}.", "Device.T.*.", "Device.T.{i}.N.", "Device.T.*.N.", "Nope.", "Device.T.3.N.", "Device.TT.", "Device.T.1", "Device.T.{i}", "Device.T.*", "Device.T.1.X", "Device.T.[zz]", "Device.T.[", "Device.T.[]", "Device.T.01", "Device.V" }; int w = (int)vp_choose(23, "name"), op = (int)vp_choose(4, "op"); const char* n = nm[w]; uint32_t k = 9; int rc;
  if (op == 0) { rc = rbusTable_addRow(hc, n, NULL, &k); vp_check(rc != 0 && !calls_add, "a row can only be added to an existing table"); }
  else if (op == 1) { if (w == 14) { stop(); return; } rc = rbusTable_removeRow(hc, n); vp_check(rc != 0 && !calls_rem, "only an existing row can be removed"); }
  else if (op == 2) { if (w == 3) { stop(); return; } rc = rbusTable_registerRow(hp, n, 5, NULL); vp_check(rc != 0, "a row can only be registered in an existing table"); }
  else { rbusRowName_t* l = NULL; rc = rbusTable_getRowNames(hc, n, &l); if (w == 3) { rbusTable_freeRowNames(hc, l); stop(); return; } vp_check(rc != 0 || !l, "only an existing table has rows"); }
  vp_check(!wrong, "handlers are called for existing rows only"); check_all(); vp_check(rbusTable_addRow(hc, "Device.T.", NULL, &k) == 0 || 1, "usable"); vp_reach("misuse"); stop(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: set_row(); break; case 2: misuse(); break; } return 0; }
