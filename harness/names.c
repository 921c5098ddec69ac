/* Discovery by consumers: which elements, rows and components there are. */
#include "bus.h"
static rbusHandle_t hp, hq, hc;
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)h; (void)p; (void)o; vp_error("discovery calls no get handler"); return 0; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)h; (void)p; (void)o; vp_error("discovery calls no set handler"); return 0; }
static rbusError_t on_add(rbusHandle_t h, char const* t, char const* a, uint32_t* n) { (void)h; (void)t; (void)a; (void)n; vp_error("discovery adds no row"); return RBUS_ERROR_BUS_ERROR; }
static rbusError_t on_del(rbusHandle_t h, char const* r) { (void)h; (void)r; vp_error("discovery removes no row"); return RBUS_ERROR_BUS_ERROR; }
static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t i, bool* au) { (void)h; (void)a; (void)n; (void)f; (void)i; (void)au; vp_error("discovery subscribes to nothing"); return 0; }
static rbusError_t on_call(rbusHandle_t h, char const* m, rbusObject_t i, rbusObject_t o, rbusMethodAsyncHandle_t a) { (void)h; (void)m; (void)i; (void)o; (void)a; vp_error("discovery calls no method"); return 0; }
enum { PROP = RBUS_ELEMENT_TYPE_PROPERTY, TAB = RBUS_ELEMENT_TYPE_TABLE, EV = RBUS_ELEMENT_TYPE_EVENT, ME = RBUS_ELEMENT_TYPE_METHOD, G = RBUS_ACCESS_GET, W = RBUS_ACCESS_SET, A = RBUS_ACCESS_ADDROW, D = RBUS_ACCESS_REMOVEROW, SU = RBUS_ACCESS_SUBSCRIBE, I = RBUS_ACCESS_INVOKE };
static rbusDataElement_t el_p[] = { { "Device.D.A", PROP, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.D.M()", ME, { NULL, NULL, NULL, NULL, NULL, on_call } }, { "Device.D.E!", EV, { NULL, NULL, NULL, NULL, on_sub, NULL } }, { "Device.D.T.{i}.", TAB, { NULL, NULL, on_add, on_del, NULL, NULL } }, { "Device.D.T.{i}.P", PROP, { on_get, NULL, NULL, NULL, on_sub, NULL } }, { "Device.D.T.{i}.U.{i}.", TAB, { NULL, NULL, on_add, NULL, NULL, NULL } }, { "Device.D.T.{i}.U.{i}.V", PROP, { NULL, on_set, NULL, NULL, NULL, NULL } } };
static rbusDataElement_t el_q[] = { { "Device.D.X", PROP, { NULL, on_set, NULL, NULL, NULL, NULL } }, { "Device.Q.B", PROP, { on_get, NULL, NULL, NULL, NULL, NULL } } };
enum { NP = 7, NQ = 2 };
/* every element there may be: its name, its depth, what it is, whose it is, and the row it needs */
static int row[3]; static const char* alias[3]; enum { T1 = 1, T2 = 2, U1 = 3 };
static const struct node { const char* name; int level, type, access, owner, needs; } node[] = {
  { "Device.", 0, 0, 0, 0, 0 }, { "Device.D.", 1, 0, 0, 0, 0 }, { "Device.D.A", 2, PROP, G | W, 0, 0 }, { "Device.D.M()", 2, ME, I, 0, 0 }, { "Device.D.E!", 2, EV, SU, 0, 0 }, { "Device.D.T.", 2, TAB, A | D, 0, 0 },
  { "Device.D.T.1.", 3, 0, G | W, 0, T1 }, { "Device.D.T.1.P", 4, PROP, G | SU, 0, T1 }, { "Device.D.T.1.U.", 4, TAB, A, 0, T1 }, { "Device.D.T.1.U.1.", 5, 0, G | W, 0, U1 }, { "Device.D.T.1.U.1.V", 6, PROP, W, 0, U1 },
  { "Device.D.T.2.", 3, 0, G | W, 0, T2 }, { "Device.D.T.2.P", 4, PROP, G | SU, 0, T2 }, { "Device.D.T.2.U.", 4, TAB, A, 0, T2 },
  { "Device.", 0, 0, 0, 1, 0 }, { "Device.D.", 1, 0, 0, 1, 0 }, { "Device.D.X", 2, PROP, W, 1, 0 }, { "Device.Q.", 1, 0, 0, 1, 0 }, { "Device.Q.B", 2, PROP, G, 1, 0 } };
enum { NN = sizeof node / sizeof *node };
static int there(int i) { return !node[i].needs || row[node[i].needs - 1]; }
static int under(const char* n, const char* top) { size_t l = strlen(top); return !strncmp(n, top, l) && (n[l] == 0 || top[l - 1] == '.'); }
/* ---- each question and its answer ---- */
static void ask_elements(const char* q, const char* top, int level, int depth) {
  rbusElementInfo_t* l = (void*)1; int rc = rbusElementInfo_get(hc, q, depth, &l); int known = 0, n = 0, want = 0, found = 0, same = 1; for (int i = 0; i < NN; i++) known |= there(i) && !strcmp(node[i].name, top);
  int ad = depth < 0 ? -depth : depth; for (rbusElementInfo_t* e = l; e; e = e->next) n++;
  for (int i = 0; i < NN; i++) if (there(i) && under(node[i].name, top)) { int d = node[i].level - level, in = depth < 0 ? d == ad : d <= depth; want += in; if (!in) continue; int k = 0; for (rbusElementInfo_t* e = l; e; e = e->next) if (!strcmp(e->name, node[i].name) && !strcmp(e->component, node[i].owner ? "q" : "p")) { k++; same &= ((int)e->type == node[i].type) & ((int)e->access == node[i].access); } found += k == 1; }
  if (known) vp_check(rc == 0, "elements which are there can be listed"); else vp_check(!l, "there is nothing inside what does not exist"); if (known) { vp_check(n == want && found == want, "exactly the elements there are, down to the depth asked for, are listed, once each"); vp_check(same, "an element is listed as what it is and with what it allows"); } rbusElementInfo_free(hc, l); }
static void ask_rows(const char* t, const char* real, int first, int n, int exists) { rbusRowName_t* l = NULL; int rc = rbusTable_getRowNames(hc, t, &l); if (!exists) { vp_check(rc != 0 && !l, "what is no table, or is not there, has no rows"); return; } int k = 0, want = 0, ok = rc == 0; char nm[64]; (void)real; for (int i = 0; i < n; i++) want += row[first + i]; for (rbusRowName_t* r = l; r; r = r->next) { k++; int i = (int)r->instNum - 1; snprintf(nm, sizeof nm, "%s%d.", t, i + 1); ok &= i >= 0 && i < n && row[first + i] && !strcmp(r->name, nm) && (alias[first + i] ? r->alias && !strcmp(r->alias, alias[first + i]) : !r->alias); for (rbusRowName_t* o = r->next; o; o = o->next) ok &= o->instNum != r->instNum; } vp_check(ok && k == want, "a table's rows are listed once each, with their numbers and names"); rbusTable_freeRowNames(hc, l); }
static int owner(const char* n) { return !strcmp(n, "Device.D.X") || !strcmp(n, "Device.Q.B") || !strcmp(n, "q") ? 1 : !strcmp(n, "Device.Z") || !strcmp(n, "z") ? -1 : 0; }
static void ask_owner(int k) { static const char* nm[7] = { "Device.D.A", "Device.D.T.{i}.P", "Device.D.X", "Device.Q.B", "Device.D.M()", "Device.D.T.1.P", "Device.Z" }; const char* q[3]; int z = 0; for (int i = 0; i < k; i++) { q[i] = nm[vp_choose(k > 1 ? 6 : 7, "element")]; z |= owner(q[i]) < 0; }
  char** l = NULL; int n = -1, rc = rbus_discoverComponentName(hc, k, q, &n, &l), ok = 1; if (z) vp_check(n == 0, "what nobody provides is provided by nobody"); else { ok = rc == 0 && n == k; for (int i = 0; ok && i < n; i++) ok &= !strcmp(l[i], owner(q[i]) ? "q" : "p"); vp_check(ok, "elements are found with their providers, in the order asked"); } for (int i = 0; i < n; i++) free(l[i]); free(l); }
static void ask_component(int w) { static const char* nm[3] = { "p", "q", "z" }; char** l = NULL; int n = -1, rc = rbus_discoverComponentDataElements(hc, nm[w], false, &n, &l), ok = 1; int k = w == 0 ? NP : w == 1 ? NQ : -1; rbusDataElement_t* e = w ? el_q : el_p; (void)rc;
  if (w == 2) vp_check(n == 0 && !l, "a component that is not there has no elements"); else { ok = rc == 0 && n == k + 1; for (int i = 0; ok && i < k + 1; i++) { const char* x = i < k ? e[i].name : nm[w]; size_t xl = strlen(x); if (x[xl - 1] == '.') xl--; int f = 0; for (int j = 0; j < n; j++) f += strlen(l[j]) >= xl && !strncmp(l[j], x, xl) && (l[j][xl] == 0 || !strcmp(l[j] + xl, ".")); ok &= f == 1; } vp_check(ok, "a component's elements are listed once each"); } for (int i = 0; i < n; i++) free(l[i]); free(l); }
static void start(void) { vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hq, "q") == 0 && rbus_open(&hc, "c") == 0, "components open"); vp_check(rbus_regDataElements(hp, NP, el_p) == 0 && rbus_regDataElements(hq, NQ, el_q) == 0, "elements register"); }
static void row_on(int i, const char* a) { alias[i] = a; row[i] = 1; vp_check(rbusTable_registerRow(hp, i == 2 ? "Device.D.T.1.U." : "Device.D.T.", i == 2 ? 1 : (uint32_t)i + 1, a) == 0, "a row registers"); }
static void row_off(int i) { row[i] = 0; if (i == 0) row[2] = 0; vp_check(rbusTable_unregisterRow(hp, i == 2 ? "Device.D.T.1.U.1" : i ? "Device.D.T.2" : "Device.D.T.1") == 0, "a row unregisters"); }
static void any_row(void) { int i = (int)vp_choose(3, "row"); static const char* al[2] = { NULL, "a" }; if (row[i]) row_off(i); else if (i == 2 && !row[0]) vp_end_path(); else row_on(i, i < 2 && row[1 - i] && alias[1 - i] ? NULL : al[vp_choose(2, "alias")]); }
static void ask(int kind) {
  switch (kind) {
    case 0: { int i = (int)vp_choose(NN, "element"); int32_t d = (int32_t)vp_u32("depth"); vp_assume((uint32_t)d + 17u <= 34u); if (d > 16 || d < -16) { rbusElementInfo_t* l = NULL; vp_check(rbusElementInfo_get(hc, node[i].name, d, &l) == RBUS_ERROR_INVALID_INPUT && !l, "no element is deeper than names can be"); break; } ask_elements(node[i].name, node[i].name, node[i].level, d); break; }
    case 1: { static const struct { const char *q, *top; int level; } odd[] = { { "Device.D.T.[a].", "Device.D.T.?.", 3 }, { "Device.D.T.[b].", "Device.D.T.9.", 3 }, { "Device.D.T.[a].U.", "Device.D.T.?.U.", 4 }, { "Device.D.T.7.", "Device.D.T.7.", 3 }, { "Device.Z.", "Device.Z.", 1 }, { "Device.D.A.", "Device.D.A.", 2 } }; int i = (int)vp_choose(6, "name"), d = (int)vp_choose(3, "depth") * 2 - 1; char top[64]; strcpy(top, odd[i].top); char* m = strchr(top, '?'); if (m) *m = row[0] && alias[0] ? '1' : row[1] && alias[1] ? '2' : '9'; if (i == 5) { rbusElementInfo_t* l = NULL; rbusElementInfo_get(hc, odd[i].q, d, &l); rbusElementInfo_free(hc, l); break; } ask_elements(odd[i].q, top, odd[i].level, d); break; }
    case 2: { static const struct { const char* t; int first, n, needs; } tb[5] = { { "Device.D.T.", 0, 2, 0 }, { "Device.D.T.1.U.", 2, 1, T1 }, { "Device.D.T.2.U.", 0, 0, T2 }, { "Device.D.", 0, 0, 9 }, { "Device.Z.", 0, 0, 9 } }; int i = (int)vp_choose(5, "table"); ask_rows(tb[i].t, tb[i].t, tb[i].first, tb[i].n, !tb[i].needs || (tb[i].needs < 9 && row[tb[i].needs - 1])); break; }
    case 3: ask_owner(1 + (int)vp_choose(3, "elements")); break;
    default: ask_component((int)vp_choose(3, "component")); } }
static void end(void) { rbus_unregDataElements(hp, NP, el_p); rbus_unregDataElements(hq, NQ, el_q); vp_check(rbus_close(hq) == 0 && rbus_close(hp) == 0 && rbus_close(hc) == 0, "components close"); }
static void histories(void) { int pre = (int)vp_param("pre", 0), kind = (int)vp_param("kind", 0); start(); for (int i = 0; i < 3; i++) if (pre >> i & 1) row_on(i, i == 1 ? NULL : "a"); for (int k = 0; k < (int)vp_param("ops", 1); k++) any_row(); ask_rows("Device.D.T.", 0, 0, 2, 1); ask_elements("Device.D.A", "Device.D.A", 2, 0); uint64_t base = vp_heap_live(); ask(kind); vp_check(vp_heap_live() == base, "asking leaves no memory"); vp_reach("histories"); end(); }
/* the router does not answer, or a provider does not */
static void unanswered(void) { start(); row_on(0, "a"); ask_rows("Device.D.T.", 0, 0, 2, 1); ask_elements("Device.D.A", "Device.D.A", 2, 0); int kind = (int)vp_choose(2, "question"); uint64_t base = vp_heap_live(); bus_fail_requests = 1; if (kind == 0) { rbusRowName_t* l = (void*)1; int rc = rbusTable_getRowNames(hc, "Device.D.T.", &l); vp_check(rc != 0 && !l, "an unanswered question is reported"); } else { rbusElementInfo_t* l = NULL; int rc = rbusElementInfo_get(hc, "Device.D.A", 0, &l); vp_check(rc != 0 && !l, "an unanswered question is reported"); } bus_fail_requests = 0; vp_check(vp_heap_live() == base, "asking leaves no memory"); ask_rows("Device.D.T.", 0, 0, 2, 1); vp_reach("unanswered"); end(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: histories(); break; case 1: unanswered(); break; } return 0; }
