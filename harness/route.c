/* The router's table of topics against a plain list of registrations. */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include "rtRoutingTree.h"
#include "rtError.h"
const char* rtStrError(rtError e) { (void)e; return "error"; } rtError rtErrorFromErrno(int e) { (void)e; return RT_ERROR; }
enum { DEP = 3, MAXE = 10, NR = 3 };
struct ex { int n; unsigned char t[DEP]; }; /* parts are any byte followed by i}: rows of a table when it is a brace */
struct ent { struct ex e; int routes; };
static struct ent m[MAXE]; static int nm; static int rts[NR]; static rtRoutingTree rt;
static void put(char* s, const struct ex* e, int dot) { for (int i = 0; i < e->n; i++) { if (i) *s++ = '.'; *s++ = (char)e->t[i]; *s++ = 'i'; *s++ = '}'; } if (dot) *s++ = '.'; *s = 0; }
static int pfx(const struct ex* a, const struct ex* b, int n) { int ok = 1; for (int i = 0; i < n; i++) ok &= a->t[i] == b->t[i]; return ok; }
static int under(const struct ex* p, int n) { for (int j = 0; j < nm; j++) if (m[j].e.n >= n && pfx(&m[j].e, p, n)) return 1; return 0; } /* something is registered at or below */
static int child(const struct ex* p, int n, int table) { for (int j = 0; j < nm; j++) if (m[j].e.n > n && pfx(&m[j].e, p, n) && (!table || m[j].e.t[n] == '{')) return 1; return 0; }
static int inst(unsigned char c) { return ((c >= '0') & (c <= '9')) | (c == '[') | (c == '*'); }
static int find(const struct ex* e) { for (int j = 0; j < nm; j++) if (m[j].e.n == e->n && pfx(&m[j].e, e, e->n)) return j; return -1; }
static int walk(struct ex* e) { for (int k = 0; k < e->n; k++) { if (under(e, k + 1)) continue; if (inst(e->t[k])) { unsigned char c = e->t[k]; e->t[k] = '{'; if (under(e, k + 1)) continue; e->t[k] = c; } return 0; } return 1; }
static void drop(int j) { m[j] = m[--nm]; }
static int madd(const struct ex* e0, int r, int dup) { struct ex e = *e0;
  for (int k = 0; k < e.n; k++) { if (under(&e, k + 1)) continue; if (inst(e.t[k]) && child(&e, k, 1)) { e.t[k] = '{'; continue; } if (child(&e, k, 1) || (e.t[k] == '{' && child(&e, k, 0))) return RT_ERROR_PROTOCOL_ERROR; break; }
  int j = find(&e); if (j >= 0 && dup) return RT_ERROR_DUPLICATE_ENTRY; if (j < 0) { j = nm++; m[j].e = e; m[j].routes = 0; } m[j].routes |= 1 << r; return RT_OK; }
static void mremove(const struct ex* e) { int j = find(e); if (j >= 0) drop(j); }
static void mgone(int r) { for (int j = nm - 1; j >= 0; j--) { m[j].routes &= ~(1 << r); if (!m[j].routes) drop(j); } }
static int mroutes(const struct ex* e0, int dot) { struct ex e = *e0; int s = 0; if (!walk(&e)) return 0; if (dot) { for (int j = 0; j < nm; j++) if (m[j].e.n > e.n && pfx(&m[j].e, &e, e.n)) s |= m[j].routes; return s; } if (e.n < DEP && child(&e, e.n, 1)) e.t[e.n++] = '{'; int j = find(&e); return j < 0 ? 0 : m[j].routes; }
static int num(void* p) { for (int r = 0; r < NR; r++) if (p == &rts[r]) return r; return -1; }
static int got(rtList l, int* once) { int s = 0; *once = 1; if (!l) return 0; rtListItem it; rtList_GetFront(l, &it); while (it) { rtTreeRoute* tr; rtListItem_GetData(it, (void**)&tr); int r = num(tr->route); if (r < 0 || (s >> r & 1)) { *once = 0; break; } s |= 1 << r; rtListItem_GetNext(it, &it); } return s; }
static void mk(struct ex* e, int d) { e->n = d; for (int i = 0; i < d; i++) { unsigned char c = vp_u8("part"); vp_assume((c > 0x20) & (c != '.')); e->t[i] = c; } }
static void routes_of(void) { for (int r = 0; r < NR; r++) { rtList l = NULL; rtRoutingTree_GetRouteTopics(rt, &rts[r], &l); int want = 0, ok = 1, n = 0; for (int j = 0; j < nm; j++) want += m[j].routes >> r & 1;
    if (l) { rtListItem it; rtList_GetFront(l, &it); while (it) { rtTreeTopic* t; rtListItem_GetData(it, (void**)&t); int f = 0; for (int j = 0; j < nm; j++) if (m[j].routes >> r & 1) { char s[32]; put(s, &m[j].e, 0); f |= !strcmp(s, t->fullName); } ok &= f; n++; rtListItem_GetNext(it, &it); } }
    vp_check(ok && n == want, "a component is listed with exactly its own names"); } }
static void lookup(int d) { struct ex e; mk(&e, d); int dot = (int)vp_choose(2, "dot"), once; char s[32]; put(s, &e, dot); rtList l = NULL; rtRoutingTree_GetTopicRoutes(rt, s, &l); int g = got(l, &once), w = mroutes(&e, dot);
  vp_check(once && g == w, "a message is routed to exactly those who registered its name");
  rtList_Create(&l); rtRoutingTree_ResolvePartialPath(rt, s, l); w = mroutes(&e, 1); g = 0; int ok = 1; rtListItem it; rtList_GetFront(l, &it); int n = 0; while (it && n < 8) { char* t; rtListItem_GetData(it, (void**)&t); int o = 0; for (int j = 0; j < nm; j++) { char q[32]; put(q, &m[j].e, 0); if (!strcmp(q, t)) o = m[j].routes; } ok &= (o & w) != 0; g |= o & w; n++; rtListItem_GetNext(it, &it); }
  int c = 0; for (int r = 0; r < NR; r++) c += w >> r & 1; vp_check(ok && n == c && g == w, "a path is resolved to one name of each component below it"); rtList_Destroy(l, NULL); }
static int op1(int op, int r, int d, int any) { struct ex e; if (any && op < 2 && vp_param("kinds", 1)) any += (int)vp_choose(2, "kind"); char t[32]; if (op < 2) { mk(&e, 1 + (int)vp_choose((uint32_t)d, "depth")); put(t, &e, any && any != 2); }
  if (op == 0) { int dup = any != 2; int rc = rtRoutingTree_AddTopicRoute(rt, t, &rts[r], dup); vp_check(rc == madd(&e, r, dup), "a name is registered unless it is taken or is beside a table"); return rc; }
  if (op == 1) { rtRoutingTree_RemoveTopic(rt, t); mremove(&e); } else { rtRoutingTree_RemoveRoute(rt, &rts[r]); mgone(r); } return 0; }
static void history(void) { int ops = (int)vp_param("ops", 3), d = (int)vp_param("dep", 2);
  for (int s = 0; s < ops; s++) { int op = s == 0 ? 0 : s == 1 ? (int)vp_param("op1", 0) : s == ops - 1 ? (int)vp_param("op2", 0) : (int)vp_choose(3, "op"); op1(op, s == 0 || op == 1 ? 0 : s == ops - 1 && vp_param("who", 3) < 3 ? (int)vp_param("who", 3) : s < 2 ? (op == 2 || !vp_param("kinds", 1) ? op == 0 : (int)vp_choose(2, "who")) : (int)vp_choose(NR, "who"), s == 0 ? (int)vp_param("d0", 2) : d, s == ops - 1); routes_of(); }
  lookup(1 + (int)vp_choose((uint32_t)d, "depth")); vp_reach("history"); }
static void mfix(const char* s, int r) { struct ex e = { 0 }; const char* p = s; while (*p) { e.t[e.n++] = (unsigned char)*p; p++; if (*p == '.') p++; } char t[32]; put(t, &e, 0); vp_check(rtRoutingTree_AddTopicRoute(rt, t, &rts[r], 1) == madd(&e, r, 1), "names of several components are registered"); }
static void deep(void) { static const char* in[3][5] = { { "A", "B.{", "B.{.X", "B.{.Y", "B.{.Z" }, { "A.{.{", "A.{.{", "A.{", "A", "B.X.Y" }, { "A.B.C", "A.B.D", "A.B", "A", "B" } }; static const int own[3][5] = { { 0, 1, 1, 2, 0 }, { 0, 1, 2, 0, 1 }, { 0, 1, 0, 1, 2 } };
  int w = (int)vp_param("tree", 0); for (int i = 0; i < 5; i++) mfix(in[w][i], own[w][i]); routes_of(); int op = (int)vp_param("op", 0); op1(op, op == 1 ? 0 : (int)vp_choose(NR, "who"), 3, 0); routes_of(); if (vp_param("more", 0)) { op = (int)vp_choose(3, "op"); op1(op, op == 1 ? 0 : (int)vp_choose(NR, "who"), 3, 0); routes_of(); }
  lookup(1 + (int)vp_choose(DEP, "depth")); vp_reach("deep"); }
static int plain(unsigned char c) { return (c >= 'a' && c <= 'z'); }
static void any(void) { /* every short text, and texts around the limits: refused or found again, nothing else disturbed */
  static char s[600], q[600]; int n = 0, k = (int)vp_param("n", 4), mode = (int)vp_param("mode", 0); rtRoutingTree_AddTopicRoute(rt, "keep.me", &rts[1], 1); 
  if (mode == 0) n = (int)vp_string(s, 0, (uint32_t)k, "c");
  else if (mode == 1) { int parts = 30 + (int)vp_choose(6, "parts"); for (int i = 0; i < parts; i++) { s[n++] = (char)('a' + (i == 0 ? 0 : i % 3)); s[n++] = '.'; } if (vp_choose(2, "dot")) n--; s[n] = 0; }
  else { n = 505 + (int)vp_choose(16, "len"); memset(s, 'a', (size_t)n); s[0] = 'x'; s[n] = 0; int at = (int)vp_choose(3, "where"); if (at) s[at == 1 ? n - 1 : 250] = '.'; unsigned char c = vp_u8("c"); vp_assume(plain(c)); s[3] = (char)c; }
  int bad = 0, parts = n > 0; for (int i = 0; i + 1 < n; i++) { if (s[i] == '.') { bad |= s[i + 1] == '.'; parts++; } } bad |= n >= 512 || parts > 32; memcpy(q, s, (size_t)n + 1);
  rtList l; rtRoutingTree_GetTopicRoutes(rt, q, &l); rtList_Create(&l); rtRoutingTree_ResolvePartialPath(rt, q, l); rtList_Destroy(l, NULL); rtRoutingTree_RemoveTopic(rt, mode ? q : "other"); 
  int rc = rtRoutingTree_AddTopicRoute(rt, s, &rts[0], 1); int ke = n >= 7 && !memcmp(s, "keep.me", 7) && (n == 7 || (n == 8 && s[7] == '.')), once; vp_check(rc == (bad ? RT_ERROR_INVALID_EXPRESSION : s[0] == '{' || (n > 5 && !memcmp(s, "keep.{", 6)) ? RT_ERROR_PROTOCOL_ERROR : ke ? RT_ERROR_DUPLICATE_ENTRY : RT_OK), "a malformed name is refused, another registered"); vp_check(!memcmp(s, q, (size_t)n + 1), "the name is left as it was");
  if (rc == RT_OK && n > 0) { int dotted = n > 0 && s[n - 1] == '.'; if (dotted && n > 1) q[n - 1] = 0; if (n > 1) { rtRoutingTree_GetTopicRoutes(rt, q, &l); vp_check(got(l, &once) == 1 && once, "a registered name is found"); } rtRoutingTree_GetRouteTopics(rt, &rts[0], &l); rtListItem it = NULL; if (l) rtList_GetFront(l, &it); rtTreeTopic* t = NULL; if (it) rtListItem_GetData(it, (void**)&t); if (n > 1) vp_check(t && !strcmp(t->fullName, q), "a registered name is listed as it is"); if (vp_choose(2, "how")) rtRoutingTree_RemoveRoute(rt, &rts[0]); else rtRoutingTree_RemoveTopic(rt, s); rtRoutingTree_GetTopicRoutes(rt, q, &l); if (n > 1) vp_check(got(l, &once) == 0, "a removed name is gone"); }
  rtRoutingTree_GetTopicRoutes(rt, "keep.me", &l); vp_check(got(l, &once) == 2 && once, "other names stay"); rtRoutingTree_RemoveRoute(rt, &rts[0]); rtRoutingTree_RemoveRoute(rt, &rts[1]); rtRoutingTree_GetTopicRoutes(rt, "keep.", &l); vp_check(!l, "nothing is left once all have gone"); vp_reach("any"); }
int main(void) { uint64_t base = vp_heap_live(); rtRoutingTree_Create(&rt); switch (vp_param("scen", 0)) { case 0: history(); break; case 1: deep(); break; case 2: any(); break; } rtRoutingTree_Destroy(rt); vp_check(vp_heap_live() == base, "the table frees what it held"); return 0; }
