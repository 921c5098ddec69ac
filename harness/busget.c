/* Getting values through the bus: several at once, and whole paths. */
#include "busprov.h"
static int some_error(void) { int e = (int)vp_range("error", 1, 28); vp_assume(e != RBUS_ERROR_ASYNC_RESPONSE); return e; }
/* numbers of one encoded length: how each length travels is decided by the wire checks */
static void mk_num(struct raw* r) { mk_raw(r, K_I32, 0, 0); vp_assume((uint32_t)r->n - 1000u <= 29000u); }
static int count_of(rbusProperty_t l) { int n = 0; for (; l; l = rbusProperty_GetNext(l)) n++; return n; }
static int times_in(rbusProperty_t l, const char* name, const struct raw* v, int* right) { int n = 0; for (; l; l = rbusProperty_GetNext(l)) if (rbusProperty_GetName(l) && !strcmp(rbusProperty_GetName(l), name)) { n++; *right &= is_raw(rbusProperty_GetValue(l), v); } return n; }
static void single(void) { start(0); warm(); uint64_t mid = vp_heap_live(); struct raw* r = &par[PA].cur; mk_raw(r, (int)vp_choose(K_N, "type"), 0, 3); if (r->k == K_F32) vp_assume(((r->n & 0x7f800000u) != 0x7f800000u) | ((r->n & 0x7fffffu) == 0) | ((r->n & 0x400000u) != 0));
  int bad = vp_choose(2, "refuse") ? some_error() : 0; par[PA].refuse_get = bad; const char* nm[1] = { "Device.P.A" }; int n = 9; rbusProperty_t l = (rbusProperty_t)1; int rc = rbus_getExt(hc, 1, nm, &n, &l);
  vp_check(rc == bad, "getting a parameter reports what its provider answered"); vp_check(par[PA].nget == 1 && hgets == 1 && !strcmp(par[PA].who, "c"), "its provider is asked once and told who asks"); if (!bad) { int right = 1; vp_check(n == 1 && count_of(l) == 1 && times_in(l, "Device.P.A", r, &right) == 1 && right, "the value the provider holds is returned under the name"); rbusProperty_Release(l); vp_reach("got"); } else { vp_check(n == 0 && !l, "a failed get returns nothing"); vp_reach("refused"); }
  vp_check(vp_heap_live() == mid, "getting leaks nothing"); stop(); }
static void multi(void) { int third = (int)vp_param("third", 0), n = (int)vp_param("n", 2), set = (int)vp_param("set", 9), lose = (int)vp_param("lose", 0); start(third); warm(); static const int who[] = { PA, PB, PC, PD, PR, PE, PW, -1, -2 }; for (int i = 0; i < NPAR; i++) mk_num(&par[i].cur);
  uint64_t mid = vp_heap_live(); const char* nm[4]; int pick[4], bad = 0; for (int i = 0; i < n; i++) { int c = (int)vp_choose((uint32_t)set, "which"); pick[i] = who[c]; if (pick[i] == PE) vp_assume(hs != NULL); nm[i] = pick[i] == -1 ? "Device.P.X" : pick[i] == -2 ? "Nope.X" : par[pick[i]].name; if (pick[i] < 0 || pick[i] == PW) bad = 1; else { if (vp_choose(2, "refuse")) par[pick[i]].refuse_get = some_error(); if (par[pick[i]].refuse_get) bad = 1; } }
  int got = -1; rbusProperty_t l = (rbusProperty_t)1; if (lose) { bus_fail_at = bus_nrequests + (int)vp_range("lost", 1, 2); vp_concretize((uint64_t)bus_fail_at); } int before = bus_nrequests, rc = rbus_getExt(hc, n, nm, &got, &l); if (lose && bus_fail_at <= bus_nrequests && bus_fail_at > before) bad = 1; bus_fail_at = 0;
  vp_check((rc == RBUS_ERROR_SUCCESS) == !bad, "getting several parameters succeeds exactly when every one could be read"); if (rc == RBUS_ERROR_SUCCESS) { vp_check(got == n && count_of(l) == n, "as many values as were asked for are returned"); int right = 1; for (int i = 0; i < n; i++) { int want = 0; for (int k = 0; k < n; k++) want += pick[k] == pick[i]; vp_check(times_in(l, nm[i], &par[pick[i]].cur, &right) == want, "each parameter is returned once under its name"); } vp_check(right, "each value is the one its provider holds"); rbusProperty_Release(l); for (int i = 0; i < n; i++) vp_check(!strcmp(par[pick[i]].who, "c"), "each provider is told who asks"); vp_reach("all"); }
  else { vp_check(got == 0 && !l, "a failed get of several parameters returns nothing"); vp_reach("some failed"); }
  vp_check(!wrong, "providers are asked for parameters of theirs only"); vp_check(vp_heap_live() == mid, "getting leaks nothing"); stop(); }
static void partial(void) { /* a path ending in a dot: everything readable below it */
  int third = (int)vp_param("third", 1), lose = (int)vp_param("lose", 0); start(third); warm(); for (int i = 0; i < NPAR; i++) mk_num(&par[i].cur); static const char* paths[] = { "Device.", "Device.P.", "Device.Q.", "Device.S.", "Device.Z.", "Nope.", "Device.PP.", "Dev." }; int w = (int)vp_choose(lose ? 1 : 8, "path"); const char* nm[1] = { paths[w] };
  uint64_t mid = vp_heap_live(); int want = 0; for (int i = 0; i < NPAR; i++) { if (i == PW || (i == PE && !hs)) continue; if (vp_choose(2, "refuse")) par[i].refuse_get = 1; if (!strncmp(par[i].name, paths[w], strlen(paths[w])) && !par[i].refuse_get) want++; }
  int got = -1; rbusProperty_t l = (rbusProperty_t)1; if (lose) bus_fail_at = bus_nrequests + 1 + (int)vp_choose(3, "lost"); int before = bus_nrequests, rc = rbus_getExt(hc, 1, nm, &got, &l); int lost = lose && bus_fail_at > before && bus_fail_at <= bus_nrequests; bus_fail_at = 0; int known = w <= 2 || (w == 3 && hs);
  int right = 1, total = 0; if (rc == RBUS_ERROR_SUCCESS) for (int i = 0; i < NPAR; i++) { int t = times_in(l, par[i].name, &par[i].cur, &right); int in = !strncmp(par[i].name, paths[w], strlen(paths[w])) && i != PW && !par[i].refuse_get && (i != PE || hs); vp_check(lost ? t <= in : t == in, "a path returns each readable parameter below it once and no other"); total += t; }
  vp_check(rc == RBUS_ERROR_SUCCESS ? known : !known || lost, "getting a path fails exactly when nobody provides it"); vp_check(right, "each value is the one its provider holds"); if (rc == RBUS_ERROR_SUCCESS) { vp_check(count_of(l) == total && got == total, "the count is that of the values returned"); vp_reach("path"); } else { vp_check(!l && got == 0, "a failed get returns nothing"); vp_reach("unknown"); } if (l) rbusProperty_Release(l);
  for (int i = 0; i < NPAR; i++) vp_check(par[i].nget <= 1, "no parameter is read twice"); vp_check(!wrong, "providers are asked for parameters of theirs only"); vp_check(vp_heap_live() == mid, "getting leaks nothing"); stop(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: single(); break; case 1: multi(); break; case 2: partial(); break; } return 0; }
