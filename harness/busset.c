/* Setting values through the bus. */
#include "busprov.h"
static const int errs[] = { RBUS_ERROR_BUS_ERROR, RBUS_ERROR_INVALID_INPUT, RBUS_ERROR_ACCESS_NOT_ALLOWED, RBUS_ERROR_NOT_WRITABLE };
static int quiet32(uint32_t b) { return ((b & 0x7f800000u) != 0x7f800000u) | ((b & 0x7fffffu) == 0) | ((b & 0x400000u) != 0); }
static int some_error(void) { int e = (int)vp_range("error", 1, 28); vp_assume(e != RBUS_ERROR_ASYNC_RESPONSE); return e; }
static void single(void) { /* one value of any type reaches the handler and comes back unchanged */
  uint64_t base = vp_heap_live(); start(0); warm(); uint64_t mid = vp_heap_live(); struct raw r; mk_raw(&r, (int)vp_choose(K_N, "type"), 0, 3); if (r.k == K_F32) vp_assume(quiet32((uint32_t)r.n)); /* a single travels as a double, which quietens a signalling NaN */ rbusValue_t v = rbusValue_Init(0); set_raw(v, &r); expect.want = r; expect.on = 1; int bad = vp_choose(2, "refuse") ? some_error() : 0; par[PA].refuse_set = bad; rbusSetOptions_t o; memset(&o, 0, sizeof o); o.commit = vp_bool("commit"); o.sessionId = vp_u32("session"); int opts = (int)vp_choose(2, "opts");
  int rc = rbus_set(hc, "Device.P.A", v, opts ? &o : NULL); rbusValue_Release(v); vp_check(rc == bad, "setting a parameter reports what its provider answered"); vp_check(par[PA].nset == 1 && hsets == 1 && !wrong, "setting a parameter calls its provider once"); vp_check(expect.ok, "the provider is handed the value that was set"); vp_check(!strcmp(par[PA].who, "c"), "the provider is told who sets the parameter"); vp_check((par[PA].last_commit != 0) == (opts ? o.commit : 1) && par[PA].last_session == (opts ? o.sessionId : 0), "the provider is told session and commit"); expect.on = 0;
  if (!bad) { rbusValue_t g = NULL; rc = rbus_get(hc, "Device.P.A", &g); vp_check(rc == RBUS_ERROR_SUCCESS && is_raw(g, &r), "getting a parameter returns the value its provider holds"); rbusValue_Release(g); vp_reach("stored"); } else vp_reach("refused"); vp_check(vp_heap_live() == mid, "setting and getting a parameter leaks nothing"); stop(); vp_check(vp_heap_live() == base, "closing frees everything"); }
static void rights(void) { /* read-only, write-only and unknown parameters */
  start(0); warm(); uint64_t mid = vp_heap_live(); mk_raw(&par[PR].cur, K_I32, 0, 0); rbusValue_t v = rbusValue_InitInt32(vp_i32("v")), g = NULL; int w = (int)vp_choose(6, "case");
  if (w == 0) { vp_check(rbus_set(hc, "Device.P.R", v, NULL) == RBUS_ERROR_NOT_WRITABLE && !hsets, "a read-only parameter cannot be set"); }
  else if (w == 1) { vp_check(rbus_get(hc, "Device.P.W", &g) != RBUS_ERROR_SUCCESS && !g && !hgets, "a write-only parameter cannot be read"); }
  else if (w == 2) { static const char* nm[] = { "Device.P.X", "Device.P", "Device.P.A.B", "Device", "Nope.A", "Device.P.AA" }; const char* n = nm[vp_choose(6, "name")]; vp_check(rbus_set(hc, n, v, NULL) != RBUS_ERROR_SUCCESS && !hsets, "setting an unknown parameter fails"); vp_check(rbus_get(hc, n, &g) != RBUS_ERROR_SUCCESS && !g && !hgets, "getting an unknown parameter fails"); }
  else if (w == 3) { rbusValue_t z = rbusValue_Init(0); vp_check(rbus_set(hc, "Device.P.A", z, NULL) != RBUS_ERROR_SUCCESS && !hsets, "a value without a type cannot be set"); rbusValue_Release(z); }
  else if (w == 4) { vp_check(rbus_set(hc, "Device.P.*", v, NULL) != RBUS_ERROR_SUCCESS && rbus_set(hc, "Device.P.", v, NULL) != RBUS_ERROR_SUCCESS && !hsets, "a pattern cannot be set"); vp_check(rbus_get(hc, "Device.P.*", &g) != RBUS_ERROR_SUCCESS && rbus_get(hc, "Device.P.", &g) != RBUS_ERROR_SUCCESS && rbus_get(hc, "", &g) != RBUS_ERROR_SUCCESS && !g, "a pattern is not a single parameter"); }
  else { int bad = some_error(); par[PA].refuse_get = bad; vp_check(rbus_get(hc, "Device.P.A", &g) == bad && !g, "getting a parameter reports what its provider answered"); }
  rbusValue_Release(v); vp_check(vp_heap_live() == mid, "refused requests leak nothing"); vp_reach("refused"); stop(); }
/* numbers of one encoded length: how each length travels is checked above and in the wire checks */
static void mk_num(struct raw* r) { mk_raw(r, K_I32, 0, 0); vp_assume((uint32_t)r->n - 1000u <= 29000u); }
static void multi(void) { /* several parameters: all or nothing */
  start((int)vp_param("third", 0)); warm(); int n = (int)vp_param("n", 2); static const int rw[] = { PA, PB, PC, PD, PE }; static const char* miss = "Device.P.X"; int pick[4]; int set = (int)vp_param("set", 5); struct raw old[NPAR], nv[4]; for (int i = 0; i < NPAR; i++) { mk_num(&par[i].cur); old[i] = par[i].cur; }
  uint64_t mid = vp_heap_live(); rbusProperty_t list = NULL; int bad = 0, seen = 0, badq = 0; char* failed = NULL;
  for (int i = 0; i < n; i++) { int c = (int)vp_choose((uint32_t)set, "which"); pick[i] = c < 5 ? rw[c] : c == 5 ? PR : c == 6 ? PW : -1; if (pick[i] == PE) vp_assume(hs != NULL); if (pick[i] >= 0) { vp_assume(!(seen & (1 << pick[i]))); seen |= 1 << pick[i]; } mk_num(&nv[i]); rbusValue_t v = rbusValue_Init(0); set_raw(v, &nv[i]); rbusProperty_t p; rbusProperty_Init(&p, pick[i] < 0 ? miss : par[pick[i]].name, v); rbusValue_Release(v); if (!list) list = p; else { rbusProperty_Append(list, p); rbusProperty_Release(p); }
    if (pick[i] < 0 || pick[i] == PR) bad = 1; else if (vp_choose(2, "refuse")) { par[pick[i]].refuse_set = RBUS_ERROR_INVALID_INPUT; bad = 1; } }
  (void)badq; int rc; int ext = (int)vp_choose(2, "ext"); if (ext) rc = rbus_setMultiExt(hc, (uint32_t)n, list, NULL, 0, &failed); else rc = rbus_setMulti(hc, n, list, NULL);
  vp_check((rc == RBUS_ERROR_SUCCESS) == !bad, "a multiple set succeeds exactly when every parameter was accepted"); vp_check(nullvalues == 0, "no handler is handed a missing value");
  for (int i = 0; i < n; i++) if (pick[i] >= 0) { if (!bad) vp_check(raw_eq(&par[pick[i]].cur, &nv[i]), "a successful multiple set stores every value"); else if (pick[i] != PW) vp_check(raw_eq(&par[pick[i]].cur, &old[pick[i]]), "a failed multiple set leaves every parameter as it was"); }
  for (int i = 0; i < NPAR; i++) if (!(seen & (1 << i))) vp_check(raw_eq(&par[i].cur, &old[i]) && !par[i].nset, "a multiple set touches no other parameter");
  if (bad && failed) { int named = 0; for (int i = 0; i < n; i++) { int fails = pick[i] < 0 || pick[i] == PR || par[pick[i]].refuse_set; named |= fails && !strcmp(failed, pick[i] < 0 ? miss : par[pick[i]].name); } vp_check(named, "the parameter reported as failed is one that failed"); }
  if (bad && ext) { int unroutable = 0; for (int i = 0; i < n; i++) unroutable |= pick[i] < 0; if (!unroutable) vp_check(failed != NULL, "a failed multiple set names the parameter that failed"); }
  free(failed); rbusProperty_Release(list); vp_check(vp_heap_live() == mid, "a multiple set leaks nothing"); if (bad) vp_reach("rolled back"); else vp_reach("stored"); stop(); }
static void lost(void) { /* one provider does not answer */
  start(0); warm(); int n = 2; static const int ps[] = { PA, PC }; struct raw old[2], nv[2]; rbusProperty_t list = NULL; int rev = (int)vp_choose(2, "order"); for (int i = 0; i < 2; i++) { int q = ps[i ^ rev]; mk_num(&par[q].cur); old[i] = par[q].cur; mk_num(&nv[i]); rbusValue_t v = rbusValue_Init(0); set_raw(v, &nv[i]); rbusProperty_t p; rbusProperty_Init(&p, par[q].name, v); rbusValue_Release(v); if (!list) list = p; else { rbusProperty_Append(list, p); rbusProperty_Release(p); } } uint64_t mid = vp_heap_live();
  bus_fail_at = 1 + (int)vp_choose(2, "which request"); bus_nrequests = 0; int at = bus_fail_at; int rc = rbus_setMulti(hc, n, list, NULL); vp_check(rc != RBUS_ERROR_SUCCESS, "a multiple set fails when a provider does not answer"); for (int i = 0; i < 2; i++) { int q = ps[i ^ rev]; vp_check(raw_eq(&par[q].cur, &old[i]), "parameters are as before when a provider did not answer"); } (void)at; vp_check(vp_heap_live() == mid, "a lost answer leaks nothing"); rbusProperty_Release(list); vp_reach("lost"); stop(); }
static void typed(void) { /* convenience setters and getters */
  start(0); warm(); uint64_t mid = vp_heap_live(); int k = (int)vp_choose(4, "type"); par[PA].cur.k = K_I32; if (k == 0) { int x = vp_i32("x"), y = 0; mk_raw(&expect.want, K_I32, 0, 0); expect.want.n = (uint32_t)x; expect.on = 1; vp_check(rbus_setInt(hc, "Device.P.A", x) == 0 && expect.ok, "setInt hands over the number"); vp_check(rbus_getInt(hc, "Device.P.A", &y) == 0 && x == y, "getInt returns it"); unsigned u = 7; vp_check(rbus_getUint(hc, "Device.P.A", &u) != 0 && u == 7, "a getter of another type is refused"); }
  else if (k == 1) { unsigned x = vp_u32("x"), y = 0; mk_raw(&expect.want, K_U32, 0, 0); expect.want.n = x; expect.on = 1; vp_check(rbus_setUInt(hc, "Device.P.A", x) == 0 && expect.ok, "setUInt hands over the number"); vp_check(rbus_getUint(hc, "Device.P.A", &y) == 0 && x == y, "getUint returns it"); int i = 7; vp_check(rbus_getInt(hc, "Device.P.A", &i) != 0 && i == 7, "a getter of another type is refused"); }
  else if (k == 2) { bool x = vp_bool("x"), y = false; mk_raw(&expect.want, K_BOOL, 0, 0); expect.want.n = x; expect.on = 1; vp_check(rbus_setBoolean(hc, "Device.P.A", x) == 0 && expect.ok, "setBoolean hands over the value"); vp_check(rbus_getBoolean(hc, "Device.P.A", &y) == 0 && x == y, "getBoolean returns it"); }
  else { char* s = NULL; mk_raw(&expect.want, K_STR, 0, 3); expect.on = 1; vp_check(rbus_setStr(hc, "Device.P.A", (char*)expect.want.b) == 0 && expect.ok, "setStr hands over the text"); vp_check(rbus_getStr(hc, "Device.P.A", &s) == 0 && s && !strcmp(s, (char*)expect.want.b), "getStr returns it"); free(s); }
  vp_check(vp_heap_live() == mid, "typed access leaks nothing"); vp_reach("typed"); stop(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: single(); break; case 1: rights(); break; case 2: multi(); break; case 3: lost(); break; case 4: typed(); break; } return 0; }
