/* Components of one process come and go: each takes along what is its own and nothing of the others. */
#define BUS_INBOX "rbus.life.INBOX.100" /* the process has number 100, as in getpid() of the environment */
#include "bus.h"
#include <errno.h>
enum { K = 3 };
static const char* comp[K] = { "a", "b", "c" };
static rbusHandle_t h[K], gone; static int up[K]; static int32_t val[K], cached[K]; static int inval[K];
/* sub[i][j][k]: component i wants k of component j: its event, its property's changes, its property now and then */
static struct sub { int i, j, k, on, got, bad; } S[K][K][3]; static int32_t sent;
static const char* P[K] = { "Device.L.A.P", "Device.L.B.P", "Device.L.C.P" }, *E[K] = { "Device.L.A.E!", "Device.L.B.E!", "Device.L.C.E!" }, *M[K] = { "Device.L.A.M()", "Device.L.B.M()", "Device.L.C.M()" };
static int of(const char* n) { for (int j = 0; j < K; j++) if (!strncmp(n, P[j], 11)) return j; vp_error("a handler is called for another's element"); return 0; }
static rbusError_t on_get(rbusHandle_t x, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)o; int j = of(rbusProperty_GetName(p)); if (!up[j] || x != h[j]) { vp_error("a component is called once it has closed"); } rbusValue_t v = rbusValue_InitInt32(val[j]); rbusProperty_SetValue(p, v); rbusValue_Release(v); return 0; }
static rbusError_t on_set(rbusHandle_t x, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)o; int j = of(rbusProperty_GetName(p)); if (!up[j] || x != h[j]) vp_error("a component is called once it has closed"); val[j] = rbusValue_GetInt32(rbusProperty_GetValue(p)); return 0; }
static rbusError_t on_call(rbusHandle_t x, const char* n, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t a) { (void)in; (void)a; int j = of(n); if (!up[j] || x != h[j]) vp_error("a component is called once it has closed"); rbusValue_t v = rbusValue_InitInt32(j); rbusObject_SetValue(out, "who", v); rbusValue_Release(v); return 0; }
static void reg(int j) { rbusDataElement_t e[3] = { { (char*)P[j], RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, 0, 0, 0, 0 } }, { (char*)E[j], RBUS_ELEMENT_TYPE_EVENT, { 0, 0, 0, 0, 0, 0 } }, { (char*)M[j], RBUS_ELEMENT_TYPE_METHOD, { 0, 0, 0, 0, 0, on_call } } }; vp_check(rbus_regDataElements(h[j], 3, e) == 0, "elements register"); }
static void on_event(rbusHandle_t x, rbusEvent_t const* e, rbusEventSubscription_t* s) { struct sub* r = s->userData; r->got++; if (!up[r->i] || x != h[r->i] || strcmp(e->name, r->k ? P[r->j] : E[r->j]) || e->type != (r->k == 0 ? RBUS_EVENT_GENERAL : r->k == 1 ? RBUS_EVENT_VALUE_CHANGED : RBUS_EVENT_INTERVAL)) r->bad = 1; else if (r->k == 0) { rbusValue_t v = rbusObject_GetValue(e->data, "v"); r->bad |= !v || rbusValue_GetInt32(v) != sent; } else if (r->k == 1) { rbusValue_t v = rbusObject_GetValue(e->data, "value"); r->bad |= !v || rbusValue_GetInt32(v) != val[r->j]; } }
static rbusEventSubscription_t ex(struct sub* s) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = s->k ? P[s->j] : E[s->j]; x.interval = s->k == 2 ? 5 : 0; x.handler = on_event; x.userData = s; return x; }
static int others_watch(int i, int j) { int w = 0; for (int t = 0; t < K; t++) w |= t != i && up[t] && S[t][j][1].on; return w; }
static void sub(int i, int j, int k) { struct sub* s = &S[i][j][k]; rbusEventSubscription_t x = ex(s); int rc = rbusEvent_SubscribeEx(h[i], &x, 1, 0); vp_check((rc == 0) == (up[j] && !s->on), "what there is can be subscribed to, once"); if (rc == 0) { s->on = 1; if (k == 1 && !others_watch(i, j)) cached[j] = val[j]; } vp_run_others(); }
static void unsub(int i, int j, int k) { struct sub* s = &S[i][j][k]; rbusEventSubscription_t x = ex(s); int rc = rbusEvent_UnsubscribeEx(h[i], &x, 1); if (!s->on) vp_check(rc != 0, "a subscription is ended once"); else if (up[j]) vp_check(rc == 0, "a subscription can be ended"); s->on = 0; vp_run_others(); }
static void start(int i) { rbusHandle_t x = NULL; vp_check(rbus_open(&x, comp[i]) == 0 && x, "a component opens"); if (up[i]) for (int j = 0; j < K; j++) for (int k = 0; k < 3; k++) S[i][j][k].on = 0; h[i] = x; up[i] = 1; }
static void shut(int i) { gone = h[i]; rbusHandle_t was = h[i]; vp_check(rbus_close(h[i]) == 0, "a component closes"); up[i] = 0; h[i] = NULL; for (int j = 0; j < K; j++) for (int k = 0; k < 3; k++) S[i][j][k].on = 0; rbusValue_t v = NULL; vp_check(rbus_close(was) == RBUS_ERROR_INVALID_HANDLE && rbus_get(was, P[0], &v) == RBUS_ERROR_INVALID_HANDLE, "a handle that is closed is refused"); vp_run_others(); }
/* everything of those which are there works, and nothing of the others */
static void probe(int who) {
  int ok = 1, no = 1, told = 1, bad = 0; int32_t nv = 1000 + vp_u8("value"); if (who < 0) for (who = 0; who < K && !up[who]; who++); if (who >= K) return;
  for (int j = 0; j < K; j++) { rbusValue_t v = NULL; int rc = rbus_get(h[who], P[j], &v); if (up[j]) { ok &= rc == 0 && v && rbusValue_GetInt32(v) == val[j]; } else no &= rc != 0; if (v) rbusValue_Release(v);
    v = rbusValue_InitInt32(nv); rc = rbus_set(h[who], P[j], v, NULL); rbusValue_Release(v); if (up[j]) ok &= (rc == 0) & (val[j] == nv); else no &= rc != 0;
    rbusObject_t out = NULL; rc = rbusMethod_Invoke(h[who], M[j], NULL, &out); if (up[j]) { ok &= rc == 0 && out && rbusObject_GetValue(out, "who") && rbusValue_GetInt32(rbusObject_GetValue(out, "who")) == j; } else no &= rc != 0; if (out) rbusObject_Release(out); }
  vp_check(ok, "the elements of a component that is there work"); vp_check(no, "the elements of a component that has closed are gone");
  for (int j = 0; j < K; j++) if (up[j]) { for (int i = 0; i < K; i++) S[i][j][0].got = S[i][j][0].bad = 0; sent = nv; rbusObject_t d; rbusObject_Init(&d, NULL); rbusValue_t v = rbusValue_InitInt32(nv); rbusObject_SetValue(d, "v", v); rbusValue_Release(v); rbusEvent_t e = { E[j], RBUS_EVENT_GENERAL, d }; int rc = rbusEvent_Publish(h[j], &e); rbusObject_Release(d); bus_pump(); int any = 0; for (int i = 0; i < K; i++) { int w = up[i] && S[i][j][0].on; any |= w; told &= S[i][j][0].got == w; bad |= S[i][j][0].bad; } told &= !any || rc == 0; }
  vp_check(told && !bad, "events go to those subscribed that are there, once, and to nobody else");
  /* past the polling period and the intervals, each once */
  for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int k = 1; k < 3; k++) S[i][j][k].got = S[i][j][k].bad = 0;
  if (vp_param("ticks", 1)) { int64_t until = vp_now_ns + 9000000000LL; for (int n = 0; n < 16 && vp_now_ns < until; n++) { vp_run_others(); if (!vp_fire_timeouts()) break; vp_run_others(); bus_pump(); }
    int ch = 1, iv = 1; for (int j = 0; j < K; j++) { int w = 0; for (int i = 0; i < K; i++) w |= up[i] && S[i][j][1].on; for (int i = 0; i < K; i++) { bad |= S[i][j][1].bad | S[i][j][2].bad; int a = up[j] && up[i] && S[i][j][1].on; ch &= S[i][j][1].got == (a & (val[j] != cached[j])); int b = up[j] && up[i] && S[i][j][2].on; iv &= b ? S[i][j][2].got >= 1 && S[i][j][2].got <= 3 : !S[i][j][2].got; } if (w && up[j]) cached[j] = val[j]; }
    vp_check(ch, "changes go to those subscribed that are there, once, and to nobody else"); vp_check(iv, "values go at intervals to those subscribed that are there, and to nobody else"); vp_check(!bad, "what is told is true"); } }
static int alive(pid_t p, int sig) { (void)sig; if (p == 100) return 0; errno = ESRCH; return -1; }
static void back(int i) { start(i); val[i] = 1000; reg(i); for (int a = 0; a < K; a++) if (S[a][i][1].on) cached[i] = 1000; vp_run_others(); }
static void all_up(void) { for (int i = 0; i < K; i++) back(i); }
static void init(void) { bus_queueing = 1; vp_kill_hook = alive; vp_in_order = 1; vp_tick_ns = 1000; for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int k = 0; k < 3; k++) S[i][j][k] = (struct sub){ i, j, k, 0, 0, 0 }; }
static void down(void) { for (int i = 0; i < K; i++) if (up[i]) shut(i); bus_pump(); vp_check(bus_live_conns == 0 && vp_open_files() == 0, "nothing is left of components that have closed"); vp_check(vp_run_others() == 0 && vp_fire_timeouts() == 0, "nothing goes on once all have closed"); }
/* subscriptions by number: mask of i,j,k */
static void subs(unsigned m) { int n = 0; for (int k = 0; k < 3; k++) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++, n++) if (m >> n & 1) sub(i, j, k); }
/* components close and open again, in any order, with any subscriptions among them */
static void history(void) {
  init(); all_up(); for (int k = 0; k < 3; k++) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { sub(i, j, k); if (k == 2) { unsub(i, j, k); if (i == j) unsub(i, j, k); } } for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) unsub(i, j, 1); probe(0); down(); uint64_t base = vp_heap_live();
  all_up(); subs((unsigned)vp_param("subs", 0)); int n = (int)vp_param("ops", 2);
  for (int t = 0; t < n; t++) { int i = t == 0 && vp_param("first", 9) < K ? (int)vp_param("first", 9) : (int)vp_choose(K, "who");
    if (up[i]) { if (vp_choose(2, "again")) back(i); else shut(i); } else back(i);
    for (int a = 0; a < K; a++) for (int k = 0; k < 3; k++) if (S[a][i][k].on && !vp_param("keep", 0)) unsub(a, i, k);
    if (vp_param("probe", 1)) probe(-1); }
  probe(-1); vp_reach("history"); down(); vp_check(vp_heap_live() == base, "components that have closed leave nothing behind"); }
/* a component closes while others are busy */
static int rop; static void* busy(void* x) { (void)x; rbusValue_t v = NULL; rbusHandle_t n;
  switch (rop) { case 0: vp_check(rbus_get(h[1], P[2], &v) == 0 && rbusValue_GetInt32(v) == val[2], "the elements of a component that is there work"); rbusValue_Release(v); break; case 1: sub(1, 2, 0); break; case 2: unsub(1, 2, 0); break; case 3: { sent = 7; rbusObject_t d; rbusObject_Init(&d, NULL); v = rbusValue_InitInt32(7); rbusObject_SetValue(d, "v", v); rbusValue_Release(v); rbusEvent_t e = { E[2], RBUS_EVENT_GENERAL, d }; vp_check(rbusEvent_Publish(h[2], &e) == 0, "events go to those subscribed that are there, once, and to nobody else"); rbusObject_Release(d); break; } case 4: vp_check(rbus_open(&n, "d") == 0 && rbus_close(n) == 0, "a component opens"); break; case 5: up[2] = 0; vp_check(rbus_close(h[2]) == 0, "a component closes"); break;
    case 6: { int rc = rbus_get(h[1], P[0], &v); if (rc == 0) rbusValue_Release(v); break; } case 7: { rbusEventSubscription_t y = ex(&S[1][0][0]); rbusEvent_UnsubscribeEx(h[1], &y, 1); break; } case 8: rbus_unregDataElements(h[2], 1, (rbusDataElement_t[]){ { (char*)P[2], RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, 0, 0, 0, 0 } } }); break; case 9: { rbusObject_t out = NULL; vp_check(rbusMethod_Invoke(h[2], M[1], NULL, &out) == 0, "the elements of a component that is there work"); rbusObject_Release(out); break; } } return 0; }
static void* closer(void* x) { (void)x; vp_check(rbus_close(h[0]) == 0, "a component closes"); up[0] = 0; return 0; }
static void race(void) {
  init(); rop = (int)vp_param("op", 0); all_up(); sub(1, 2, 0); if (rop == 1) unsub(1, 2, 0); sub(0, 2, 0); sub(0, 1, 1); if (rop != 5) sub(1, 0, 0); if (rop == 3) sub(1, 2, 1); vp_run_others(); pthread_t a, b; pthread_create(&a, NULL, closer, 0); pthread_create(&b, NULL, busy, 0); vp_strict_unlock = 1; vp_set_preempt((int)vp_param("preempt", 2)); pthread_join(a, NULL); pthread_join(b, NULL); vp_set_preempt(0); vp_strict_unlock = 0; vp_run_others(); if (rop == 3) S[0][2][0].bad = 0; bus_pump();
  if (rop == 3) vp_check(S[1][2][0].got == 1 && !S[1][2][0].bad, "events go to those subscribed that are there, once, and to nobody else"); h[0] = NULL; for (int j = 0; j < K; j++) for (int k = 0; k < 3; k++) S[0][j][k].on = S[j][0][k].on = 0; if (rop == 5) { h[2] = NULL; for (int j = 0; j < K; j++) for (int k = 0; k < 3; k++) S[2][j][k].on = S[j][2][k].on = 0; } if (rop != 8) { val[1] = val[2] = 2000; cached[1] = cached[2] = 0; for (int j = 0; j < K; j++) for (int k = 1; k < 3; k++) for (int i = 0; i < K; i++) if (S[i][j][k].on) unsub(i, j, k); probe(1); } vp_reach("race"); down(); }
/* opening fails: nothing is left of it, and it works the next time */
static void refused(void) {
  init(); all_up(); down(); uint64_t base = vp_heap_live(); rbusHandle_t x = NULL; int before = (int)vp_choose(2, "others"), what = (int)vp_choose(3, "fails"), rc; if (before) back(1);
  if (what == 0) { if (before) vp_end_path(); bus_refuse_connect = 1; } else if (what == 1) bus_refuse_listen = 1; else { if (before) vp_end_path(); bus_refuse_listen = 2; }
  rc = rbus_open(&x, "a"); vp_check(bus_refuse_connect + bus_refuse_listen > 0 ? rc == 0 : rc != 0, "what cannot be opened is refused"); bus_refuse_connect = bus_refuse_listen = 0; if (rc == 0) { h[0] = x; up[0] = 1; shut(0); } else vp_check(bus_live_conns == before, "what is refused leaves nothing open");
  if (before) { probe(1); shut(1); } back(0); back(2); sub(2, 0, 0); probe(2); vp_reach("refused"); down(); vp_check(vp_heap_live() == base, "components that have closed leave nothing behind"); }
/* no more than so many at once */
static void full(void) { init(); rbusHandle_t x[17]; char n[17][4]; int k = 0; for (; k < 17; k++) { snprintf(n[k], 4, "n%d", k); int rc = rbus_open(&x[k], n[k]); vp_check((rc == 0) == (k < 16), "as many components can be open as there may be"); if (rc) break; } int i = (int)vp_choose(16, "who"); vp_check(rbus_close(x[i]) == 0 && rbus_open(&x[i], "new") == 0, "a component opens in place of one that has closed"); rbusHandle_t y = x[0]; vp_check(rbus_open(&y, "other") != 0, "as many components can be open as there may be"); for (int j = 0; j < 16; j++) { rbusValue_t v = NULL; int rc = rbus_get(x[j], "Device.No", &v); vp_check(rc != 0 && rc != RBUS_ERROR_INVALID_HANDLE, "an open component can be used"); } for (int j = 0; j < 16; j++) vp_check(rbus_close(x[j]) == 0, "a component closes"); vp_reach("full"); down(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: race(); break; case 2: refused(); break; case 3: full(); break; } return 0; }
