/* Value changes: a subscriber to a property is told of each change which its provider's polling sees. */
#include "bus.h"
void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg); void rbusHandleList_ClientDisconnect(char const* clientListener);
static rbusHandle_t hp, hc, hd;
/* ---- the provider: A and B, and P of each row of a table ---- */
enum { NP = 4 };
static struct prop { const char* name; int32_t cur; int fails, nget, there; int32_t cached; int by; int noise; } P[NP] = { { "Device.V.A", 0, 0, 0, 1 }, { "Device.V.B", 0, 0, 0, 1 }, { "Device.V.T.1.P" }, { "Device.V.T.2.P" } };
static const char* row[2] = { "Device.V.T.1", "Device.V.T.2" };
static struct prop* find(const char* n) { for (int i = 0; i < NP; i++) if (!strcmp(P[i].name, n)) return &P[i]; vp_error("a handler is called for an unknown property"); return &P[0]; }
static int handler_publishes;
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)o; struct prop* q = find(rbusProperty_GetName(p)); if (h != hp || !q->there) vp_error("a handler is called for a row that is gone"); q->nget++; vp_yield(); if (q->fails) return RBUS_ERROR_BUS_ERROR; rbusValue_t v = rbusValue_InitInt32(q->cur); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)o; struct prop* q = find(rbusProperty_GetName(p)); q->cur = rbusValue_GetInt32(rbusProperty_GetValue(p)); if (handler_publishes) { rbusEvent_t e = { "Device.V.E!", RBUS_EVENT_GENERAL, NULL }; rbusEvent_Publish(h, &e); } return RBUS_ERROR_SUCCESS; }
static int autopub_off; static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t i, bool* au) { (void)h; (void)a; (void)n; (void)f; (void)i; if (autopub_off) *au = false; return RBUS_ERROR_SUCCESS; }
static rbusDataElement_t els[] = { { "Device.V.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.V.B", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, on_sub, NULL } }, { "Device.V.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, NULL, NULL, NULL, NULL } }, { "Device.V.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.V.E!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, NULL, NULL } } };
/* ---- the subscribers ---- */
enum { NS = 5 };
static struct sub { int who; const char* name; int on, off; int got[NP], bad; } S[NS] = { { 0, "Device.V.A" }, { 1, "Device.V.A" }, { 0, "Device.V.B" }, { 1, "Device.V.T.*.P" }, { 0, "Device.V.T.1.P" } };
static rbusHandle_t who(int w) { return w ? hd : hc; }
static int covers(struct sub* s, int p) { return !strcmp(s->name, P[p].name) || (p > 1 && strchr(s->name, '*')); }
static int told(int p) { int k = 0; for (int i = 0; i < NS; i++) k += S[i].on && !S[i].off && covers(&S[i], p); return k; }
static struct { int32_t o, n; const char* by; } want[NP];
static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) {
  struct sub* r = s->userData; int p = (int)(find(e->name) - P); r->got[p]++; rbusValue_t o = rbusObject_GetValue(e->data, "oldValue"), n = rbusObject_GetValue(e->data, "value"), b = rbusObject_GetValue(e->data, "by");
  if (h != who(r->who) || e->type != RBUS_EVENT_VALUE_CHANGED || strcmp(s->eventName, r->name) || !o || !n || rbusValue_GetType(o) != RBUS_INT32 || rbusValue_GetType(n) != RBUS_INT32) { r->bad |= 1; return; } if ((rbusValue_GetInt32(o) != want[p].o) | (rbusValue_GetInt32(n) != want[p].n)) r->bad |= 2; if (want[p].by && (!b || rbusValue_GetType(b) != RBUS_STRING || strcmp(rbusValue_GetString(b, NULL), want[p].by))) r->bad |= 4; }
static int subscribe(struct sub* s) { return rbusEvent_Subscribe(who(s->who), s->name, on_event, s, 0); }
static int unsubscribe(struct sub* s) { return rbusEvent_Unsubscribe(who(s->who), s->name); }
static void sub_on(int i) { int was[NP]; for (int p = 0; p < NP; p++) was[p] = told(p); vp_check(subscribe(&S[i]) == 0, "a property can be subscribed to"); S[i].on = 1; S[i].off = autopub_off && i == 2; for (int p = 0; p < NP; p++) if (P[p].there && !was[p] && told(p)) P[p].cached = P[p].cur; }
static void sub_off(int i) { vp_check(unsubscribe(&S[i]) == 0, "a subscription can be ended"); S[i].on = 0; }
static int32_t some(const char* n) { if (!vp_param("wide", 0)) return 1000 + vp_u8(n); int32_t v = (int32_t)vp_u32(n); vp_assume((uint32_t)v - 1000u <= 29000u); return v; }
static void start(void) { bus_queueing = 1; vp_tick_ns = 1000; vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_open(&hd, "d") == 0, "components open"); vp_check(rbus_regDataElements(hp, 5, els) == 0, "elements register"); }
static void row_on(int r) { vp_check(!P[2 + r].there, "rows come once"); P[2 + r].there = 1; vp_check(rbusTable_registerRow(hp, "Device.V.T.", (uint32_t)r + 1, NULL) == 0, "a row registers"); if (told(2 + r)) P[2 + r].cached = P[2 + r].cur; bus_pump(); }
static void row_off(int r) { vp_check(rbusTable_unregisterRow(hp, row[r]) == 0, "a row unregisters"); P[2 + r].there = 0; if (r == 0 && S[4].on) { S[4].on = 0; rbusEvent_Unsubscribe(hc, S[4].name); } bus_pump(); }
/* one round of the provider's polling; then every subscriber must have been told of exactly the changes it saw */
static void poll_and_check(void) { vp_run_others(); vp_wall_off -= 3600000000000LL; /* somebody sets the clock */
  int64_t t0 = vp_now_ns; for (int i = 0; i < NS; i++) { memset(S[i].got, 0, sizeof S[i].got); S[i].bad = 0; } int any = 0; for (int p = 0; p < NP; p++) { any += P[p].there && told(p); want[p].o = P[p].cached; want[p].n = P[p].cur; want[p].by = P[p].by == 1 ? "c" : P[p].by == 2 ? "d" : "p"; P[p].nget = 0; }
  int fired = vp_fire_timeouts(); vp_run_others(); bus_pump(); if (any) vp_check(fired && vp_now_ns - t0 <= 30000000000LL, "a subscribed property is looked at within the polling period");
  int count = 1, bad = 0, gets = 1; for (int p = 0; p < NP; p++) { int seen = P[p].there && !P[p].fails; gets &= P[p].nget == (P[p].there && told(p)); for (int i = 0; i < NS; i++) { int w = (S[i].on && covers(&S[i], p) && told(p) && seen) & (P[p].cur != P[p].cached); count &= S[i].got[p] == w; } if (seen && told(p)) { P[p].cached = P[p].cur; P[p].by = 0; } } for (int i = 0; i < NS; i++) bad |= S[i].bad;
  vp_check(gets, "each subscribed property is looked at once per period, and no other is"); vp_check(count, "a change reaches each of the property's subscribers once, and nothing else does"); vp_check(!bad, "a change arrives with the old and new value and the component that made it"); }
static void change(int p) { int h = (int)vp_choose(3, "who changes it"); int32_t v = some("value"); if (!h) P[p].cur = v; else { rbusValue_t x = rbusValue_InitInt32(v); vp_check(rbus_set(who(h - 1), P[p].name, x, NULL) == 0, "a parameter can be set"); rbusValue_Release(x); P[p].by = h; } }
static void end(void) { for (int i = 0; i < NS; i++) if (S[i].on) sub_off(i); vp_run_others(); rbus_unregDataElements(hp, 5, els); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); vp_check(vp_run_others() == 0, "nothing polls once the components have closed"); }
static void all_off(void) { for (int i = 0; i < NS; i++) if (S[i].on) sub_off(i); vp_fire_timeouts(); vp_run_others(); bus_pump(); }
/* histories of subscribing, unsubscribing, changes and failures to get the value */
static void history(void) {
  start(); for (int p = 0; p < NP; p++) P[p].cur = 1000; for (int i = 0; i < 3; i++) sub_on(i); rbusValue_t x = rbusValue_InitInt32(1001); for (int p = 0; p < 2; p++) for (int w = 0; w < 3; w++) { rbus_set(who(w & 1), P[p].name, x, NULL); P[p].by = 1 + (w & 1); } rbusValue_Release(x); poll_and_check(); all_off(); uint64_t base = vp_heap_live();
  int n = (int)vp_param("ops", 4), on = (int)vp_param("on", 0); autopub_off = (int)vp_param("off", 0); for (int i = 0; i < 3; i++) if (on >> i & 1) sub_on(i);
  for (int k = 0; k < n; k++) switch (k == 0 && vp_param("op0", 9) < 4 ? vp_param("op0", 9) : vp_choose(4, "operation")) {
    case 0: { int i = (int)vp_choose(3, "subscriber"); if (S[i].on) sub_off(i); else sub_on(i); break; }
    case 1: change((int)vp_choose(2, "property")); break;
    case 2: { int f = (int)vp_choose(3, "fails"); for (int p = 0; p < 2; p++) P[p].fails = f == p + 1; poll_and_check(); P[0].fails = P[1].fails = 0; break; }
    default: change(0); poll_and_check(); }
  poll_and_check(); all_off(); for (int p = 0; p < 2; p++) { rbusValue_t y = rbusValue_InitInt32(1); rbus_set(hc, P[p].name, y, NULL); rbusValue_Release(y); } vp_check(vp_heap_live() == base, "polling leaks nothing"); vp_reach("history"); end(); }
/* rows come and go */
static void rows(void) {
  start(); for (int p = 0; p < NP; p++) P[p].cur = 1000; int pre = (int)vp_param("pre", 3); for (int r = 0; r < 2; r++) if (pre >> r & 1) row_on(r); if (vp_param("same", 0)) S[3].who = 0; for (int i = 3; i < NS; i++) if ((int)vp_param("on", 0) >> i & 1) sub_on(i);
  for (int k = 0; k < (int)vp_param("ops", 3); k++) switch (vp_choose(4, "operation")) {
    case 0: { int r = (int)vp_choose(2, "row"); if (P[2 + r].there) row_off(r); else row_on(r); break; }
    case 1: { int i = 3 + (int)vp_choose(2, "subscriber"); if (S[i].on) sub_off(i); else if (i == 3 || P[2].there) sub_on(i); else vp_end_path(); break; }
    default: { int r = (int)vp_choose(2, "row"); P[2 + r].cur = some("value"); poll_and_check(); } }
  for (int r = 0; r < 2; r++) P[2 + r].cur = some("value"); poll_and_check(); vp_reach("rows"); end(); }
/* a subscriber in another process, which may leave at any time */
static void foreign(int add) { rbusMessage m, pl, a; rbusMessage_Init(&m); rbusMessage_Init(&pl); rbusMessage_SetString(m, "Device.V.B"); rbusMessage_SetString(m, "cli.INBOX.7"); rbusMessage_SetInt32(m, 1); rbusMessage_SetInt32(pl, 1); rbusMessage_SetInt32(pl, 0); rbusMessage_SetInt32(pl, 0); rbusMessage_SetInt32(pl, 0); rbusMessage_SetMessage(m, pl); rbusMessage_Release(pl); rbusMessage_SetInt32(m, 0); rbusMessage_SetInt32(m, 0); int32_t rc = -1; rtError e = bus_call("Device.V.B", add ? METHOD_SUBSCRIBE : METHOD_UNSUBSCRIBE, "cli.INBOX.7", m, &a); rbusMessage_Release(m); vp_check(e == RT_OK && a && rbusMessage_GetInt32(a, &rc) == RT_OK && rc == 0, "another process can subscribe"); rbusMessage_Release(a); }
/* something happens while the provider is polling: whoever comes first, all goes on */
static int rop; static void* racing(void* x) { (void)x;
  switch (rop) { case 0: unsubscribe(&S[0]); S[0].on = 0; break; case 1: unsubscribe(&S[0]); subscribe(&S[0]); break; case 2: rbusTable_unregisterRow(hp, row[0]); P[2].there = 0; break; case 3: { rbusValue_t v = rbusValue_InitInt32(1500); rbus_set(hc, "Device.V.A", v, NULL); rbusValue_Release(v); break; } case 4: rbusHandleList_ClientDisconnect("cli.INBOX.7"); break; case 5: P[3].there = 1; rbusTable_registerRow(hp, "Device.V.T.", 2, NULL); break; case 6: subscribe(&S[2]); S[2].on = 1; break; case 7: { rbusEvent_t e = { "Device.V.E!", RBUS_EVENT_GENERAL, NULL }; rbusEvent_Publish(hp, &e); break; } case 8: unsubscribe(&S[0]); S[0].on = 0; rbusTable_unregisterRow(hp, row[0]); P[2].there = 0; break; case 9: rbus_close(hp); break; } return 0; }
static void* firing(void* x) { (void)x; vp_fire_timeouts(); return 0; }
static void drop(void) { for (int p = 0; p < NP; p++) { P[p].cached = P[p].cur; P[p].by = 0; } for (int i = 0; i < NS; i++) { memset(S[i].got, 0, sizeof S[i].got); S[i].bad = 0; } }
static void race(void) {
  start(); rop = (int)vp_param("op", 0); handler_publishes = rop == 3; for (int p = 0; p < NP; p++) P[p].cur = 1000; row_on(0); if (rop == 5 || rop == 2 || rop == 8) sub_on(3); if (rop == 4 || rop == 9) foreign(1); if (rop < 5 || rop == 7 || rop == 9 || rop == 8) sub_on(0); if (rop == 8) { sub_off(3); sub_on(4); } if (rop == 6) sub_on(0);
  vp_run_others(); for (int p = 0; p < NP; p++) { P[p].cached = P[p].cur; P[p].cur = 1001; } pthread_t t1, t2; pthread_create(&t1, NULL, racing, 0); pthread_create(&t2, NULL, firing, 0); vp_strict_unlock = 1; vp_set_preempt((int)vp_param("preempt", 2)); pthread_join(t1, NULL); pthread_join(t2, NULL); vp_set_preempt(0);
  vp_run_others(); bus_pump(); if (rop == 9) { vp_fire_timeouts(); vp_check(vp_run_others() == 0, "nothing polls once the components have closed"); vp_reach("race"); return; }
  if (rop == 8) S[4].on = 0; if (rop == 4 || rop == 9) bus_clear(); if (rop < 2 || rop == 3) for (int i = 0; i < NS; i++) vp_check(S[i].got[0] <= 1, "a change is told once");
  if (vp_fire_timeouts()) vp_run_others(); bus_pump(); if (rop != 0) for (int i = 0; i < 1; i++) if (S[i].on) vp_check(S[i].got[0] + (rop == 1) >= 1, "a change made while others are busy is told in the end"); drop();
  for (int p = 0; p < NP; p++) P[p].cur = 1002; bus_clear(); poll_and_check(); if (rop == 4) vp_check(bus_nout == 0, "nothing is sent to clients that are gone"); vp_reach("race"); vp_strict_unlock = 0; end(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: rows(); break; case 2: race(); break; } return 0; }
