/* Interval subscriptions: the value is told at each interval for as long as the subscription lasts. */
#include "bus.h"
void rbusHandleList_ClientDisconnect(char const* clientListener); void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg); void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
static rbusHandle_t hp, hc, hd;
/* ---- the provider: A, N which cannot be read, and P of each row of a table ---- */
static int32_t cur[3]; static int fails, there[2], nget; static const char* pn[3] = { "Device.I.A", "Device.I.T.1.P", "Device.I.T.2.P" }; static const char* row[2] = { "Device.I.T.1", "Device.I.T.2" };
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)o; for (int i = 0; i < 3; i++) if (!strcmp(rbusProperty_GetName(p), pn[i])) { if (h != hp || (i && !there[i - 1])) vp_error("a handler is called for a row that is gone"); nget++; vp_yield(); if (fails) return RBUS_ERROR_BUS_ERROR; rbusValue_t v = rbusValue_InitInt32(cur[i]); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; } vp_error("a handler is called for an unknown property"); return RBUS_ERROR_BUS_ERROR; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)h; (void)p; (void)o; return RBUS_ERROR_SUCCESS; }
static rbusDataElement_t els[] = { { "Device.I.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.I.N", RBUS_ELEMENT_TYPE_PROPERTY, { NULL, on_set, NULL, NULL, NULL, NULL } }, { "Device.I.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, NULL, NULL, NULL, NULL } }, { "Device.I.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, NULL, NULL } } };
/* ---- the subscribers: in this process or in another one ---- */
enum { NS = 5 };
static struct sub { int who; const char* name; uint32_t interval, duration; int flt; int on, got, done, bad; int64_t next; uint32_t count; } S[NS] = { { 0, "Device.I.A", 10, 0, 0 }, { 1, "Device.I.A", 10, 25, 0 }, { 2, "Device.I.A", 7, 7, 1 }, { 0, "Device.I.T.*.P", 20, 0, 0 }, { 0, "Device.I.T.1.P", 20, 60, 0 } };
static rbusFilter_t flt; static int64_t SEC = 1000000000LL;
static rbusHandle_t who(int w) { return w ? hd : hc; } static int rows(void) { return there[0] + there[1]; }
static int data_ok(struct sub* s, rbusObject_t d, int32_t* seen) {
  rbusProperty_t p = d ? rbusObject_GetProperties(d) : NULL; int wild = strchr(s->name, '*') != NULL; if (wild) { if (!p || strcmp(rbusProperty_GetName(p), "numberOfEntries") || rbusValue_GetInt32(rbusProperty_GetValue(p)) != rows()) return 0; p = rbusProperty_GetNext(p); }
  int ok = 1, had[3] = { 0 }; for (; p; p = rbusProperty_GetNext(p)) { int i = 0; while (i < 3 && strcmp(rbusProperty_GetName(p), pn[i])) i++; if (i > 2 || had[i]++ || rbusValue_GetType(rbusProperty_GetValue(p)) != RBUS_INT32) return 0; ok &= rbusValue_GetInt32(rbusProperty_GetValue(p)) == seen[i]; }
  for (int i = 0; i < 3; i++) ok &= had[i] == (wild ? i && there[i - 1] : !strcmp(s->name, pn[i])); return ok; }
static void event(struct sub* s, int type, rbusObject_t d) { if (type == RBUS_EVENT_INTERVAL) { s->got++; if (!data_ok(s, d, cur)) s->bad = 1; } else if (type == RBUS_EVENT_DURATION_COMPLETE) { s->done++; if (!fails && !data_ok(s, d, cur)) s->bad = 1; } else s->bad = 1; }
static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { struct sub* r = s->userData; if (h != who(r->who) || !e->name || strcmp(e->name, r->name) || strcmp(s->eventName, r->name)) r->bad = 1; event(r, e->type, e->data); }
static rbusEventSubscription_t ex(struct sub* s) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = s->name; x.interval = s->interval; x.duration = s->duration; x.filter = s->flt ? flt : NULL; x.handler = on_event; x.userData = s; return x; }
static int foreign(struct sub* s, int add) { rbusMessage m, pl, a; rbusMessage_Init(&m); rbusMessage_Init(&pl); rbusMessage_SetString(m, s->name); rbusMessage_SetString(m, "cli.INBOX.7"); rbusMessage_SetInt32(m, 1); rbusMessage_SetInt32(pl, 1); rbusMessage_SetInt32(pl, (int32_t)s->interval); rbusMessage_SetInt32(pl, (int32_t)s->duration); rbusMessage_SetInt32(pl, s->flt); if (s->flt) rbusFilter_AppendToMessage(flt, pl); rbusMessage_SetMessage(m, pl); rbusMessage_Release(pl); rbusMessage_SetInt32(m, 0); rbusMessage_SetInt32(m, 0); int32_t rc = -1; rtError e = bus_call(s->name, add ? METHOD_SUBSCRIBE : METHOD_UNSUBSCRIBE, "cli.INBOX.7", m, &a); rbusMessage_Release(m); vp_check(e == RT_OK && a && rbusMessage_GetInt32(a, &rc) == RT_OK, "a request to subscribe is answered"); if (a) rbusMessage_Release(a); return rc; }
static void collect(void) { /* what was sent to the other process */
  for (int i = 0; i < bus_nout; i++) { rbusMessage b; const char* t; int32_t v; rbusMessage_FromBytes(&b, bus_out[i].data, bus_out[i].n); rbusMessage_BeginMetaSectionRead(b); rbusMessage_GetString(b, &t); rbusMessage_GetString(b, &t); rbusMessage_GetInt32(b, &v); rbusMessage_EndMetaSectionRead(b); rbusEvent_t e = { 0, 0, 0 }; rbusFilter_t f = NULL; uint32_t iv = 0, du = 0; int32_t id = 0; rbusEventData_updateFromMessage(&e, &f, &iv, &du, &id, b);
    struct sub* s = &S[2]; if (strcmp(bus_out[i].topic, "cli.INBOX.7") || id != 1 || iv != s->interval || du != s->duration || !f != !s->flt || (f && rbusFilter_Compare(f, flt)) || !e.name || strcmp(e.name, s->name)) s->bad = 1; event(s, e.type, e.data); if (f) rbusFilter_Release(f); rbusObject_Release(e.data); rbusMessage_Release(b); } bus_clear(); }
static int subscribe(struct sub* s) { if (s->who == 2) return foreign(s, 1); rbusEventSubscription_t x = ex(s); return rbusEvent_SubscribeEx(who(s->who), &x, 1, 0); }
static int unsubscribe(struct sub* s) { if (s->who == 2) return foreign(s, 0); rbusEventSubscription_t x = ex(s); return rbusEvent_UnsubscribeEx(who(s->who), &x, 1); }
static void sub_on(struct sub* s) { int rc = subscribe(s), gone = s == &S[4] && !there[0]; vp_check(s->on ? rc == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : gone ? rc != 0 : rc == 0, "a property can be subscribed to once"); vp_run_others(); if (!s->on && rc == 0) { s->on = 1; s->next = vp_now_ns + s->interval * SEC; s->count = 0; } }
static void sub_off(struct sub* s) { int rc = unsubscribe(s); vp_check(!s->on == (rc != 0), "a subscription ends when asked, once"); s->on = 0; vp_run_others(); }
static void start(void) { bus_queueing = 1; vp_in_order = 1; vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_open(&hd, "d") == 0, "components open"); vp_check(rbus_regDataElements(hp, 4, els) == 0, "elements register"); rbusValue_t v = rbusValue_InitInt32(5); rbusFilter_InitRelation(&flt, RBUS_FILTER_OPERATOR_GREATER_THAN, v); rbusValue_Release(v); for (int i = 0; i < 3; i++) cur[i] = 1000; }
static void row_on(int r) { if (there[r]) return; there[r] = 1; vp_check(rbusTable_registerRow(hp, "Device.I.T.", (uint32_t)r + 1, NULL) == 0, "a row registers"); bus_pump(); }
static void row_off(int r) { vp_check(rbusTable_unregisterRow(hp, row[r]) == 0, "a row unregisters"); there[r] = 0; if (r == 0 && S[4].on) { S[4].on = 0; unsubscribe(&S[4]); } bus_pump(); vp_run_others(); }
/* up to the next moment at which something is due: those due are told, and nobody else */
static void wait_and_check(void) {
  vp_run_others(); vp_wall_off -= 3600000000000LL; /* somebody sets the clock */ int64_t t = -1; for (int i = 0; i < NS; i++) { if (S[i].on && (t < 0 || S[i].next < t)) t = S[i].next; S[i].got = S[i].done = S[i].bad = 0; } int due = 0; for (int i = 0; i < NS; i++) due += S[i].on && S[i].next == t; if (t < 0) { vp_check(vp_fire_timeouts() == 0, "nothing is done while nobody is subscribed"); return; }
  vp_check(vp_fire_timeouts() >= 1 && vp_now_ns == t, "a subscription is told at the end of its interval"); if (due > 1) for (int k = 1; k < due; k++) { vp_run_others(); vp_fire_timeouts(); } vp_run_others(); vp_check(vp_now_ns == t, "a subscription is told at the end of its interval"); bus_pump(); collect(); vp_run_others();
  int ok = 1, end = 1, bad = 0; for (int i = 0; i < NS; i++) { struct sub* s = &S[i]; int d = s->on && s->next == t, last = d && s->duration && s->count >= s->duration / s->interval; ok &= s->got == (d && !last && !fails); end &= s->done == last; bad |= s->bad; if (d) { s->count++; s->next += s->interval * SEC; } if (last) { s->on = 0; rbusEventSubscription_t x = ex(s); if (s->who < 2) end &= !rbusEvent_IsSubscriptionExist(who(s->who), NULL, &x); } }
  vp_check(ok, "the value is told once per interval, and not to others"); vp_check(end, "the end of the duration is told once, when it is over, and ends the subscription"); vp_check(!bad, "what is told is the value at that time under the name subscribed to"); }
static void end(void) { for (int i = 0; i < NS; i++) if (S[i].on) sub_off(&S[i]); vp_check(vp_run_others() == 0, "nothing is left of subscriptions that have ended"); rbusFilter_Release(flt); rbus_unregDataElements(hp, 4, els); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
static void change(int p) { cur[p] = 1000 + vp_u8("value"); }
/* histories */
static void history(void) {
  start(); int m = (int)vp_param("subs", 7), n = (int)vp_param("ops", 3), on = (int)vp_param("on", 0); for (int i = 0; i < 3; i++) sub_on(&S[i]); wait_and_check(); for (int i = 0; i < 3; i++) if (S[i].on) sub_off(&S[i]); for (int i = 0; i < NS; i++) if (on >> i & 1) { if (i == 4) row_on(0); sub_on(&S[i]); } uint64_t base = on || m != 7 ? 0 : vp_heap_live();
  for (int k = 0; k < n; k++) switch (vp_choose(3, "operation")) {
    case 0: { int i = (int)vp_choose(NS, "subscriber"); if (!(m >> i & 1)) vp_end_path(); if (S[i].on && vp_choose(2, "ends")) sub_off(&S[i]); else sub_on(&S[i]); break; }
    case 1: { change(0); fails = 0; wait_and_check(); break; }
    default: if (m & 24) { int r = (int)vp_choose(2, "row"); if (there[r]) row_off(r); else row_on(r); } else { fails = 1; wait_and_check(); fails = 0; } }
  for (int k = 0; k < (int)vp_param("more", 2); k++) { if (!(m & 24)) change(0); else { change(1); change(2); } wait_and_check(); }
  if (base) { for (int i = 0; i < NS; i++) if (S[i].on) sub_off(&S[i]); vp_run_others(); vp_check(vp_heap_live() == base, "interval subscriptions leak nothing"); } vp_reach("history"); end(); }
/* any interval and duration: as many values as fit, then the end */
static void lengths(void) {
  start(); struct sub* s = &S[vp_param("who", 0)]; if (vp_param("flt", 0)) s->flt = 1; int big = (int)vp_param("big", 0); static const uint32_t bigs[4] = { 2000000000u, 0x7fffffffu, 0x80000000u, 0xffffffffu }; s->interval = big ? bigs[vp_choose(4, "interval")] : 1 + vp_choose(6, "interval"); if (!big) s->duration = vp_choose(4, "values") * s->interval + vp_choose(s->interval, "and the rest"); sub_on(s); int n = s->duration ? (int)(s->duration / s->interval) + 2 : big ? 1 : 3; for (int k = 0; k < n; k++) { change(0); wait_and_check(); } if (s->duration) vp_check(!s->on, "the end of the duration is told once, when it is over, and ends the subscription"); vp_reach("lengths"); end(); }
/* a property that cannot be read is not subscribed to; nothing of it is left */
static void refused(void) { start(); rbusEventSubscription_t x = ex(&S[0]); static const char* nm[3] = { "Device.I.N", "Device.I.T.", "Device.I.Q" }; uint64_t base = 0; for (int k = 0; k < 4; k++) { x.eventName = nm[k < 3 ? k : (int)vp_choose(3, "name")]; vp_check(rbusEvent_SubscribeEx(hc, &x, 1, 0) != 0, "what cannot be told at intervals cannot be subscribed to"); vp_check(!rbusEvent_IsSubscriptionExist(hc, NULL, &x), "a subscription that is refused is none"); vp_run_others(); vp_check(vp_fire_timeouts() == 0, "nothing is done while nobody is subscribed"); if (k < 3) base = vp_heap_live(); else vp_check(vp_heap_live() == base, "subscriptions that are refused leak nothing"); }
  vp_fail_thread = 1; x.eventName = "Device.I.A"; int rc = rbusEvent_SubscribeEx(hc, &x, 1, 0); vp_fail_thread = 0; vp_check(rc != 0 && !rbusEvent_IsSubscriptionExist(hc, NULL, &x), "a subscription that is refused is none"); sub_on(&S[0]); change(0); wait_and_check(); vp_reach("refused"); end(); }
/* something happens while the value is being told */
static int rop; static void* racing(void* x) { (void)x; switch (rop) { case 0: unsubscribe(&S[0]); S[0].on = 0; break; case 1: unsubscribe(&S[0]); subscribe(&S[0]); break; case 2: rbusTable_unregisterRow(hp, row[0]); there[0] = 0; break; case 3: rbusHandleList_ClientDisconnect("cli.INBOX.7"); break; case 4: unsubscribe(&S[1]); break; case 5: subscribe(&S[1]); break; case 6: rbus_close(hp); break; case 7: unsubscribe(&S[0]); unsubscribe(&S[1]); break; case 8: there[1] = 1; rbusTable_registerRow(hp, "Device.I.T.", 2, NULL); break; } return 0; }
static void* firing(void* x) { (void)x; vp_fire_timeouts(); return 0; }
static void race(void) {
  start(); rop = (int)vp_param("op", 0); row_on(0); int o = rop == 2 ? 4 : rop == 3 ? 2 : rop == 8 ? 3 : 0; S[1].duration = 7; if (rop != 7) sub_on(&S[o]); if (rop == 4 || rop == 7) sub_on(&S[1]); if (rop == 7) sub_on(&S[0]); if (rop == 6) sub_on(&S[2]); vp_run_others(); for (int i = 0; i < NS; i++) S[i].got = S[i].done = S[i].bad = 0;
  pthread_t t1, t2; pthread_create(&t1, NULL, racing, 0); pthread_create(&t2, NULL, firing, 0); vp_strict_unlock = 1; vp_set_preempt((int)vp_param("preempt", 2)); pthread_join(t1, NULL); pthread_join(t2, NULL); vp_set_preempt(0); vp_run_others();
  if (rop == 6) { vp_check(vp_run_others() == 0 && vp_fire_timeouts() == 0, "nothing is left once the provider has closed"); vp_reach("race"); return; }
  bus_pump(); collect(); vp_run_others(); int bad = 0, n = 0; for (int i = 0; i < NS; i++) { bad |= S[i].bad; n += S[i].got + S[i].done; } vp_check((!bad || rop == 8) && n <= 2, "what is told is the value at that time under the name subscribed to");
  int on[NS] = { rop == 1 || rop == 4 || rop == 5, 0, 0, rop == 8 }; if (rop == 5) on[1] = !S[1].done; for (int i = 0; i < NS; i++) { S[i].on = on[i]; S[i].got = S[i].done = 0; } if (rop == 4 || rop == 7) { rbusEventSubscription_t x = ex(&S[1]); vp_check(!rbusEvent_IsSubscriptionExist(hd, NULL, &x), "a subscription is gone once ended"); }
  /* each remaining subscription goes on, the others do not */
  int any = on[0] + on[1] + on[3]; for (int k = 0; k < 3; k++) { vp_run_others(); int f = vp_fire_timeouts(); vp_check(!f == !any, "those subscribed go on being told, and nobody else"); vp_run_others(); bus_pump(); collect(); } for (int i = 0; i < NS; i++) vp_check(on[i] ? i == 1 || S[i].got >= 1 : S[i].got + S[i].done == 0, "those subscribed go on being told, and nobody else"); for (int i = 0; i < NS; i++) { rbusEventSubscription_t x = ex(&S[i]); if (S[i].who < 2) S[i].on = rbusEvent_IsSubscriptionExist(who(S[i].who), NULL, &x); } vp_strict_unlock = 0; vp_reach("race"); end(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: lengths(); break; case 2: refused(); break; case 3: race(); break; } return 0; }
