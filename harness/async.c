/* Asynchronous subscriptions: their outcome is told once, when there is a provider or when it is too late. */
#include "bus.h"
static rbusHandle_t hp, hc, hd; static int there; static rbusError_t refuse; static int nsub[2];
static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t interval, bool* autop) { (void)f; (void)interval; if (h != hp) vp_error("a provider is asked for another"); *autop = false; int e = !strcmp(n, "Device.E.Y!"); if (a == RBUS_EVENT_ACTION_SUBSCRIBE) { vp_yield(); if (!refuse) nsub[e]++; return refuse; } nsub[e]--; return 0; }
static rbusDataElement_t els[] = { { "Device.E.X!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, on_sub, NULL } }, { "Device.E.Y!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, on_sub, NULL } } };
static const char* ev[2] = { "Device.E.X!", "Device.E.Y!" };
enum { NONE, PENDING, ON, NS = 4 };
static int64_t SEC = 1000000000LL;
static struct sub { int who, e, flt; int st, told, got, stray; rbusError_t rc; int64_t due; } S[NS] = { { 0, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } };
static rbusFilter_t flt; static rbusHandle_t who(int w) { return w ? hd : hc; }
static int32_t sent; static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { struct sub* r = s->userData; r->got++; rbusValue_t v = rbusObject_GetValue(e->data, "v"); vp_check(v && rbusValue_GetInt32(v) == sent, "an event comes with what was published"); if (h != who(r->who) || strcmp(e->name, ev[r->e])) r->stray = 1; }
static int leave; static rbusEventSubscription_t ex(struct sub*);
static void on_done(rbusHandle_t h, rbusEventSubscription_t* s, rbusError_t rc) { struct sub* r = s->userData; r->told++; r->rc = rc; if (h != who(r->who) || !s->eventName || strcmp(s->eventName, ev[r->e]) || !s->filter != !r->flt || s->handler != on_event) r->stray = 1; vp_yield(); if (leave) { rbusEventSubscription_t x = ex(r); rbusEvent_UnsubscribeEx(h, &x, 1); } vp_yield(); }
static rbusEventSubscription_t ex(struct sub* s) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = ev[s->e]; x.filter = s->flt ? flt : NULL; x.handler = on_event; x.userData = s; return x; }
static rbusError_t begin(struct sub* s, int secs) { if (!s->flt) return rbusEvent_SubscribeAsync(who(s->who), ev[s->e], on_event, on_done, s, secs); rbusEventSubscription_t x = ex(s); return rbusEvent_SubscribeExAsync(who(s->who), &x, 1, on_done, secs); }
static rbusError_t finish(struct sub* s) { if (!s->flt && !s->who) return rbusEvent_Unsubscribe(who(s->who), ev[s->e]); rbusEventSubscription_t x = ex(s); return rbusEvent_UnsubscribeEx(who(s->who), &x, 1); }
static void provide(int on) { if (on == there) return; if (on) vp_check(rbus_regDataElements(hp, 2, els) == 0, "elements register"); else rbus_unregDataElements(hp, 2, els); there = on; }
static void start(void) { vp_in_order = 1; bus_queueing = 1; rbusValue_t v = rbusValue_InitInt32(5); rbusFilter_InitRelation(&flt, RBUS_FILTER_OPERATOR_GREATER_THAN, v); rbusValue_Release(v); vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_open(&hd, "d") == 0, "components open"); }
/* those whose outcome is due now: told once; nobody else is told anything */
static void settle(int waited) { vp_run_others(); bus_pump(); int ok = 1, rc = 1, st = 0;
  for (int i = 0; i < NS; i++) { struct sub* s = &S[i]; st |= s->stray; if (s->st == PENDING && s->told) { int late = vp_now_ns >= s->due; ok &= s->told == 1; rc &= there ? s->rc == refuse : s->rc == RBUS_ERROR_TIMEOUT && late; s->st = s->rc ? NONE : ON; } else { ok &= !s->told; if (s->st == PENDING && waited) ok &= vp_now_ns < s->due; } s->told = 0; }
  vp_check(ok, "the outcome of a subscription is told once, at the latest when its time is over"); vp_check(rc, "what is told is what the provider said, or that there was none in time"); vp_check(!st, "the outcome comes with the subscription it is of"); int n[2] = { 0, 0 }; for (int i = 0; i < NS; i++) n[S[i].e] += S[i].st == ON; if (there) vp_check(n[0] == nsub[0] && n[1] == nsub[1], "the provider knows of the subscriptions told to be made and of no other"); }
static int pending(void) { int n = 0; for (int i = 0; i < NS; i++) n += S[i].st == PENDING; return n; }
static void drain(void) { for (int k = 0; pending() && k < 16; k++) { vp_run_others(); vp_fire_timeouts(); settle(1); } vp_check(!pending(), "a subscription does not stay without an outcome"); }
static void publish(void) { if (!there) return; sent = 1000 + vp_u8("sent"); for (int e = 0; e < 2; e++) { for (int i = 0; i < NS; i++) S[i].got = 0; rbusEvent_t x = { ev[e], RBUS_EVENT_GENERAL, NULL }; rbusObject_Init(&x.data, NULL); rbusValue_t v = rbusValue_InitInt32(sent); rbusObject_SetValue(x.data, "v", v); rbusValue_Release(v); rbusEvent_Publish(hp, &x); rbusObject_Release(x.data); bus_pump(); int ok = 1; for (int i = 0; i < NS; i++) ok &= S[i].got == (S[i].st == ON && S[i].e == e); vp_check(ok, "an event reaches exactly those whose subscription was made"); } }
static void end(void) { for (int i = 0; i < NS; i++) if (S[i].st) vp_check(finish(&S[i]) == 0, "a subscription can be ended"), S[i].st = NONE; }
/* histories */
static void history(void) {
  start(); provide(1); for (int i = 0; i < NS; i++) { vp_check(begin(&S[i], 5) == 0, "a subscription can be begun"); S[i].st = PENDING; S[i].due = vp_now_ns + 5 * SEC; } settle(0); vp_check(!pending(), "a subscription with a provider is made at once"); publish(); end(); provide(0); uint64_t base = vp_heap_live();
  int n = (int)vp_param("ops", 3); leave = (int)vp_param("leave", 0); static const int secs[3] = { 0, 3, 100 };
  for (int k = 0; k < n; k++) { int op = k == 0 ? 0 : (int)vp_choose(5, "operation");
    if (op == 0 || op == 1) { struct sub* s = &S[vp_choose((uint32_t)vp_param("subs", NS), "subscription")];
      if (op == 0) { int t = secs[vp_param("few", 0) ? 1 : vp_choose(3, "time")]; rbusError_t rc = begin(s, t); vp_check(rc == (s->st ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : 0), "a subscription is begun once"); if (!s->st) { s->st = PENDING; s->due = vp_now_ns + t * SEC; } if (vp_choose(2, "at once")) continue; settle(0); }
      else { int rc = finish(s); vp_check(rc == (s->st ? 0 : RBUS_ERROR_INVALID_OPERATION), "a subscription ends when asked, whether made or not yet"); s->st = NONE; s->told = 0; } }
    else if (op == 2) { settle(0); provide(1); }
    else if (op == 3) { provide(1); refuse = (rbusError_t)vp_u8("refusal"); vp_assume(refuse != 0); }
    else { vp_run_others(); vp_fire_timeouts(); settle(1); } }
  settle(0); publish(); drain(); publish(); vp_reach("history"); refuse = 0; end(); provide(0); vp_run_others(); vp_check(vp_heap_live() == base, "subscriptions leave nothing behind"); 
  rbusFilter_Release(flt); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
/* closing with subscriptions not made yet */
static void closing(void) {
  start(); uint64_t base = 0; for (int r = 0; r < 3; r++) { int real = r == 2, which = real ? (int)vp_choose(15, "subscriptions") + 1 : 15, run = real ? (int)vp_choose(2, "tried already") : 1, first = real ? (int)vp_choose(2, "who closes first") : r;
    for (int i = 0; i < NS; i++) if (which >> i & 1) { vp_check(begin(&S[i], 100) == 0, "a subscription can be begun"); S[i].st = PENDING; S[i].due = vp_now_ns + 100 * SEC; } if (run) settle(0);
    vp_check(rbus_close(who(first)) == 0, "components close"); for (int i = 0; i < NS; i++) if (S[i].who == first) S[i].st = NONE, S[i].told = 0; settle(0); provide(1); drain(); publish(); vp_check(rbus_close(who(!first)) == 0, "components close"); for (int i = 0; i < NS; i++) S[i].st = NONE; settle(0); provide(0); vp_check(vp_run_others() == 0, "nothing is left to do after closing"); vp_check(rbus_open(&hc, "c") == 0 && rbus_open(&hd, "d") == 0, "components open"); if (!real) base = vp_heap_live(); else vp_check(vp_heap_live() == base, "subscriptions leave nothing behind"); }
  vp_reach("closing"); rbusFilter_Release(flt); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
/* several at once: all are begun or none */
static void several(void) {
  start(); provide(1); static const int pick[3] = { 0, 1, 3 }; rbusEventSubscription_t x[3]; for (int i = 0; i < 3; i++) { S[pick[i]].who = 0; x[i] = ex(&S[pick[i]]); vp_check(begin(&S[pick[i]], 5) == 0, "a subscription can be begun"); S[pick[i]].st = PENDING; S[pick[i]].due = vp_now_ns + 5 * SEC; } settle(0); end(); provide(0); vp_run_others(); uint64_t base = vp_heap_live();
  int pre = (int)vp_choose(4, "there already"), made = (int)vp_choose(2, "made already"), now = (int)vp_choose(2, "tried already"); if (made) provide(1); if (pre) { struct sub* s = &S[pick[pre - 1]]; vp_check(begin(s, 9) == 0, "a subscription can be begun"); s->st = PENDING; s->due = vp_now_ns + 9 * SEC; if (now || made) settle(0); }
  int rc = rbusEvent_SubscribeExAsync(hc, x, 3, on_done, 7); vp_check(rc == (pre ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : 0), "several subscriptions are begun when all are new"); if (!pre) for (int i = 0; i < 3; i++) S[pick[i]].st = PENDING, S[pick[i]].due = vp_now_ns + 7 * SEC; settle(0); if (vp_choose(2, "provided")) provide(1); drain(); publish(); if (there) { vp_check(nsub[0] == (S[0].st == ON) + (S[3].st == ON) && nsub[1] == (S[1].st == ON), "the provider knows of the subscriptions told to be made and of no other"); } vp_reach("several"); end(); provide(0); vp_run_others(); vp_check(vp_heap_live() == base, "subscriptions leave nothing behind");
  rbusFilter_Release(flt); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
/* ending or closing while a request is under way */
static int act; static void* other(void* x) { (void)x; struct sub* s = &S[0]; if (act == 0) { int rc = finish(s); if (rc == 0) s->st = NONE; } else if (act == 1) { for (int i = 0; i < NS; i++) if (!S[i].who) S[i].st = NONE; vp_check(rbus_close(hc) == 0, "components close"); for (int i = 0; i < NS; i++) if (!S[i].who) S[i].told = 0; hc = NULL; } else if (act == 2) { int rc = finish(s); if (rc == 0) { s->st = NONE; s->told = 0; rc = begin(s, 5); vp_check(rc == 0, "a subscription can be begun"); s->st = PENDING; s->due = vp_now_ns + 5 * SEC; } } else { struct sub* t = &S[1]; vp_check(begin(t, 5) == 0, "a subscription can be begun"); t->st = PENDING; t->due = vp_now_ns + 5 * SEC; } return NULL; }
static void race(void) { start(); act = (int)vp_param("act", 0); leave = (int)vp_param("leave", 0); uint64_t base = 0; for (int r = 0; r < 4; r++) { int with = r == 3 ? (int)vp_choose(2, "another") : 1; provide(1);
    for (int i = 0; i < NS; i++) if (r < 3 ? r == 0 || i != 1 : !(i & 1) && (!i || with)) { vp_check(begin(&S[i], 5) == 0, "a subscription can be begun"); S[i].st = PENDING; S[i].due = vp_now_ns + 5 * SEC; } if (r == 0 || r == 2) settle(0); if (r) { pthread_t t; pthread_create(&t, NULL, other, NULL); if (r == 3) { vp_in_order = 0; vp_set_preempt((int)vp_param("preempt", 1)); } vp_run_others(); vp_set_preempt(0); vp_in_order = 1; pthread_join(t, NULL); }
    for (int i = 0; i < NS; i++) if (S[i].st == NONE) S[i].told = 0; settle(0); drain(); publish(); end(); vp_check(rbus_close(hd) == 0 && (!hc || rbus_close(hc) == 0), "components close"); provide(0); vp_check(vp_run_others() == 0, "nothing is left to do after closing"); vp_check(rbus_open(&hc, "c") == 0 && rbus_open(&hd, "d") == 0, "components open"); if (r < 3) base = vp_heap_live(); else vp_check(vp_heap_live() == base, "subscriptions leave nothing behind"); }
  vp_reach("race"); rbusFilter_Release(flt); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); vp_check(vp_run_others() == 0, "nothing is left to do after closing"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: closing(); break; case 3: several(); break; default: race(); } return 0; }
