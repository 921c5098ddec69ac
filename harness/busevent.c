/* Events: who is told what, when something is published or subscribed to. */
#include "bus.h"
void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg); void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
/* ---- the provider ---- */
static rbusHandle_t hp, hc, hd;
static struct { int n, last; char name[64]; int refuse; int auto_off; int interval; } sh; /* calls of the subscribe handler */
static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t interval, bool* autop) {
  (void)f; if (h != hp) sh.n += 100; sh.n++; sh.last = a == RBUS_EVENT_ACTION_SUBSCRIBE ? 1 : 2; sh.interval = interval; snprintf(sh.name, sizeof sh.name, "%s", n); *autop = false; return sh.refuse; }
static struct raw cur; static int get_fails, ngets;
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)h; (void)o; ngets++; if (get_fails) return RBUS_ERROR_ACCESS_NOT_ALLOWED; rbusValue_t v = rbusValue_Init(0); set_raw(v, &cur); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
static rbusDataElement_t els[] = {
  { "Device.E.X!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, on_sub, NULL } }, { "Device.E.Y!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, NULL, NULL } },
  { "Device.E.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, on_sub, NULL } }, { "Device.E.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, NULL, NULL, NULL, NULL } },
  { "Device.E.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, on_sub, NULL } }, { "Device.E.T.{i}.Z!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, on_sub, NULL } } };
enum { NELS = sizeof els / sizeof *els };
/* ---- what is published ---- */
static struct { const char* name; rbusEventType_t type; struct raw v; int data; } pub; /* data: 0 none, 1 a value, 2 a value and a child object */
static rbusError_t publish(const char* name, rbusEventType_t type) {
  rbusEvent_t e = { name, type, NULL }; pub.name = name; pub.type = type;
  if (pub.data) { rbusObject_Init(&e.data, NULL); rbusValue_t v = rbusValue_Init(0); set_raw(v, &pub.v); rbusObject_SetValue(e.data, "v", v); if (pub.data > 1) { rbusObject_t c; rbusObject_Init(&c, "kid"); rbusObject_SetValue(c, "w", v); rbusObject_SetChildren(e.data, c); rbusObject_Release(c); } rbusValue_Release(v); }
  rbusError_t rc = rbusEvent_Publish(hp, &e); if (e.data) rbusObject_Release(e.data); return rc; }
static int data_ok(rbusObject_t d) {
  if (!pub.data) return !d; if (!d) return 0; rbusProperty_t p = rbusObject_GetProperties(d); if (!p || strcmp(rbusProperty_GetName(p), "v") || rbusProperty_GetNext(p)) return 0; int ok = is_raw(rbusProperty_GetValue(p), &pub.v) != 0;
  rbusObject_t c = rbusObject_GetChildren(d); if (pub.data == 1) return ok & !c; if (!c || strcmp(rbusObject_GetName(c), "kid") || rbusObject_GetNext(c)) return 0; p = rbusObject_GetProperties(c); if (!p || strcmp(rbusProperty_GetName(p), "w") || rbusProperty_GetNext(p)) return 0; return ok & (is_raw(rbusProperty_GetValue(p), &pub.v) != 0); }
/* ---- the subscribers ---- */
enum { NSUB = 6 };
struct sub { int who; const char* name; rbusFilter_t f; int on, got, bad; };
static struct sub S[NSUB]; static int nsub;
static rbusHandle_t who(int w) { return w ? hd : hc; }
static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { struct sub* r = s->userData; if (r < S || r >= S + NSUB) { vp_error("an event came without the subscriber's own data"); return; } r->got++; if (h != who(r->who) || strcmp(s->eventName, r->name) || !e->name || strcmp(e->name, pub.name) || e->type != pub.type) r->bad |= 1; if (!data_ok(e->data)) r->bad |= 2; }
static rbusEventSubscription_t ex(struct sub* s) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = s->name; x.filter = s->f; x.handler = on_event; x.userData = s; return x; }
static rbusError_t subscribe(struct sub* s) { if (!s->f) return rbusEvent_Subscribe(who(s->who), s->name, on_event, s, 0); rbusEventSubscription_t x = ex(s); return rbusEvent_SubscribeEx(who(s->who), &x, 1, 0); }
static rbusError_t unsubscribe(struct sub* s) { if (!s->f) return rbusEvent_Unsubscribe(who(s->who), s->name); rbusEventSubscription_t x = ex(s); return rbusEvent_UnsubscribeEx(who(s->who), &x, 1); }
static void start(void) { bus_queueing = 1; vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_open(&hd, "d") == 0, "components open"); vp_check(rbus_regDataElements(hp, NELS, els) == 0, "elements register"); }
static void stop(void) { bus_pump(); rbus_unregDataElements(hp, NELS, els); vp_check(rbus_close(hd) == 0 && rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
static void pump_and_check(const char* name) { /* every subscriber of the event got it once, and nobody else anything */
  bus_pump(); int ok = 1; for (int i = 0; i < nsub; i++) ok &= S[i].got == (S[i].on && !strcmp(S[i].name, name)); vp_check(ok, "an event reaches exactly its subscribers, once"); int bad = 0; for (int i = 0; i < nsub; i++) bad |= S[i].bad; vp_check(!bad, "an event arrives with the name, type and data published"); for (int i = 0; i < nsub; i++) S[i].got = 0; }
static void add(int w, const char* n, rbusFilter_t f) { struct sub* s = &S[nsub++]; memset(s, 0, sizeof *s); s->who = w; s->name = n; s->f = f; }
static void warm_n(int n) { /* all of them once, so that what grows is grown */ for (int i = 0; i < n; i++) vp_check(subscribe(&S[i]) == 0, "an event can be subscribed to"); for (int i = 0; i < n; i++) vp_check(unsubscribe(&S[i]) == 0, "a subscription can be ended"); }
static void warm(void) { warm_n(nsub); }
static int someone(const char* n) { int k = 0; for (int i = 0; i < nsub; i++) k += S[i].on && !strcmp(S[i].name, n); return k; }
/* histories of subscribing, unsubscribing and publishing */
static void history(void) {
  start(); add(0, "Device.E.X!", NULL); add(0, "Device.E.Y!", NULL); add(1, "Device.E.X!", NULL); static const char* ev[2] = { "Device.E.X!", "Device.E.Y!" }; rbusValue_t fv = rbusValue_InitInt32(5); rbusFilter_InitRelation(&S[3].f, RBUS_FILTER_OPERATOR_GREATER_THAN, fv); rbusValue_Release(fv); rbusFilter_t f = S[3].f; add(0, "Device.E.X!", f);
  pub.data = 1; mk_raw(&pub.v, K_I32, 0, 0); vp_assume((uint32_t)pub.v.n - 1000u <= 29000u); 
  warm(); memset(&sh, 0, sizeof sh); uint64_t base = vp_heap_live();
  int n = (int)vp_param("ops", 3), op0 = (int)vp_param("op0", 99);
  for (int k = 0; k < n; k++) {
    int op = k == 0 && op0 != 99 ? op0 : (int)vp_choose(3, "operation"); int calls = sh.n;
    if (op == 2) { int e = (int)vp_choose(2, "event"); int rc = publish(ev[e], RBUS_EVENT_GENERAL); vp_check(rc == (someone(ev[e]) ? RBUS_ERROR_SUCCESS : RBUS_ERROR_NOSUBSCRIBERS), "publishing reports whether anybody is subscribed"); pump_and_check(ev[e]); continue; }
    struct sub* s = &S[vp_choose((uint32_t)nsub, "subscriber")]; int has = !strcmp(s->name, "Device.E.X!");
    if (op == 0) { sh.refuse = vp_choose(2, "refused") ? RBUS_ERROR_OUT_OF_RESOURCES : 0; int refused = sh.refuse && has && !s->on; int rc = subscribe(s); vp_check(rc == (s->on ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : refused ? sh.refuse : RBUS_ERROR_SUCCESS), "subscribing succeeds exactly when new and accepted"); vp_check(sh.n == calls + (has && !s->on) && (sh.n == calls || (sh.last == 1 && !strcmp(sh.name, s->name))), "the provider is asked about each new subscription once"); sh.refuse = 0; if (!refused) s->on = 1; }
    else { int rc = unsubscribe(s); vp_check(rc == (s->on ? RBUS_ERROR_SUCCESS : RBUS_ERROR_INVALID_OPERATION), "unsubscribing succeeds exactly when subscribed"); vp_check(sh.n == calls + (has && s->on) && (sh.n == calls || (sh.last == 2 && !strcmp(sh.name, s->name))), "the provider is told once of each subscription's end"); s->on = 0; }
    rbusEventSubscription_t x = ex(s); vp_check(rbusEvent_IsSubscriptionExist(who(s->who), NULL, &x) == (s->on != 0), "whether a subscription exists is reported"); }
  for (int e = 0; e < 2; e++) { publish(ev[e], RBUS_EVENT_GENERAL); pump_and_check(ev[e]); }
  for (int i = 0; i < nsub; i++) if (S[i].on) { vp_check(unsubscribe(&S[i]) == 0, "a subscription can be ended"); S[i].on = 0; }
  vp_check(vp_heap_live() == base, "subscribing and publishing leak nothing"); vp_reach("history"); rbusFilter_Release(f); stop(); }

/* a property's change: everyone without a filter is told; with a filter, those for whom it starts or stops to match */
static int flag_state(rbusObject_t d) { rbusValue_t v = rbusObject_GetValue(d, "filter"); return !v ? -1 : rbusValue_GetType(v) != RBUS_BOOLEAN ? -2 : rbusValue_GetBoolean(v) != 0; }
static struct { int got, flag, oldok, newok, extra; } chg[NSUB]; static struct raw ov, nv;
static void on_change(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { struct sub* r = s->userData; int i = (int)(r - S); (void)h; chg[i].got++; chg[i].flag = flag_state(e->data); chg[i].oldok = is_raw(rbusObject_GetValue(e->data, "oldValue"), &ov); chg[i].newok = is_raw(rbusObject_GetValue(e->data, "value"), &nv) && !strcmp(e->name, "Device.E.A") && e->type == RBUS_EVENT_VALUE_CHANGED; int n = 0; for (rbusProperty_t p = rbusObject_GetProperties(e->data); p; p = rbusProperty_GetNext(p)) n++; chg[i].extra = n - 2; }
static int rel(int op, int32_t a, int32_t b) { switch (op) { case 0: return a > b; case 1: return a >= b; case 2: return a < b; case 3: return a <= b; case 4: return a == b; default: return a != b; } }
static void change(void) {
  start(); uint64_t start_live; static const rbusFilter_RelationOperator_t ops[6] = { RBUS_FILTER_OPERATOR_GREATER_THAN, RBUS_FILTER_OPERATOR_GREATER_THAN_OR_EQUAL, RBUS_FILTER_OPERATOR_LESS_THAN, RBUS_FILTER_OPERATOR_LESS_THAN_OR_EQUAL, RBUS_FILTER_OPERATOR_EQUAL, RBUS_FILTER_OPERATOR_NOT_EQUAL };
  struct raw th; mk_raw(&th, K_I32, 0, 0); vp_assume((uint32_t)th.n - 1000u <= 29000u); int op = (int)vp_choose(6, "comparison"); rbusFilter_t f, g; rbusValue_t tv = rbusValue_Init(0); set_raw(tv, &th); rbusFilter_InitRelation(&f, ops[op], tv); rbusValue_Release(tv); rbusFilter_InitLogic(&g, RBUS_FILTER_OPERATOR_NOT, f, NULL);
  /* plain and filtered subscribers in any order: two without a filter, one with, one with the opposite */
  int first = (int)vp_choose(4, "order"); for (int i = 0; i < 4; i++) { int k = (i + first) % 4; add(k & 1, "Device.E.A", k == 1 ? f : k == 2 ? g : NULL); } if (first & 1) { struct sub t = S[0]; S[0] = S[2]; S[2] = t; }
  for (int i = 0; i < nsub; i++) { rbusEventSubscription_t x = ex(&S[i]); x.handler = on_change; vp_check(rbusEvent_SubscribeEx(who(S[i].who), &x, 1, 0) == 0, "an event can be subscribed to"); }
  start_live = vp_heap_live();
  for (int round = 0; round < (int)vp_param("rounds", 2); round++) {
    mk_raw(&ov, K_I32, 0, 0); mk_raw(&nv, K_I32, 0, 0); vp_assume((uint32_t)ov.n - 1000u <= 29000u); vp_assume((uint32_t)nv.n - 1000u <= 29000u); memset(chg, 0, sizeof chg);
    rbusEvent_t e = { "Device.E.A", RBUS_EVENT_VALUE_CHANGED, NULL }; rbusObject_Init(&e.data, NULL); rbusValue_t a = rbusValue_Init(0), b = rbusValue_Init(0); set_raw(a, &ov); set_raw(b, &nv); int swap = (int)vp_choose(2, "property order"); rbusObject_SetValue(e.data, swap ? "oldValue" : "value", swap ? a : b); rbusObject_SetValue(e.data, swap ? "value" : "oldValue", swap ? b : a); rbusValue_Release(a); rbusValue_Release(b);
    vp_check(rbusEvent_Publish(hp, &e) == 0, "a change is published"); vp_check(flag_state(e.data) == -1, "publishing leaves the publisher's data as it was"); rbusObject_Release(e.data); bus_pump();
    int m0 = rel(op, (int32_t)ov.n, (int32_t)th.n), m1 = rel(op, (int32_t)nv.n, (int32_t)th.n), count = 1, data = 1, flag = 1;
    for (int i = 0; i < nsub; i++) { int flt = S[i].f == f ? 1 : S[i].f == g ? 2 : 0, want = !flt | (m0 != m1); count &= chg[i].got == want; if (chg[i].got) { data &= chg[i].oldok & chg[i].newok & (chg[i].extra == (flt != 0)); flag &= !flt ? chg[i].flag == -1 : chg[i].flag == (flt == 1 ? m1 : !m1); } }
    vp_check(count, "a change reaches those without a filter, and others when their filter starts or stops to match"); vp_check(data, "a change arrives with the old and the new value"); vp_check(flag, "a filtered subscriber is told whether its filter matches now"); }
  vp_check(vp_heap_live() == start_live, "publishing a change leaks nothing"); for (int i = 0; i < nsub; i++) vp_check(unsubscribe(&S[i]) == 0, "a subscription can be ended"); vp_reach("change"); rbusFilter_Release(g); rbusFilter_Release(f); stop(); }
/* changes without both values are refused */
static void badchange(void) { start(); add(0, "Device.E.A", NULL); vp_check(subscribe(&S[0]) == 0, "an event can be subscribed to"); int w = (int)vp_choose(4, "what is there"); rbusEvent_t e = { "Device.E.A", RBUS_EVENT_VALUE_CHANGED, NULL }; rbusValue_t v = rbusValue_InitInt32(4); if (w) rbusObject_Init(&e.data, NULL); if (w & 1 && w != 3) rbusObject_SetValue(e.data, "value", v); if (w == 2) rbusObject_SetValue(e.data, "oldValue", v); rbusValue_Release(v); vp_check(rbusEvent_Publish(hp, &e) == RBUS_ERROR_INVALID_INPUT, "a change without its values is refused"); bus_pump(); vp_check(S[0].got == 0, "a refused change reaches nobody"); if (e.data) rbusObject_Release(e.data); unsubscribe(&S[0]);
  static const char* nm[] = { "Device.E.B", "Device.E.X", "Device.E.", "Device.E.T.1.P", "", "Device.E.X!!", "Device.F.X!" }; e.data = NULL; e.type = RBUS_EVENT_GENERAL; e.name = nm[vp_choose(7, "name")]; int rc = rbusEvent_Publish(hp, &e); vp_check(rc == RBUS_ERROR_ELEMENT_DOES_NOT_EXIST || (rc == RBUS_ERROR_NOSUBSCRIBERS && !strcmp(e.name, "Device.E.")), "an event of an unknown name is not published"); vp_reach("bad change"); stop(); }
/* table rows: subscriptions by number, by alias, for every row, and to the table itself */
static const struct { int num; const char *row, *alias, *p, *ap; } R[2] = { { 1, "Device.E.T.1", "a", "Device.E.T.1.P", "Device.E.T.[a].P" }, { 12, "Device.E.T.12", "ab", "Device.E.T.12.P", "Device.E.T.[ab].P" } };
static int there[2]; static struct { int got, created, deleted, bad; } tbl;
static int covers(struct sub* s, int r) { return !strcmp(s->name, R[r].p) || !strcmp(s->name, R[r].ap) || strchr(s->name, '*'); }
static int exact_row(struct sub* s) { for (int r = 0; r < 2; r++) if (!strchr(s->name, '*') && covers(s, r)) return r; return -1; }
static int rowexp; /* the row the next table event must be about */
static void on_table(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { (void)h; (void)s; tbl.got++; rbusValue_t n = rbusObject_GetValue(e->data, "rowName"), i = rbusObject_GetValue(e->data, "instNum"), a = rbusObject_GetValue(e->data, "alias"); if (strcmp(e->name, "Device.E.T.") || !n || strcmp(rbusValue_GetString(n, NULL), R[rowexp].row)) tbl.bad++; if (e->type == RBUS_EVENT_OBJECT_CREATED) { tbl.created++; if (!i || (int)rbusValue_GetUInt32(i) != R[rowexp].num || !a || strcmp(rbusValue_GetString(a, NULL), R[rowexp].alias)) tbl.bad++; } else if (e->type == RBUS_EVENT_OBJECT_DELETED) tbl.deleted++; else tbl.bad++; }
static int live[NSUB];
static void rows(void) {
  start(); add(0, R[0].p, NULL); add(0, "Device.E.T.*.P", NULL); add(1, R[0].ap, NULL); add(1, R[1].p, NULL); add(1, "Device.E.T.*.P", NULL); pub.data = 1; mk_raw(&pub.v, K_I32, 0, 0); vp_assume((uint32_t)pub.v.n - 1000u <= 29000u); int tsub = (int)vp_choose(2, "table subscription"); if (tsub) vp_check(rbusEvent_Subscribe(hd, "Device.E.T.", on_table, NULL, 0) == 0, "a table can be subscribed to");
  int n = (int)vp_param("ops", 3), op0 = (int)vp_param("op0", 99), pre = (int)vp_param("pre", 0);
  for (int r = 0; r < 2; r++) if (pre & (1 << r)) { rowexp = r; vp_check(rbusTable_registerRow(hp, "Device.E.T.", (uint32_t)R[r].num, R[r].alias) == 0, "a row registers"); bus_pump(); there[r] = 1; } memset(&tbl, 0, sizeof tbl); memset(&sh, 0, sizeof sh);
  for (int i = 0; i < nsub; i++) if ((vp_param("on", 0) >> i) & 1) { vp_check(subscribe(&S[i]) == 0, "an event can be subscribed to"); S[i].on = live[i] = 1; }
  for (int k = 0; k < n; k++) {
    int op = k == 0 && op0 != 99 ? op0 : (int)vp_choose(4, "operation"), calls = sh.n;
    if (op == 0) { int r = (int)vp_choose(2, "row"); if (there[r]) vp_end_path(); rowexp = r; vp_check(rbusTable_registerRow(hp, "Device.E.T.", (uint32_t)R[r].num, R[r].alias) == 0, "a row registers"); there[r] = 1; bus_pump(); vp_check(tbl.created == tsub && !tbl.deleted && !tbl.bad, "a table's subscriber is told of each new row once"); vp_check(sh.n == calls, "a new row asks for no subscription again"); memset(&tbl, 0, sizeof tbl); }
    else if (op == 1) { int r = (int)vp_choose(2, "row"); if (!there[r]) vp_end_path(); rowexp = r; vp_check(rbusTable_unregisterRow(hp, R[r].row) == 0, "a row unregisters"); there[r] = 0; bus_pump(); vp_check(tbl.deleted == tsub && !tbl.created && !tbl.bad, "a table's subscriber is told of each removed row once"); memset(&tbl, 0, sizeof tbl); for (int i = 0; i < nsub; i++) if (exact_row(&S[i]) == r) live[i] = 0; }
    else { int i = (int)vp_choose((uint32_t)nsub, "subscriber"); struct sub* s = &S[i]; int er = exact_row(s), gone = er >= 0 && !there[er];
      if (op == 2) { int rc = subscribe(s); vp_check(s->on ? rc == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : gone ? rc != 0 : rc == 0, "a row's event can be subscribed to exactly while the row exists"); if (!s->on && !gone) s->on = live[i] = 1; }
      else { int rc = unsubscribe(s); vp_check(!s->on ? rc == RBUS_ERROR_INVALID_OPERATION : live[i] ? rc == 0 : 1, "a subscription ends when asked"); s->on = live[i] = 0; } } }
  for (int r = 0; r < 2; r++) if (there[r]) { int rc = publish(R[r].p, RBUS_EVENT_GENERAL); bus_pump(); int ok = 1, bad = 0; for (int i = 0; i < nsub; i++) { ok &= S[i].got == (live[i] && covers(&S[i], r)); bad |= S[i].bad; S[i].got = 0; } int any = 0; for (int i = 0; i < nsub; i++) any |= live[i] && covers(&S[i], r); vp_check(rc == (any ? RBUS_ERROR_SUCCESS : RBUS_ERROR_NOSUBSCRIBERS), "publishing reports whether anybody is subscribed"); vp_check(ok, "a row's event reaches exactly those subscribed to it by number, alias or for every row"); vp_check(!bad, "an event arrives with the name, type and data published"); vp_check(!tbl.got, "a row's event is none of the table's"); }
  vp_reach("rows"); stop(); }
/* subscribers in other processes: each of their subscriptions lives and ends on its own, and all of a process's end with it */
enum { NF = 5 };
static struct { const char* box; int id, flt, interval, duration, on; } F[NF] = { { "cli.INBOX.7", 1, 0, 0, 0, 0 }, { "cli.INBOX.7", 2, 0, 0, 0, 0 }, { "cli.INBOX.7", 1, 1, 0, 0, 0 }, { "cli.INBOX.77", 1, 0, 0, 0, 0 }, { "cli.INBOX.7", 1, 0, 5, 60, 0 } };
static rbusFilter_t ff;
static int foreign_sub(int i, int add, uint32_t* sid) {
  rbusMessage m, pl, a; rbusMessage_Init(&m); rbusMessage_Init(&pl); rbusMessage_SetString(m, "Device.E.X!"); rbusMessage_SetString(m, F[i].box); rbusMessage_SetInt32(m, 1); rbusMessage_SetInt32(pl, F[i].id); rbusMessage_SetInt32(pl, F[i].interval); rbusMessage_SetInt32(pl, F[i].duration); rbusMessage_SetInt32(pl, F[i].flt); if (F[i].flt) rbusFilter_AppendToMessage(ff, pl); rbusMessage_SetMessage(m, pl); rbusMessage_Release(pl); rbusMessage_SetInt32(m, 0); rbusMessage_SetInt32(m, 0);
  int32_t rc = -1, id = 0; rtError e = bus_call("Device.E.X!", add ? METHOD_SUBSCRIBE : METHOD_UNSUBSCRIBE, F[i].box, m, &a); rbusMessage_Release(m); vp_check(e == RT_OK && a, "a request to subscribe is answered"); if (!a) vp_end_path(); vp_check(rbusMessage_GetInt32(a, &rc) == RT_OK, "the answer to a request to subscribe holds its result"); if (rc == 0) vp_check(rbusMessage_GetInt32(a, &id) == RT_OK, "the answer to a request to subscribe holds the subscription's number"); *sid = (uint32_t)id; rbusMessage_Release(a); return rc; }
void rbusHandleList_ClientDisconnect(char const* clientListener);
static void gone(const char* box) { rbusHandleList_ClientDisconnect(box); }
static int event_ok(struct bus_sent* m, int i) { rbusMessage b; rbusMessage_FromBytes(&b, m->data, m->n); const char *n1 = NULL, *n2 = NULL; int32_t v2 = 0; rbusMessage_BeginMetaSectionRead(b); rbusMessage_GetString(b, &n1); rbusMessage_GetString(b, &n2); rbusMessage_GetInt32(b, &v2); rbusMessage_EndMetaSectionRead(b); rbusEvent_t e = { 0, 0, 0 }; rbusFilter_t f = NULL; uint32_t iv = 9, du = 9; int32_t id = -1; rbusEventData_updateFromMessage(&e, &f, &iv, &du, &id, b);
  int ok = n1 && !strcmp(n1, "Device.E.X!") && n2 && !strcmp(n2, "p") && v2 == 1 && id == F[i].id && iv == (uint32_t)F[i].interval && du == (uint32_t)F[i].duration && !!f == F[i].flt && e.name && !strcmp(e.name, "Device.E.X!") && e.type == pub.type; if (ok) ok = data_ok(e.data); if (f) { ok &= !rbusFilter_Compare(f, ff); rbusFilter_Release(f); } rbusObject_Release(e.data); rbusMessage_Release(b); return ok; }
static int matches(struct bus_sent* m, int i) { rbusMessage b; rbusMessage_FromBytes(&b, m->data, m->n); const char* t; int32_t v2; rbusMessage_BeginMetaSectionRead(b); rbusMessage_GetString(b, &t); rbusMessage_GetString(b, &t); rbusMessage_GetInt32(b, &v2); rbusMessage_EndMetaSectionRead(b); rbusEvent_t e = { 0, 0, 0 }; rbusFilter_t f = NULL; uint32_t iv = 0, du = 0; int32_t id = 0; rbusEventData_updateFromMessage(&e, &f, &iv, &du, &id, b); int r = !strcmp(m->topic, F[i].box) && id == F[i].id && !!f == F[i].flt && iv == (uint32_t)F[i].interval; if (f) rbusFilter_Release(f); rbusObject_Release(e.data); rbusMessage_Release(b); return r; }
static void foreign(void) {
  start(); rbusValue_t fv = rbusValue_InitInt32(5); rbusFilter_InitRelation(&ff, RBUS_FILTER_OPERATOR_LESS_THAN, fv); rbusValue_Release(fv); pub.data = 1; mk_raw(&pub.v, K_I32, 0, 0); vp_assume((uint32_t)pub.v.n - 1000u <= 29000u);
  uint32_t ids[NF], id; for (int i = 0; i < NF; i++) vp_check(foreign_sub(i, 1, &ids[i]) == 0, "an event can be subscribed to"); for (int i = 0; i < NF; i++) { for (int j = 0; j < i; j++) vp_check(ids[i] != ids[j], "each subscription has its own number"); } int start_on = (int)vp_param("on", 0); uint64_t base = vp_heap_live(); for (int i = 0; i < NF; i++) { F[i].on = start_on >> i & 1; if (!F[i].on) vp_check(foreign_sub(i, 0, &id) == 0, "a subscription ends when asked"); }
  uint64_t half = vp_heap_live(); int n = (int)vp_param("ops", 3);
  for (int k = 0; k < n; k++) { int op = (int)vp_choose(4, "operation");
    if (op == 0 || op == 1) { int i = (int)vp_choose(NF, "subscription"), rc = foreign_sub(i, op == 0, &id); vp_check(rc == (op == 0 ? (F[i].on ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : RBUS_ERROR_SUCCESS) : F[i].on ? RBUS_ERROR_SUCCESS : RBUS_ERROR_INVALID_INPUT), "a subscription is made once and ended once"); F[i].on = op == 0; }
    else if (op == 2) { int b = (int)vp_choose(3, "client"); const char* box = b == 0 ? F[0].box : b == 1 ? F[3].box : "cli.INBOX.777"; int calls = sh.n, k2 = 0; gone(box); for (int i = 0; i < NF; i++) if (!strcmp(F[i].box, box)) { k2 += F[i].on; F[i].on = 0; } vp_check(sh.n - calls == k2, "the provider is told of each subscription that ends with its client"); }
    else { bus_clear(); int any = 0, ok = 1, data = 1; for (int i = 0; i < NF; i++) any += F[i].on; int rc = publish("Device.E.X!", RBUS_EVENT_GENERAL); vp_check(rc == (any ? RBUS_ERROR_SUCCESS : RBUS_ERROR_NOSUBSCRIBERS), "publishing reports whether anybody is subscribed"); ok &= bus_nout == any; for (int i = 0; i < NF; i++) { int got = 0; for (int j = 0; j < bus_nout; j++) if (matches(&bus_out[j], i)) { got++; data &= event_ok(&bus_out[j], i); } ok &= got == F[i].on; } vp_check(ok, "an event is sent once to each subscription in other processes"); vp_check(data, "an event is sent with the name, type, data and terms of the subscription"); bus_clear(); } }
  int same = 1; for (int i = 0; i < NF; i++) same &= F[i].on == (start_on >> i & 1); if (same) vp_check(vp_heap_live() == half, "subscribing from other processes leaks nothing"); (void)base;
  bus_clear(); gone(F[0].box); gone(F[3].box); for (int i = 0; i < NF; i++) F[i].on = 0; vp_check(publish("Device.E.X!", RBUS_EVENT_GENERAL) == RBUS_ERROR_NOSUBSCRIBERS && bus_nout == 0, "nothing is sent to clients that are gone"); vp_reach("foreign"); rbusFilter_Release(ff); stop(); }
/* several subscriptions at once: all of them are made or none */
static void several(void) {
  start(); rbusValue_t fv = rbusValue_InitInt32(5); rbusFilter_t f; rbusFilter_InitRelation(&f, RBUS_FILTER_OPERATOR_GREATER_THAN, fv); rbusValue_Release(fv); pub.data = 1; mk_raw(&pub.v, K_I32, 0, 0); vp_assume((uint32_t)pub.v.n - 1000u <= 29000u);
  add(0, "Device.E.X!", NULL); add(0, "Device.E.Y!", NULL); add(0, "Device.E.X!", f); add(1, "Device.E.X!", NULL); add(0, "Device.E.None!", NULL); warm_n(4); uint64_t base = vp_heap_live();
  int pre = (int)vp_choose(16, "already there"); for (int i = 0; i < 4; i++) if (pre >> i & 1) { vp_check(subscribe(&S[i]) == 0, "an event can be subscribed to"); S[i].on = 1; } sh.refuse = (int)vp_choose(2, "provider refuses") ? RBUS_ERROR_ACCESS_NOT_ALLOWED : 0;
  int n = (int)vp_param("n", 2), pick[3]; rbusEventSubscription_t x[3]; int want = 0, made = 0; for (int k = 0; k < n; k++) { pick[k] = (int)vp_choose(4, "subscription"); if (pick[k] == 3) pick[k] = 4; x[k] = ex(&S[pick[k]]); }
  for (int k = 0; k < n && !want; k++) { int p = pick[k], dup = 0; for (int j = 0; j < k; j++) dup |= pick[j] == p; if (p == 4) want = RBUS_ERROR_TIMEOUT; else if (S[p].on || dup) want = RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST; else if (sh.refuse && strcmp(S[p].name, "Device.E.Y!")) want = sh.refuse; else made++; }
  int refuse = sh.refuse; if (want && made) sh.refuse = refuse; int rc = rbusEvent_SubscribeEx(hc, x, n, 0); vp_check(rc == want, "subscribing to several events reports the first failure"); sh.refuse = 0;
  if (!want) for (int k = 0; k < n; k++) S[pick[k]].on = 1;
  static const char* ev[2] = { "Device.E.X!", "Device.E.Y!" }; for (int e = 0; e < 2; e++) { rc = publish(ev[e], RBUS_EVENT_GENERAL); vp_check(rc == (someone(ev[e]) ? RBUS_ERROR_SUCCESS : RBUS_ERROR_NOSUBSCRIBERS), "after a failure only the earlier subscriptions are there"); pump_and_check(ev[e]); }
  for (int i = 0; i < 4; i++) vp_check(unsubscribe(&S[i]) == (S[i].on ? RBUS_ERROR_SUCCESS : RBUS_ERROR_INVALID_OPERATION), "a subscription ends exactly when there is one"); vp_check(vp_heap_live() == base, "subscribing to several events leaks nothing"); vp_reach("several"); rbusFilter_Release(f); stop(); }
/* the value at the time of subscribing */
static struct { int n, ok; } ini; static struct raw iniv;
static void on_initial(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { ini.n++; ini.ok = h == hc && s->userData == &ini && e->type == RBUS_EVENT_INITIAL_VALUE && e->name && !strcmp(e->name, "Device.E.A"); if (ini.ok) ini.ok = is_raw(rbusObject_GetValue(e->data, "initialValue"), &iniv) != 0; }
static void initial(void) {
  start(); rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = "Device.E.A"; x.handler = on_initial; x.userData = &ini; mk_raw(&cur, K_I32, 0, 0); vp_assume((uint32_t)cur.n - 1000u <= 29000u); iniv = cur; uint64_t base = 0;
  for (int k = 0; k < 3; k++) { x.publishOnSubscribe = k == 0 ? 1 : (int)vp_choose(2, "initial value wanted"); get_fails = k == 0 ? 0 : (int)vp_choose(2, "provider fails"); memset(&ini, 0, sizeof ini); ngets = 0; vp_check(rbusEvent_SubscribeEx(hc, &x, 1, 0) == 0, "an event can be subscribed to"); bus_pump(); vp_check(ini.n == (x.publishOnSubscribe && !get_fails), "the initial value is told exactly when it was asked for and is known"); if (ini.n) vp_check(ini.ok, "the initial value is the value at the time of subscribing"); vp_check(rbusEvent_IsSubscriptionExist(hc, NULL, &x), "a subscription exists once made"); vp_check(rbusEvent_UnsubscribeEx(hc, &x, 1) == 0, "a subscription can be ended"); vp_check(!rbusEvent_IsSubscriptionExist(hc, NULL, &x), "a subscription is gone once ended"); if (k == 0) base = vp_heap_live(); else vp_check(vp_heap_live() == base, "asking for the initial value leaks nothing"); }
  vp_reach("initial"); stop(); }
/* initial values of wildcards and tables; the handler may end the subscription at once */
static struct { int n, bad, leave; int rows; rbusEventSubscription_t* x; } im;
static void on_many(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) {
  im.n++; int k = 0, tbl = !strchr(im.x->eventName, '*') && im.x->eventName[strlen(im.x->eventName) - 1] == '.', one = !strchr(im.x->eventName, '*') && !tbl; if (h != hc || s->userData != &im || e->type != RBUS_EVENT_INITIAL_VALUE || !e->name || strcmp(e->name, im.x->eventName)) im.bad = 1;
  if (one) { if (!is_raw(rbusObject_GetValue(e->data, "initialValue"), &iniv)) im.bad = 2; } else { rbusProperty_t p = rbusObject_GetProperties(e->data); if (!p || strcmp(rbusProperty_GetName(p), "numberOfEntries") || rbusValue_GetType(rbusProperty_GetValue(p)) != RBUS_INT32 || rbusValue_GetInt32(rbusProperty_GetValue(p)) != im.rows) im.bad = 3; else for (p = rbusProperty_GetNext(p); p; p = rbusProperty_GetNext(p)) { char w[64]; if (k >= im.rows) { im.bad = 4; break; } k++; if (tbl) { char n[16]; snprintf(n, sizeof n, "path%d", k); snprintf(w, sizeof w, "Device.E.T.%d.", k); if (strcmp(rbusProperty_GetName(p), n) || strcmp(rbusValue_GetString(rbusProperty_GetValue(p), NULL), w)) im.bad = 5; } else { snprintf(w, sizeof w, "Device.E.T.%d.P", k); if (strcmp(rbusProperty_GetName(p), w) || !is_raw(rbusProperty_GetValue(p), &iniv)) im.bad = 6; } } if (k != im.rows) im.bad = 7; }
  if (im.leave) vp_check(rbusEvent_UnsubscribeEx(hc, im.x, 1) == 0, "a subscription can be ended by its handler"); }
static void initials(void) {
  start(); static const char* nm[3] = { "Device.E.A", "Device.E.T.*.P", "Device.E.T." }; int w = (int)vp_choose(3, "name"); im.rows = w ? (int)vp_choose(3, "rows") : 0; for (int r = 0; r < im.rows; r++) vp_check(rbusTable_registerRow(hp, "Device.E.T.", (uint32_t)r + 1, NULL) == 0, "a row registers"); rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = nm[w]; x.handler = on_many; x.userData = &im; x.publishOnSubscribe = 1; im.x = &x; mk_raw(&cur, K_I32, 0, 0); vp_assume((uint32_t)cur.n - 1000u <= 29000u); iniv = cur; im.leave = (int)vp_choose(2, "the handler ends it"); uint64_t base = 0;
  for (int k = 0; k < 2; k++) { im.n = 0; vp_check(rbusEvent_SubscribeEx(hc, &x, 1, 0) == 0, "an event can be subscribed to"); bus_pump(); vp_check(im.n == 1 && !im.bad, "the initial values of all rows are told once"); vp_check(rbusEvent_IsSubscriptionExist(hc, NULL, &x) == !im.leave, "a subscription its handler ends is gone"); if (!im.leave) vp_check(rbusEvent_UnsubscribeEx(hc, &x, 1) == 0, "a subscription can be ended"); if (!k) base = vp_heap_live(); else vp_check(vp_heap_live() == base, "asking for the initial value leaks nothing"); }
  vp_reach("initials"); stop(); }
/* events on their way when a subscriber closes */
static void closing(void) {
  start(); add(0, "Device.E.X!", NULL); add(1, "Device.E.X!", NULL); add(1, "Device.E.Y!", NULL); pub.data = 1; mk_raw(&pub.v, K_I32, 0, 0); vp_assume((uint32_t)pub.v.n - 1000u <= 29000u); int on = (int)vp_choose(8, "subscriptions"), w = (int)vp_choose(3, "who closes"); for (int i = 0; i < 3; i++) if (on >> i & 1) { vp_check(subscribe(&S[i]) == 0, "an event can be subscribed to"); S[i].on = 1; }
  publish("Device.E.X!", RBUS_EVENT_GENERAL); if (w != 1) { vp_check(rbus_close(hc) == 0, "components close"); S[0].on = 0; } if (w != 0) { vp_check(rbus_close(hd) == 0, "components close"); S[1].on = S[2].on = 0; } pump_and_check("Device.E.X!");
  vp_check(publish("Device.E.X!", RBUS_EVENT_GENERAL) == (someone("Device.E.X!") ? RBUS_ERROR_SUCCESS : RBUS_ERROR_NOSUBSCRIBERS), "publishing reports whether anybody is subscribed"); pump_and_check("Device.E.X!"); vp_reach("closing"); rbus_unregDataElements(hp, NELS, els); if (w == 1) vp_check(rbus_close(hc) == 0, "components close"); if (w == 0) vp_check(rbus_close(hd) == 0, "components close"); vp_check(rbus_close(hp) == 0, "components close"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: change(); break; case 2: badchange(); break; case 3: rows(); break; case 4: foreign(); break; case 5: several(); break; case 6: initial(); break; case 7: initials(); break; case 8: closing(); break; } return 0; }
