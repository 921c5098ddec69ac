#ifndef VH_CACHE_H
#define VH_CACHE_H
/* The end of a provider: subscriptions in effect when it ends, however it ends, are in effect again once it is back. */
#include "bus.h"
void rbusHandleList_ClientDisconnect(char const* clientListener); void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg); void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
static rbusHandle_t hp; static int refuse;
static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t interval, bool* autop) { (void)a; (void)n; (void)f; (void)interval; if (h != hp) vp_error("a handler is called for another component"); *autop = false; return refuse ? RBUS_ERROR_ACCESS_NOT_ALLOWED : RBUS_ERROR_SUCCESS; }
static rbusDataElement_t els[] = { { "Device.C.X!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, on_sub, NULL } }, { "Device.C.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, NULL, NULL, NULL, NULL } }, { "Device.C.T.{i}.Z!", RBUS_ELEMENT_TYPE_EVENT, { NULL, NULL, NULL, NULL, on_sub, NULL } } };
/* ---- the subscribers, all in other processes ---- */
enum { NS = 6 };
static struct sub { const char* box; int pid, id; const char* name; int flt; int on; uint32_t iv, du, sid; } S[NS] = { { "cli.INBOX.7", 7, 1, "Device.C.X!", 0, 0, 0, 0, 0 }, { "cli.INBOX.7", 7, 1, "Device.C.X!", 1, 0, 0, 0, 0 }, { "cli.INBOX.8", 8, 2, "Device.C.X!", 0, 0, 0, 0, 0 }, { "cli.INBOX.7", 7, 1, "Device.C.T.1.Z!", 0, 0, 0, 0, 0 }, { "cli.INBOX.8", 8, 2, "Device.C.T.[a].Z!", 0, 0, 0, 0, 0 }, { "cli.INBOX.8", 8, 3, "Device.C.T.*.Z!", 0, 0, 0, 0, 0 } };
static rbusFilter_t flt; static int dead[10];
static int on_kill(pid_t p, int s) { (void)s; if (p > 0 && p < 10 && !dead[p]) return 0; return -1; }
static int foreign(struct sub* s, int add) {
  rbusMessage m, pl, a; rbusMessage_Init(&m); rbusMessage_Init(&pl); rbusMessage_SetString(m, s->name); rbusMessage_SetString(m, s->box); rbusMessage_SetInt32(m, 1); rbusMessage_SetInt32(pl, s->id); rbusMessage_SetInt32(pl, (int32_t)s->iv); rbusMessage_SetInt32(pl, (int32_t)s->du); rbusMessage_SetInt32(pl, s->flt); if (s->flt) rbusFilter_AppendToMessage(flt, pl); rbusMessage_SetMessage(m, pl); rbusMessage_Release(pl); rbusMessage_SetInt32(m, 0); rbusMessage_SetInt32(m, 0);
  int32_t rc = -1, id = 0; rtError e = bus_call(s->name, add ? METHOD_SUBSCRIBE : METHOD_UNSUBSCRIBE, s->box, m, &a); rbusMessage_Release(m); vp_check(e == RT_OK && a, "a request to subscribe is answered"); if (!a) vp_end_path(); rbusMessage_GetInt32(a, &rc); if (rc == 0 && add) { rbusMessage_GetInt32(a, &id); s->sid = (uint32_t)id; } rbusMessage_Release(a); return rc; }
static int sent_to(struct bus_sent* m, struct sub* s, const char* ev, int* bad) {
  rbusMessage b; rbusMessage_FromBytes(&b, m->data, m->n); const char *n1 = NULL, *n2 = NULL; int32_t v = 0; rbusMessage_BeginMetaSectionRead(b); rbusMessage_GetString(b, &n1); rbusMessage_GetString(b, &n2); rbusMessage_GetInt32(b, &v); rbusMessage_EndMetaSectionRead(b); rbusEvent_t e = { 0, 0, 0 }; rbusFilter_t f = NULL; uint32_t iv = 0, du = 0; int32_t id = 0; rbusEventData_updateFromMessage(&e, &f, &iv, &du, &id, b);
  int r = n1 && !strcmp(n1, s->name) && !strcmp(m->topic, s->box) && id == s->id && !f == !s->flt; if (r) { *bad |= (iv != s->iv) | (du != s->du); if (f) *bad |= rbusFilter_Compare(f, flt) != 0; *bad |= !e.name || strcmp(e.name, ev); } if (f) rbusFilter_Release(f); rbusObject_Release(e.data); rbusMessage_Release(b); return r; }
static int row_there;
static void told(void) { /* each event reaches exactly the subscriptions in effect, with their terms */
  static const char* ev[2] = { "Device.C.X!", "Device.C.T.1.Z!" }; for (int k = 0; k < 1 + row_there; k++) { bus_clear(); rbusEvent_t e = { ev[k], RBUS_EVENT_GENERAL, NULL }; rbusObject_Init(&e.data, NULL); int any = 0, ok = 1, bad = 0; for (int i = 0; i < NS; i++) any += S[i].on && (i < 3) == !k; int rc = rbusEvent_Publish(hp, &e); rbusObject_Release(e.data); vp_check(rc == (any ? RBUS_ERROR_SUCCESS : RBUS_ERROR_NOSUBSCRIBERS), "publishing reports whether anybody is subscribed");
    ok &= bus_nout == any; for (int i = 0; i < NS; i++) { int got = 0; for (int j = 0; j < bus_nout; j++) got += sent_to(&bus_out[j], &S[i], ev[k], &bad); ok &= got == (S[i].on && (i < 3) == !k); } vp_check(ok, "an event is sent once to each subscription in effect, and to no other"); vp_check(!bad, "a subscription keeps its terms"); bus_clear(); } }
/* ---- the provider ---- */
static void start(int split, const char* alias) { vp_check(rbus_open(&hp, "p") == 0, "the provider opens"); if (split) { vp_check(rbus_regDataElements(hp, 1, els) == 0 && rbus_regDataElements(hp, 2, els + 1) == 0, "elements register"); } else vp_check(rbus_regDataElements(hp, 3, els) == 0, "elements register"); row_there = 0; if (alias) { vp_check(rbusTable_registerRow(hp, "Device.C.T.", 1, alias) == 0, "a row registers"); row_there = 1; } }
static void client_files(int with3) { vp_file_put("/tmp/.rbus/7_1", "", 0); vp_file_put("/tmp/.rbus/8_2", "", 0); if (with3) vp_file_put("/tmp/.rbus/8_3", "", 0); else { vp_file_put("/tmp/.rbus/8_3", "", 0); int i = vp_file_index("/tmp/.rbus/8_3"); vp_files[i].exists = 0; } }
static int subs_file(void) { for (int i = 0; i < VP_NFILES; i++) if (vp_files[i].exists && strncmp(vp_files[i].name, "/tmp/.rbus/", 11)) return i; return -1; }
static int ends[NS]; /* how much of the file the subscriptions up to this one take */
static void setup(void) { vp_kill_hook = on_kill; int32_t t = 1000 + vp_u8("threshold"); rbusValue_t fv = rbusValue_InitInt32(t); rbusFilter_InitRelation(&flt, RBUS_FILTER_OPERATOR_LESS_THAN, fv); rbusValue_Release(fv); S[1].iv = 1000u + vp_u8("interval"); S[1].du = 2000u + vp_u8("duration"); S[3].iv = 500u + vp_u8("row interval"); S[3].du = 3000u + vp_u8("row duration"); start(0, "a"); int on = (int)vp_param("on", 0); for (int i = 0; i < NS; i++) if (on >> i & 1) { vp_check(foreign(&S[i], 1) == 0, "an event can be subscribed to"); S[i].on = 1; int f = subs_file(); ends[i] = f < 0 ? 0 : (int)vp_files[f].len; } }
static int who_goes; static void leave(const char* box) { rbusHandleList_ClientDisconnect(box); for (int i = 0; i < NS; i++) if (!strcmp(S[i].box, box)) S[i].on = 0; }
static int step(int* what) { int op = (int)vp_choose(3, "operation"); if (op < 2) { int i = (int)vp_choose(NS, "subscription"); *what = i; int rc = foreign(&S[i], op == 0); vp_check(rc == (op == 0 ? (S[i].on ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : 0) : S[i].on ? 0 : RBUS_ERROR_INVALID_INPUT), "a subscription is made once and ended once"); S[i].on = op == 0; } else { who_goes = 7 + (int)vp_choose(2, "client"); *what = -1; leave(who_goes == 7 ? "cli.INBOX.7" : "cli.INBOX.8"); } return op; }
static void finish(void) { for (int i = 0; i < NS; i++) vp_check(foreign(&S[i], 0) == (S[i].on ? 0 : RBUS_ERROR_INVALID_INPUT), "a subscription which was restored can be ended, once"); for (int i = 0; i < NS; i++) S[i].on = 0; told(); vp_check(rbus_close(hp) == 0, "the provider closes"); uint64_t base = vp_heap_live(); start(0, "a"); told(); vp_check(rbus_close(hp) == 0, "the provider closes"); vp_check(vp_heap_live() == base, "a provider that closes leaves no memory"); rbusFilter_Release(flt); }
#endif
