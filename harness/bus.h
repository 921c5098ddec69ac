/* A loopback bus: the real component library (both sides) over a stand-in for the connection to the router.
   Requests are resolved like the router does (object names and element aliases, "{i}" standing for any row) and delivered at once;
   events sent to an inbox of this process reach its default listener, those sent elsewhere are recorded. */
#ifndef VH_BUS_H
#define VH_BUS_H
#include <rbus.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "vh_value.h"
#include "vp_env.h"
#include "env.h"
#include <rtConnection.h>
#include <rtMessage.h>
#include <rtMessageHeader.h>
#include <rbuscore.h>
#include <rbuscore_message.h>
#include <rtm_discovery_api.h>
#include <rtrouteBase.h>
#include <rtRoutingTree.h>
#ifndef BUS_INBOX
#define BUS_INBOX "rbus.INBOX.0"
#endif
enum { BUS_NL = 24, BUS_NR = 16 };
struct bus_listener { int used; char expr[128]; rtMessageCallback cb; void* closure; uint32_t id; };
struct bus_sent { char topic[128], dest[128]; rtMessageHeader hdr; uint8_t* data; uint32_t n; int response; };
struct bus_rsp { int got; uint8_t* data; uint32_t n; uint32_t seq; struct bus_rsp* up; };
static struct bus_listener bus_l[BUS_NL];
static struct bus_sent bus_out[BUS_NR];            /* what was sent to other processes */
static struct bus_rsp* bus_pending;                /* requests being handled, innermost first */
static int bus_nout, bus_fail_requests, bus_fail_at, bus_live_conns, bus_nrequests, bus_live_out;
static rtMessageCallback bus_def; static void* bus_def_closure;
static uint32_t bus_seq; static char bus_conn_obj[8];
static rtRoutingTree bus_tree;                     /* the router's own tree decides who gets a message */
static rtRoutingTree bus_rt(void) { if (!bus_tree) rtRoutingTree_Create(&bus_tree); return bus_tree; }
static int bus_front(rtList l, void** out) { rtListItem it; if (!l) return 0; rtList_GetFront(l, &it); if (!it) return 0; rtListItem_GetData(it, out); return 1; }
static struct bus_listener* bus_named(const char* e) { for (int i = 0; i < BUS_NL; i++) if (bus_l[i].used && !strcmp(bus_l[i].expr, e)) return &bus_l[i]; return NULL; }
static struct bus_listener* bus_find(const char* topic) { rtList l = NULL; rtTreeRoute* r; if (!*topic) return NULL; rtRoutingTree_GetTopicRoutes(bus_rt(), topic, &l); return bus_front(l, (void**)&r) ? (struct bus_listener*)r->route : NULL; }
static void (*bus_answer_hook)(uint8_t** data, uint32_t* n); /* changes an answer on its way */
static int bus_odd_count; static int32_t bus_count_is; static int32_t bus_count(int32_t n) { return bus_odd_count ? bus_count_is : n; } /* the router says another number than it should */
static int bus_refuse_connect, bus_refuse_listen; /* the n-th from now fails */
rtError rtConnection_Create(rtConnection* con, char const* n, char const* c) { (void)n; (void)c; if (bus_refuse_connect && !--bus_refuse_connect) return RT_ERROR; *con = (rtConnection)bus_conn_obj; bus_live_conns++; return RT_OK; }
rtError rtConnection_CreateWithConfig(rtConnection* con, rtMessage const c) { (void)c; if (bus_refuse_connect && !--bus_refuse_connect) return RT_ERROR; *con = (rtConnection)bus_conn_obj; bus_live_conns++; return RT_OK; }
rtError rtConnection_Destroy(rtConnection con) { (void)con; bus_live_conns--; memset(bus_l, 0, sizeof bus_l); if (bus_tree) { rtRoutingTree_Destroy(bus_tree); bus_tree = NULL; } bus_def = NULL; return RT_OK; }
rtError rtConnection_AddListenerWithId(rtConnection con, char const* e, uint32_t id, rtMessageCallback cb, void* cl) { (void)con; if (bus_refuse_listen && !--bus_refuse_listen) return RT_ERROR; for (int i = 0; i < BUS_NL; i++) if (!bus_l[i].used) { bus_l[i].used = 1; snprintf(bus_l[i].expr, sizeof bus_l[i].expr, "%s", e); bus_l[i].cb = cb; bus_l[i].closure = cl; bus_l[i].id = id; rtRoutingTree_AddTopicRoute(bus_rt(), e, &bus_l[i], 0); return RT_OK; } vp_incomplete("too many listeners in the bus model"); return RT_NO_CONNECTION; }
rtError rtConnection_AddListener(rtConnection con, char const* e, rtMessageCallback cb, void* cl) { return rtConnection_AddListenerWithId(con, e, 0, cb, cl); }
static void bus_drop(struct bus_listener* l) { rtRoutingTree_RemoveRoute(bus_rt(), l); l->used = 0; }
rtError rtConnection_RemoveListener(rtConnection con, char const* e) { (void)con; struct bus_listener* l = bus_named(e); if (!l) return RT_ERROR_INVALID_ARG; bus_drop(l); return RT_OK; }
rtError rtConnection_RemoveListenerWithId(rtConnection con, char const* e, uint32_t id) { (void)con; (void)e; for (int i = 0; i < BUS_NL; i++) if (bus_l[i].used && bus_l[i].id == id) { bus_drop(&bus_l[i]); return RT_OK; } return RT_ERROR_INVALID_ARG; }
rtError rtConnection_RemovePrivateListener(rtConnection con, char const* e, uint32_t id) { return rtConnection_RemoveListenerWithId(con, e, id); }
rtError rtConnection_AddAlias(rtConnection con, char const* o, const char* a) { (void)con; struct bus_listener* l = bus_named(o); if (!l) return RT_ERROR_INVALID_ARG; return rtRoutingTree_AddTopicRoute(bus_rt(), a, l, 1); }
rtError rtConnection_RemoveAlias(rtConnection con, char const* o, const char* a) { (void)con; if (!bus_named(o)) return RT_ERROR_INVALID_ARG; rtRoutingTree_RemoveTopic(bus_rt(), a); return RT_OK; }
rtError rtConnection_AddDefaultListener(rtConnection con, rtMessageCallback cb, void* cl) { (void)con; bus_def = cb; bus_def_closure = cl; return RT_OK; }
const char* rtConnection_GetReturnAddress(rtConnection con) { (void)con; return BUS_INBOX; }
static uint8_t* bus_dup(const uint8_t* p, uint32_t n) { uint8_t* c = malloc(n ? n : 1); memcpy(c, p, n); return c; }
static void bus_record(const char* topic, const char* dest, const rtMessageHeader* h, const uint8_t* p, uint32_t n, int rsp) {
  if (bus_nout >= BUS_NR) { vp_incomplete("too many recorded messages in the bus model"); return; }
  struct bus_sent* s = &bus_out[bus_nout++]; snprintf(s->topic, sizeof s->topic, "%s", topic); snprintf(s->dest, sizeof s->dest, "%s", dest ? dest : ""); if (h) s->hdr = *h; s->data = bus_dup(p, n); s->n = n; s->response = rsp; }
enum { BUS_NQ = 16 }; static struct { char topic[128], from[128]; uint8_t* data; uint32_t n; } bus_q[BUS_NQ]; static int bus_nq, bus_queueing, bus_lost; /* events on their way to this process */
static void bus_clear(void) { for (int i = 0; i < bus_nout; i++) free(bus_out[i].data); bus_nout = 0; }
static void bus_deliver_event(const char* topic, const char* from, const uint8_t* p, uint32_t n) { static rtMessageHeader h; rtMessageHeader_Init(&h); snprintf(h.topic, sizeof h.topic, "%s", topic); snprintf(h.reply_topic, sizeof h.reply_topic, "%s", from ? from : ""); h.payload_length = n; if (bus_def) { uint8_t* c = bus_dup(p, n); bus_def(&h, c, n, bus_def_closure); free(c); } }
static void bus_route(const char* topic, const char* from, const uint8_t* p, uint32_t n) { /* what the router does with a message that arrives now */
  if (!strcmp(topic, BUS_INBOX)) { bus_deliver_event(topic, from, p, n); return; }
  struct bus_listener* l = bus_find(topic); if (!l) return; static rtMessageHeader h; rtMessageHeader_Init(&h); snprintf(h.topic, sizeof h.topic, "%s", topic); h.payload_length = n; h.control_data = l->id; uint8_t* c = bus_dup(p, n); l->cb(&h, c, n, l->closure); free(c); }
static int bus_pump(void) { int k = 0; for (int i = 0; i < bus_nq; i++) { bus_route(bus_q[i].topic, bus_q[i].from, bus_q[i].data, bus_q[i].n); free(bus_q[i].data); k++; } bus_nq = 0; return k; }
/* topic: where it goes; from: the object it comes from */
rtError rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, char const* topic, char const* from) {
  (void)con; if (strstr(topic, ".INBOX.") && strcmp(topic, BUS_INBOX)) { bus_record(topic, from, NULL, p, n, 0); return RT_OK; }
  if (!strcmp(topic, BUS_INBOX)) bus_live_out++; else if (!bus_find(topic)) { bus_lost++; return RT_OK; }
  if (!bus_queueing) { bus_route(topic, from, p, n); return RT_OK; }
  if (bus_nq >= BUS_NQ) { vp_incomplete("too many queued events in the bus model"); return RT_OK; } snprintf(bus_q[bus_nq].topic, 128, "%s", topic); snprintf(bus_q[bus_nq].from, 128, "%s", from ? from : ""); bus_q[bus_nq].data = bus_dup(p, n); bus_q[bus_nq++].n = n; return RT_OK; }
rtError rtConnection_SendBinary(rtConnection con, uint8_t const* p, uint32_t n, char const* topic) { return rtConnection_SendBinaryDirect(con, p, n, topic, NULL); }
static int bus_by, bus_deep; static int bus_idle(void* x) { (void)x; return !bus_deep || bus_by == (int)vp_thread_self(); } static void bus_enter(void) { while (!bus_idle(0)) vp_wait_until(bus_idle, 0); bus_by = (int)vp_thread_self(); bus_deep++; } static void bus_leave(void) { bus_deep--; } /* requests are handled one after the other, those made while one is being handled within it */
static rtError bus_request(uint8_t const* p, uint32_t n, char const* topic, char const* reply, uint8_t** r, uint32_t* rn) {
  bus_nrequests++; struct bus_listener* l = bus_find(topic); *r = NULL; *rn = 0;
  if (bus_fail_at && bus_nrequests == bus_fail_at) return RT_ERROR_TIMEOUT;
  if (bus_fail_requests) { bus_fail_requests--; return RT_ERROR_TIMEOUT; }
  if (!l) return RT_OBJECT_NO_LONGER_AVAILABLE;
  rtMessageHeader h; rtMessageHeader_Init(&h); snprintf(h.topic, sizeof h.topic, "%s", topic); snprintf(h.reply_topic, sizeof h.reply_topic, "%s", reply); h.topic_length = (uint32_t)strlen(h.topic); h.reply_topic_length = (uint32_t)strlen(h.reply_topic);
  h.payload_length = n; h.sequence_number = ++bus_seq; h.flags = rtMessageFlags_Request; h.control_data = l->id;
  struct bus_rsp rs = { 0, NULL, 0, h.sequence_number, bus_pending }; bus_pending = &rs; bus_enter(); uint8_t* c = bus_dup(p, n); l->cb(&h, c, n, l->closure); free(c); bus_leave(); for (struct bus_rsp** q = &bus_pending; *q; q = &(*q)->up) if (*q == &rs) { *q = rs.up; break; }
  if (!rs.got) return RT_ERROR_TIMEOUT; if (bus_answer_hook) bus_answer_hook(&rs.data, &rs.n); *r = rs.data; *rn = rs.n; return RT_OK; }
rtError rtConnection_SendBinaryRequest(rtConnection con, uint8_t const* p, uint32_t n, char const* topic, uint8_t** r, uint32_t* rn, uint32_t timeout) { (void)con; (void)timeout; return bus_request(p, n, topic, BUS_INBOX, r, rn); }
rtError rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* h, uint8_t const* p, uint32_t n, uint32_t timeout) { (void)con; (void)timeout; for (struct bus_rsp* s = bus_pending; s; s = s->up) if (s->seq == h->sequence_number) { vp_check(!s->got, "a request is answered once"); s->got = 1; s->data = bus_dup(p, n); s->n = n; return RT_OK; } bus_record(h->reply_topic, "", h, p, n, 1); return RT_OK; }
rtError rtConnection_SendMessage(rtConnection con, rtMessage m, char const* t) { (void)con; (void)m; (void)t; return RT_OK; }
/* discovery, answered by the router on the real bus in this form */
rtError rtConnection_SendRequest(rtConnection con, rtMessage const req, char const* topic, rtMessage* res, uint32_t timeout) {
  (void)con; (void)timeout; rtMessage_Create(res); char const* e = NULL; rtListItem it; size_t n = 0;
  if (!strcmp(topic, RTM_DISCOVER_WILDCARD_DESTINATIONS)) {
    rtList l; rtList_Create(&l); rtMessage_GetString(req, RTM_DISCOVERY_EXPRESSION, &e); rtMessage_SetInt32(*res, RTM_DISCOVERY_RESULT, RT_OK);
    rtRoutingTree_ResolvePartialPath(bus_rt(), e, l); rtList_GetSize(l, &n); rtMessage_SetInt32(*res, RTM_DISCOVERY_COUNT, bus_count((int32_t)n));
    for (rtList_GetFront(l, &it); it; rtListItem_GetNext(it, &it)) { const char* t; rtListItem_GetData(it, (void**)&t); rtMessage_AddString(*res, RTM_DISCOVERY_ITEMS, t); }
    rtList_Destroy(l, NULL);
  } else if (!strcmp(topic, RTM_DISCOVER_OBJECT_ELEMENTS)) {
    rtMessage_GetString(req, RTM_DISCOVERY_EXPRESSION, &e); struct bus_listener* b = bus_named(e); rtList l = NULL; if (b) rtRoutingTree_GetRouteTopics(bus_rt(), b, &l);
    if (l) { rtList_GetSize(l, &n); rtMessage_SetInt32(*res, RTM_DISCOVERY_COUNT, bus_count((int32_t)n)); for (rtList_GetFront(l, &it); it; rtListItem_GetNext(it, &it)) { rtTreeTopic* t; rtListItem_GetData(it, (void**)&t); rtMessage_AddString(*res, RTM_DISCOVERY_ITEMS, t->fullName); } } else rtMessage_SetInt32(*res, RTM_DISCOVERY_COUNT, bus_count(0));
  } else if (!strcmp(topic, RTM_DISCOVER_REGISTERED_COMPONENTS)) {
    int c = 0; for (int i = 0; i < BUS_NL; i++) c += bus_l[i].used && bus_l[i].expr[0] != '_'; rtMessage_SetInt32(*res, RTM_DISCOVERY_COUNT, bus_count(c)); for (int i = 0; i < BUS_NL; i++) if (bus_l[i].used && bus_l[i].expr[0] != '_') rtMessage_AddString(*res, RTM_DISCOVERY_ITEMS, bus_l[i].expr);
  } else if (!strcmp(topic, RTM_DISCOVER_ELEMENT_OBJECTS)) {
    int32_t len = 0; rtMessage_GetInt32(req, RTM_DISCOVERY_COUNT, &len); rtMessage_SetInt32(*res, RTM_DISCOVERY_RESULT, RT_OK);
    for (int i = 0; i < len; i++) { if (rtMessage_GetStringItem(req, RTM_DISCOVERY_ITEMS, i, &e) != RT_OK || !e) { rtMessage_Release(*res); rtMessage_Create(res); rtMessage_SetInt32(*res, RTM_DISCOVERY_RESULT, RT_ERROR); break; }
      rtList l = NULL; if (*e) rtRoutingTree_GetTopicRoutes(bus_rt(), e, &l); n = 0; if (l) { rtList_GetSize(l, &n); rtMessage_SetInt32(*res, RTM_DISCOVERY_COUNT, bus_count((int32_t)n)); for (rtList_GetFront(l, &it); it; rtListItem_GetNext(it, &it)) { rtTreeRoute* r; rtListItem_GetData(it, (void**)&r); rtMessage_AddString(*res, RTM_DISCOVERY_ITEMS, ((struct bus_listener*)r->route)->expr); } }
      if (!n) rtMessage_SetInt32(*res, RTM_DISCOVERY_COUNT, bus_count(0)); }
  } else return RT_ERROR;
  return RT_OK; }
rtError rtConnection_SendResponse(rtConnection con, rtMessageHeader const* h, rtMessage const res, int32_t t) { (void)con; (void)h; (void)res; (void)t; return RT_OK; }
/* direct connections are outside this model */
rtError rtRouteDirect_StartInstance(const char* a, rtDriectClientHandler m) { (void)a; (void)m; return 0; }
rtError rtRouteDirect_SendMessage(const rtPrivateClientInfo* c, uint8_t const* p, int n, uint32_t id, bool raw) { (void)c; (void)p; (void)n; (void)id; (void)raw; return RT_ERROR; }
const char* rtStrError(rtError e) { (void)e; return "error"; } rtError rtErrorFromErrno(int e) { return RT_ERROR + 0 * e; }
/* a request from another process: topic, method name and payload; the answer is left in bus_out */
void rbusMessage_BeginMetaSectionWrite(rbusMessage); void rbusMessage_EndMetaSectionWrite(rbusMessage); void rbusMessage_BeginMetaSectionRead(rbusMessage); void rbusMessage_EndMetaSectionRead(rbusMessage);
static rtError bus_call(const char* topic, const char* method, const char* reply, rbusMessage m, rbusMessage* answer) { rbusMessage_BeginMetaSectionWrite(m); rbusMessage_SetString(m, method); rbusMessage_SetString(m, ""); rbusMessage_SetString(m, ""); rbusMessage_EndMetaSectionWrite(m); uint8_t* p; uint32_t n; rbusMessage_ToBytes(m, &p, &n); uint8_t* r; uint32_t rn; rtError e = bus_request(p, n, topic, reply, &r, &rn); if (answer) *answer = NULL; if (e == RT_OK) { if (answer) rbusMessage_FromBytes(answer, r, rn); free(r); } return e; }
#endif
