/* Whatever a component is sent, it stands: requests to a provider whose fields, bytes or length are not what they should be. */
#define BUS_INBOX "rbus.req.INBOX.100"
#include "bus.h"
static rbusHandle_t hp, hc; static int32_t val; static int calls, rowp; static int sawnull, refusing; static uint64_t most;
enum { NM = 300 }; static char longname[NM + 1], longid[NM + 1];
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)o; if (most && vp_heap_live() > most) vp_error("a small request makes a component use much memory"); if (h != hp || !rbusProperty_GetName(p)) sawnull = 1; rbusValue_t v = rbusValue_InitInt32(val); rbusProperty_SetValue(p, v); rbusValue_Release(v); return 0; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)o; if (h != hp || !rbusProperty_GetName(p)) sawnull = 1; rbusValue_t v = rbusProperty_GetValue(p); if (!v) { sawnull = 1; return RBUS_ERROR_INVALID_INPUT; } if (rbusValue_GetType(v) != RBUS_INT32) return RBUS_ERROR_INVALID_INPUT; val = rbusValue_GetInt32(v); return 0; }
static rbusError_t on_add(rbusHandle_t h, char const* t, char const* alias, uint32_t* n) { (void)alias; if (h != hp || !t) sawnull = 1; *n = (uint32_t)++rowp; return 0; }
static rbusError_t on_remove(rbusHandle_t h, char const* row) { if (h != hp || !row) sawnull = 1; return 0; }
static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t interval, bool* autop) { (void)f; (void)interval; if (h != hp || !n) sawnull = 1; *autop = false; return refusing && a == RBUS_EVENT_ACTION_SUBSCRIBE ? RBUS_ERROR_ACCESS_NOT_ALLOWED : 0; }
static rbusError_t on_call(rbusHandle_t h, const char* n, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t a) { (void)in; (void)a; if (h != hp || !n) sawnull = 1; calls++; rbusValue_t v = rbusValue_InitInt32(val); rbusObject_SetValue(out, "r", v); rbusValue_Release(v); return 0; }
static rbusDataElement_t els[] = { { "Device.R.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, 0, 0, 0, 0 } }, { "Device.R.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { 0, 0, on_add, on_remove, 0, 0 } }, { "Device.R.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, 0, 0, 0, 0 } }, { "Device.R.E!", RBUS_ELEMENT_TYPE_EVENT, { 0, 0, 0, 0, on_sub, 0 } }, { "Device.R.M()", RBUS_ELEMENT_TYPE_METHOD, { 0, 0, 0, 0, 0, on_call } } };
static int alive(pid_t p, int sig) { (void)sig; return p == 100 ? 0 : -1; }
static int nev, nch, niv; static void on_change(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { (void)h; (void)e; if (s->interval) niv++; else nch++; }
 static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { (void)h; (void)e; (void)s; nev++; }
static void begin(void) { val = 1000; rowp = 1; vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_regDataElements(hp, 5, els) == 0 && rbusTable_registerRow(hp, "Device.R.T.", 1, "al") == 0 && rbusEvent_Subscribe(hc, "Device.R.E!", on_event, NULL, 0) == 0, "a provider and a consumer start"); rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = "Device.R.A"; x.interval = 5; x.handler = on_change; vp_check(rbusEvent_Subscribe(hc, "Device.R.A", on_change, NULL, 0) == 0, "changes can be subscribed to"); vp_run_others(); vp_check(rbusEvent_Subscribe(hc, "Device.R.T.*.P", on_change, NULL, 0) == 0, "changes can be subscribed to"); vp_run_others(); vp_check(rbusEvent_SubscribeEx(hc, &x, 1, 0) == 0, "values can be subscribed to"); vp_run_others(); }
static void probe(void) { /* everything still works */
  rbusValue_t v = rbusValue_InitInt32(1234); int ok = rbus_set(hc, "Device.R.A", v, NULL) == 0 && val == 1234; rbusValue_Release(v); v = NULL; ok &= rbus_get(hc, "Device.R.A", &v) == 0 && v && rbusValue_GetInt32(v) == 1234; if (v) rbusValue_Release(v); int c0 = calls; rbusObject_t o = NULL; ok &= rbusMethod_Invoke(hc, "Device.R.M()", NULL, &o) == 0 && calls == c0 + 1; if (o) rbusObject_Release(o);
  int e0 = nev; rbusEvent_t e = { "Device.R.E!", RBUS_EVENT_GENERAL, NULL }; rbusObject_Init(&e.data, NULL); rbusEvent_Publish(hp, &e); rbusObject_Release(e.data); bus_pump(); ok &= nev == e0 + 1; vp_check(ok, "a component goes on working"); vp_check(!sawnull, "a handler is never called without a name or a value"); bus_clear(); }
enum { GET, SET, NAMES, ADD, DEL, SUB, UNSUB, RPC, OPEND, CLOSED, WILD, COMMIT, ATTR, NKIND };
static void end(void) { vp_run_others(); if (vp_param("kind", 0) == OPEND || vp_param("kind", 0) == CLOSED) for (int i = 0; i < 4; i++) { vp_fire_timeouts(); vp_run_others(); } rbus_close(hc); vp_run_others(); rbus_close(hp); vp_run_others(); bus_clear(); }
/* ---- the fields of a request, one of them altered ---- */
static const struct { const char *method, *topic; } kd[NKIND] = { { METHOD_GETPARAMETERVALUES, "Device.R.A" }, { METHOD_SETPARAMETERVALUES, "Device.R.A" }, { METHOD_GETPARAMETERNAMES, "Device.R.T." }, { METHOD_ADDTBLROW, "Device.R.T." }, { METHOD_DELETETBLROW, "Device.R.T.1" }, { METHOD_SUBSCRIBE, "Device.R.E!" }, { METHOD_UNSUBSCRIBE, "Device.R.E!" }, { METHOD_RPC, "Device.R.M()" }, { METHOD_OPENDIRECT_CONN, "Device.R.A" }, { METHOD_CLOSEDIRECT_CONN, "Device.R.A" }, { METHOD_GETPARAMETERVALUES, "Device.R.A" }, { METHOD_COMMIT, "Device.R.A" }, { METHOD_GETPARAMETERATTRIBUTES, "Device.R.A" } };
static uint8_t oddnum; static int at, alt, field, stopped;
static const char* strs[] = { "Device.R.A", "", ".", "Device.", "Device.R.T.1.P", "Device.R.T.", "Device.R.T.[al].P", "Device.R.T.*.P", "Device.R.T.{i}.P", "*", "Device.R.T.1", "Device.R.E!", "Device.R.M()", "nobody", "Device.R.A.B", "Device..A", "[", "Device.R.T.[", "tcp://127.0.0.1:10001", "tcp:", "unix", longname, longid };
enum { NS = sizeof strs / sizeof *strs, NI = 8 };
static int32_t oddint(int k) { switch (k) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return -1; case 4: return 0x7fffffff; case 5: return -0x7fffffff - 1; case 6: return 50000; default: return 20 + (int32_t)oddnum; } }
/* alternatives of a field: 0 it and all after it are missing; 1 it is of another kind; 2.. another value */
static void I(rbusMessage m, int32_t v) { if (stopped) return; if (field++ == at) { if (alt == 0) { stopped = 1; return; } if (alt == 1) { rbusMessage_SetString(m, "Device.R.A"); return; } vp_assume(alt < 2 + NI); v = oddint(alt - 2); } rbusMessage_SetInt32(m, v); }
static void S(rbusMessage m, const char* v) { if (stopped) return; if (field++ == at) { if (alt == 0) { stopped = 1; return; } if (alt == 1) { rbusMessage_SetInt32(m, 1); return; } vp_assume(alt < 2 + NS); v = strs[alt - 2]; } rbusMessage_SetString(m, v); }
static void B(rbusMessage m, const void* p, int n) { if (stopped) return; if (field++ == at) { if (alt == 0) { stopped = 1; return; } if (alt == 1) { rbusMessage_SetInt32(m, 1); return; } vp_assume(alt < 2 + 6); n = alt - 2; } rbusMessage_SetBytes(m, p, (uint32_t)n); }
static const int32_t forty = 1040; static const uint8_t eight[8] = { 1, 0, 0, 0, 2, 0, 0, 0 };
static rbusMessage build(int k) {
  rbusMessage m, pl; rbusMessage_Init(&m); field = stopped = 0;
  switch (k) {
  case GET: S(m, "other"); I(m, 2); S(m, "Device.R.A"); S(m, "Device.R.T.1.P"); break;
  case WILD: S(m, "other"); I(m, 1); S(m, "Device.R.T."); break;
  case SET: I(m, 0); S(m, "other"); I(m, 1); I(m, 2); S(m, "Device.R.A"); I(m, RBUS_INT32); I(m, 1040); S(m, "Device.R.T.1.P"); I(m, RBUS_INT32); I(m, 1041); S(m, "TRUE"); break;
  case NAMES: S(m, "Device.R.T."); I(m, -1); I(m, (int)vp_param("rows", 0)); break;
  case ADD: I(m, 0); S(m, "Device.R.T."); S(m, "ba"); break;
  case DEL: I(m, 0); S(m, "Device.R.T.1"); break;
  case SUB: case UNSUB: S(m, "Device.R.E!"); S(m, "cli.INBOX.7"); I(m, 1); rbusMessage_Init(&pl); I(pl, 7); I(pl, 0); I(pl, 0); I(pl, (int)vp_param("filter", 0)); if (vp_param("filter", 0)) { I(pl, 0); I(pl, 0); S(pl, "filter"); I(pl, RBUS_INT32); I(pl, 1040); } if (!stopped || field > 3) rbusMessage_SetMessage(m, pl); rbusMessage_Release(pl); if (field > 3) stopped = 0; I(m, (int)vp_param("publish", 0)); I(m, 0); break;
  case RPC: I(m, 0); S(m, "Device.R.M()"); I(m, 1); S(m, "o"); I(m, 0); I(m, 2); S(m, "one"); I(m, RBUS_INT32); I(m, 1040); S(m, "two"); I(m, RBUS_BYTES); B(m, eight, 3); I(m, 1); S(m, "kid"); I(m, 0); I(m, 0); I(m, 0); break;
  case OPEND: S(m, "cons"); I(m, 99); S(m, "Device.R.A"); S(m, vp_param("tcp", 0) ? "tcp://127.0.0.1:10001" : "unix:///tmp/rtrouted"); break;
  case CLOSED: S(m, "cons"); S(m, "Device.R.A"); break;
  default: I(m, 0); S(m, "Device.R.A"); break; }
  return m; }
static int answered(int k, const uint8_t* r, uint32_t n) { rbusMessage a = NULL; int32_t rc = 0; (void)k; if (!r) return 0; rbusMessage_FromBytes(&a, r, n); int ok = rbusMessage_GetInt32(a, &rc) == RT_OK; rbusMessage_Release(a); return ok; }
static uint8_t odd_byte; static int pos = -1; static uint32_t cut;
static void deliver(int k, int odd) { int a = at, f; if (!odd) at = -1; rbusMessage m = build(k); f = field; at = a; if (odd && at >= f) { rbusMessage_Release(m); vp_end_path(); }
  rbusMessage_BeginMetaSectionWrite(m); rbusMessage_SetString(m, kd[k].method); rbusMessage_SetString(m, ""); rbusMessage_SetString(m, ""); rbusMessage_EndMetaSectionWrite(m); uint8_t *p, *q, *r; uint32_t n, rn; rbusMessage_ToBytes(m, &p, &n); int t = odd && (pos >= 0 || cut); if (t && (cut > n || pos >= (int)n)) vp_end_path(); if (odd && cut) n = cut; q = malloc(n ? n : 1); memcpy(q, p, n); if (odd && pos >= 0) q[pos] = odd_byte;
  refusing = odd && vp_param("refuse", 0); rtError e = bus_request(q, n, kd[k].topic, "cli.INBOX.7", &r, &rn); refusing = 0; free(q); rbusMessage_Release(m); if (!t) vp_check(e == RT_OK && answered(k, r, rn), "a request is answered, with its result"); free(r); }
static void cycle(int odd, int idle) { int k = (int)vp_param("kind", 0); begin(); most = vp_heap_live() + 40000; if (k == UNSUB) deliver(SUB, 0); deliver(k, odd); probe(); if (idle) { vp_fire_timeouts(); vp_run_others(); vp_fire_timeouts(); vp_run_others(); bus_pump(); probe(); } end(); most = 0; }
int main(void) { memset(longname, 'n', NM); memcpy(longname, "Device.", 7); longname[NM] = 0; memset(longid, '[', NM); longid[NM] = 0; vp_kill_hook = alive; vp_in_order = 1; vp_one_order = 1; at = -1; uint32_t n = (uint32_t)vp_param("n", 16); int lo = (int)vp_param("lo", 0); cycle(0, 1);
  switch (vp_param("scen", 0)) { case 0: at = lo + (int)vp_choose(n, "field"); alt = (int)vp_choose(2 + NS, "instead"); oddnum = vp_u8("number") & 15; break; case 1: pos = lo + (int)vp_choose(n, "position"); odd_byte = vp_u8("byte"); break; case 2: cut = 1 + vp_choose(n, "cut"); break; }
  cycle(1, 0); uint64_t base = vp_heap_live(); cycle(1, 1); vp_check(vp_heap_live() == base, "nothing of it is left behind"); vp_reach("an odd request is handled"); return 0; }
