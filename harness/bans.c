/* Whatever a component is answered or told, it stands: answers to its requests and events to it that are not what they should be. */
#define BUS_INBOX "rbus.ans.INBOX.100"
#include "bus.h"
static rbusHandle_t hp, hc; static int32_t val; static int rowp;
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)h; (void)o; rbusValue_t v = rbusValue_InitInt32(val); rbusProperty_SetValue(p, v); rbusValue_Release(v); return 0; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)h; (void)o; rbusValue_t v = rbusProperty_GetValue(p); if (!v || rbusValue_GetType(v) != RBUS_INT32) return RBUS_ERROR_INVALID_INPUT; val = rbusValue_GetInt32(v); return 0; }
static rbusError_t on_add(rbusHandle_t h, char const* t, char const* alias, uint32_t* n) { (void)h; (void)t; (void)alias; *n = (uint32_t)++rowp; return 0; }
static rbusError_t on_remove(rbusHandle_t h, char const* row) { (void)h; (void)row; return 0; }
static rbusError_t on_sub(rbusHandle_t h, rbusEventSubAction_t a, const char* n, rbusFilter_t f, int32_t interval, bool* autop) { (void)h; (void)a; (void)n; (void)f; (void)interval; *autop = false; return 0; }
static rbusError_t on_call(rbusHandle_t h, const char* n, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t a) { (void)h; (void)n; (void)in; (void)a; rbusValue_t v = rbusValue_InitInt32(val); rbusObject_SetValue(out, "r", v); rbusValue_Release(v); rbusObject_t c; rbusObject_Init(&c, "kid"); rbusObject_SetChildren(out, c); rbusObject_Release(c); return 0; }
static rbusDataElement_t els[] = { { "Device.R.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, 0, 0, 0, 0 } }, { "Device.R.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { 0, 0, on_add, on_remove, 0, 0 } }, { "Device.R.T.{i}.P", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, 0, 0, 0, 0 } }, { "Device.R.E!", RBUS_ELEMENT_TYPE_EVENT, { 0, 0, 0, 0, on_sub, 0 } }, { "Device.R.M()", RBUS_ELEMENT_TYPE_METHOD, { 0, 0, 0, 0, 0, on_call } } };
static int alive(pid_t p, int sig) { (void)sig; return p == 100 ? 0 : -1; }
/* reading all of what is handed out */
static void read_value(rbusValue_t v) { if (!v) return; char* s = rbusValue_ToString(v, NULL, 0); if (s) free(s); }
static void read_object(rbusObject_t o, int d); static void read_props(rbusProperty_t p) { for (int i = 0; p && i < 8; i++, p = rbusProperty_GetNext(p)) { if (rbusProperty_GetName(p)) (void)strlen(rbusProperty_GetName(p)); read_value(rbusProperty_GetValue(p)); } }
static void read_object(rbusObject_t o, int d) { if (!o || d > 4) return; if (rbusObject_GetName(o)) (void)strlen(rbusObject_GetName(o)); read_props(rbusObject_GetProperties(o)); for (rbusObject_t c = rbusObject_GetChildren(o); c; c = rbusObject_GetNext(c)) read_object(c, d + 1); }
static int nev; static void on_event(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { if (h != hc || !s || !e || !e->name) { vp_error("an event handler is called without an event"); return; } (void)strlen(e->name); if (strcmp(s->eventName, "Device.R.E!") && strcmp(s->eventName, "Device.R.A")) vp_error("an event handler is called for no subscription of its own"); read_object(e->data, 0); nev++; }
static void begin(void) { val = 1000; rowp = 1; nev = 0; vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_regDataElements(hp, 5, els) == 0 && rbusTable_registerRow(hp, "Device.R.T.", 1, "al") == 0, "a provider and a consumer start"); }
static void end(void) { vp_run_others(); rbus_close(hc); vp_run_others(); rbus_close(hp); vp_run_others(); bus_clear(); }
static void sub(int on) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = "Device.R.E!"; x.handler = on_event; if (on) rbusEvent_SubscribeEx(hc, &x, 1, 0); else rbusEvent_UnsubscribeEx(hc, &x, 1); vp_run_others(); }
static void publish(void) { rbusEvent_t e = { "Device.R.E!", RBUS_EVENT_GENERAL, NULL }; rbusObject_Init(&e.data, NULL); rbusValue_t v = rbusValue_InitInt32(val); rbusObject_SetValue(e.data, "v", v); rbusValue_Release(v); rbusEvent_Publish(hp, &e); rbusObject_Release(e.data); }
enum { GET, EXT2, WILD, SET, MULTI, INVOKE, ADD, REMOVE, ROWS, INFO, SUB, UNSUB, TYPED, SUBNOW, CREATE, COMP, NOP };
static void op(int k) {
  rbusValue_t v = NULL; rbusProperty_t p = NULL, q = NULL; int n = 0; int rc;
  switch (k) {
  case GET: rc = rbus_get(hc, "Device.R.A", &v); if (rc == 0) { vp_check(v != NULL, "what succeeds yields a result"); read_value(v); rbusValue_Release(v); } else vp_check(v == NULL, "what fails yields nothing"); break;
  case EXT2: case WILD: { const char* a[2] = { k == WILD ? "Device.R.T." : "Device.R.A", "Device.R.T.1.P" }; rc = rbus_getExt(hc, k == WILD ? 1 : 2, a, &n, &p); if (rc == 0) { read_props(p); int c = 0; for (q = p; q && c < 100; q = rbusProperty_GetNext(q)) c++; vp_check(c == n, "as many values are returned as said"); } if (p) rbusProperty_Release(p); break; }
  case SET: v = rbusValue_InitInt32(1040); rc = rbus_set(hc, "Device.R.A", v, NULL); rbusValue_Release(v); break;
  case MULTI: v = rbusValue_InitInt32(1040); rbusProperty_Init(&p, "Device.R.A", v); rbusProperty_Init(&q, "Device.R.T.1.P", v); rbusValue_Release(v); rbusProperty_SetNext(p, q); rbusProperty_Release(q); rc = rbus_setMulti(hc, 2, p, NULL); rbusProperty_Release(p); break;
  case INVOKE: { rbusObject_t in, out = NULL; rbusObject_Init(&in, NULL); rc = rbusMethod_Invoke(hc, "Device.R.M()", in, &out); rbusObject_Release(in); if (out) { read_object(out, 0); rbusObject_Release(out); } break; }
  case ADD: { uint32_t i = 0; rc = rbusTable_addRow(hc, "Device.R.T.", "ba", &i); break; }
  case REMOVE: rc = rbusTable_removeRow(hc, "Device.R.T.1"); break;
  case ROWS: { rbusRowName_t* rows = NULL; rc = rbusTable_getRowNames(hc, "Device.R.T.", &rows); if (rc == 0) { int c = 0; for (rbusRowName_t* r = rows; r && c < 100; r = r->next, c++) { (void)strlen(r->name); if (r->alias) (void)strlen(r->alias); } rbusTable_freeRowNames(hc, rows); } break; }
  case INFO: { rbusElementInfo_t* e = NULL; rc = rbusElementInfo_get(hc, "Device.R.", -1, &e); if (rc == 0) { int c = 0; for (rbusElementInfo_t* r = e; r && c < 100; r = r->next, c++) { if (r->name) (void)strlen(r->name); if (r->component) (void)strlen(r->component); } } if (e) rbusElementInfo_free(hc, e); break; }
  case SUB: sub(1); publish(); bus_pump(); break;
  case UNSUB: sub(1); bus_odd_count = 0; sub(0); publish(); bus_pump(); break;
  case SUBNOW: { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = "Device.R.A"; x.handler = on_event; x.publishOnSubscribe = true; rbusEvent_SubscribeEx(hc, &x, 1, 0); vp_run_others(); break; }
  case TYPED: { int i; char* s = NULL; rbus_getInt(hc, "Device.R.A", &i); if (rbus_getStr(hc, "Device.R.A", &s) == 0 && s) { (void)strlen(s); free(s); } break; }
  case CREATE: { uint32_t id = 0; rbus_createSession(hc, &id); rbus_closeSession(hc, id); break; }
  case COMP: { int c = 0; char** names = NULL; const char* a[1] = { "Device.R.A" }; if (rbus_discoverComponentName(hc, 1, a, &c, &names) == 0 && names) { for (int i = 0; i < c; i++) { (void)strlen(names[i]); free(names[i]); } free(names); } c = 0; names = NULL; if (rbus_discoverComponentDataElements(hc, "p", false, &c, &names) == 0 && names) { for (int i = 0; i < c; i++) { (void)strlen(names[i]); free(names[i]); } free(names); } break; } } }
static void probe(void) { rbusValue_t v = rbusValue_InitInt32(1234); int ok = rbus_set(hc, "Device.R.A", v, NULL) == 0 && val == 1234; rbusValue_Release(v); v = NULL; ok &= rbus_get(hc, "Device.R.A", &v) == 0 && v && rbusValue_GetInt32(v) == 1234; if (v) rbusValue_Release(v); rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = "Device.R.E!"; x.handler = on_event; x.interval = 0; rbusEvent_SubscribeEx(hc, &x, 1, 0); vp_run_others(); int e0 = nev; publish(); bus_pump(); ok &= nev == e0 + 1; vp_check(ok, "a component goes on working"); }
static int odd, pos = -1, which, seen; static uint32_t cut; static uint8_t odd_byte;
static void change(uint8_t** d, uint32_t* n) { if (seen++ != which) return; if (pos >= 0) { if ((uint32_t)pos >= *n) vp_end_path(); (*d)[pos] = odd_byte; } else { if (cut > *n) vp_end_path(); uint8_t* c = malloc(cut); memcpy(c, *d, cut); free(*d); *d = c; *n = cut; } odd = 1; }
static void cycle(int k, int how) { begin(); seen = 0; if (how == 1) bus_answer_hook = change; if (how == 2) { bus_odd_count = 1; odd = 1; }
  if (how == 3) { sub(1); publish(); for (int i = 0; i < bus_nq; i++) change(&bus_q[i].data, &bus_q[i].n); bus_pump(); } else op(k);
  bus_answer_hook = NULL; bus_odd_count = 0; bus_pump(); probe(); end(); }
int main(void) { vp_kill_hook = alive; vp_in_order = 1; vp_one_order = 1; bus_queueing = 1; int k = (int)vp_param("op", 0), how = 1; uint32_t n = (uint32_t)vp_param("n", 16); int lo = (int)vp_param("lo", 0); which = (int)vp_param("which", 0); cycle(k, 0); vp_check(!odd, "nothing odd is sent at first");
  switch (vp_param("scen", 0)) { case 0: pos = lo + (int)vp_choose(n, "position"); odd_byte = vp_u8("byte"); break; case 1: cut = 1 + vp_choose(n, "cut"); break; case 2: { static const int32_t cs[6] = { 0, 1, 2, 3, -1, 1000 }; how = 2; bus_count_is = cs[vp_choose(6, "count")]; break; }
    case 3: how = 3; pos = lo + (int)vp_choose(n, "position"); odd_byte = vp_u8("byte"); break; case 4: how = 3; cut = 1 + vp_choose(n, "cut"); break; }
  cycle(k, how); if (!odd) vp_end_path(); uint64_t base = vp_heap_live(); odd = 0; cycle(k, how); vp_check(vp_heap_live() == base, "nothing of it is left behind"); vp_reach("an odd answer is taken"); return 0; }
