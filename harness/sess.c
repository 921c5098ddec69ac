/* Sessions: the real session manager and the calls of its clients. */
#define BUS_INBOX "rbus.ses.INBOX.100"
#include "bus.h"
#include <rtLog.h>
static void serve(void); static int pause_stub(void) { serve(); return -1; } static int nothing(const char* f, ...) { (void)f; return 0; }
#define main manager_main
#define pause pause_stub
#define printf nothing
#include "../session_manager/session_manager.c"
#undef main
#undef pause
#undef printf
static rbusHandle_t h[2]; static uint32_t cur; static int told, toldbad; static int on;
static void on_signal(rbusHandle_t hh, rbusEvent_t const* e, rbusEventSubscription_t* s) { (void)hh; (void)s; rbusValue_t v = rbusObject_GetValue(e->data, "sessionid"), r = rbusObject_GetValue(e->data, "return_value"); told++; if (!v || !r || rbusValue_GetType(v) != RBUS_INT32 || rbusValue_GetInt32(r) != 0) toldbad = 1; else cur = (uint32_t)rbusValue_GetInt32(v); }
static uint32_t known; static int ended; static uint32_t expect;
static void told_once(void) { bus_pump(); vp_check(told == 1 && !toldbad && cur == expect, "the session is told once after each beginning and end"); told = 0; }
static rbusObject_t odd(int k) { rbusObject_t o; rbusObject_Init(&o, NULL); rbusValue_t v; rbusProperty_t p; switch (k) { case 0: break; case 1: v = rbusValue_InitString("1"); rbusObject_SetValue(o, "session", v); rbusValue_Release(v); break; case 2: rbusProperty_Init(&p, "session", NULL); rbusObject_SetProperty(o, p); rbusProperty_Release(p); break; case 3: v = rbusValue_InitInt64(1); rbusObject_SetValue(o, "session", v); rbusValue_Release(v); break; default: v = rbusValue_InitInt32(0); rbusObject_SetValue(o, "session", v); rbusValue_Release(v); } return o; }
static void step(void) { int who = (int)vp_choose(2, "who"); uint32_t id = 77; rbusError_t r;
  switch (vp_choose(5, "operation")) {
  case 0: r = rbus_createSession(h[who], &id); if (!expect) { vp_check(r == 0 && id != 0, "a session begins if there is none"); expect = id; } else vp_check(r == RBUS_ERROR_SESSION_ALREADY_EXIST && id == 0, "no session begins while there is one"); told_once(); break;
  case 1: r = rbus_getCurrentSession(h[who], &id); vp_check(r == 0 && id == expect, "the session is told who asks"); vp_check(told == 0, "asking changes nothing"); break;
  case 2: id = expect; r = rbus_closeSession(h[who], id); vp_check(r == 0, "the session ends"); expect = 0; if (id) told_once(); break;
  case 3: id = (uint32_t)vp_u8("a") << 24 | vp_u8("b") << 8 | vp_u8("c"); vp_assume(id != expect && id != 0); r = rbus_closeSession(h[who], id); vp_check(r == RBUS_ERROR_SESSION_ALREADY_EXIST, "another session cannot be ended"); told_once(); break;
  default: { rbusObject_t in = odd((int)vp_choose(5, "parameters")), out = NULL; r = rbusMethod_Invoke(h[who], RBUS_SMGR_METHOD_END_SESSION, in, &out); rbusValue_t v = out ? rbusObject_GetValue(out, "result") : NULL; vp_check(r != 0 || (v && rbusValue_GetType(v) == RBUS_INT32 && rbusValue_GetInt32(v) != 0), "a malformed end is refused"); rbusObject_Release(in); if (out) rbusObject_Release(out); bus_pump(); vp_check(!toldbad && (!told || cur == expect), "a malformed end changes nothing"); told = 0; }
  } }
static void serve(void) { expect = 0; told = toldbad = 0;
  vp_check(rbus_open(&h[0], "c0") == 0 && rbus_open(&h[1], "c1") == 0 && rbusEvent_Subscribe(h[0], CCSP_CURRENT_SESSION_ID_SIGNAL, on_signal, NULL, 0) == 0, "clients start"); bus_clear();
  if (on) for (uint32_t i = 0; i < vp_param("ops", 3); i++) step();
  if (expect) { vp_check(rbus_closeSession(h[1], expect) == 0, "the session ends"); expect = 0; told_once(); }
  uint32_t id = 5; vp_check(rbus_getCurrentSession(h[1], &id) == 0 && id == 0, "there is no session at the end"); id = 5; vp_check(rbus_createSession(NULL, &id) != 0 && rbus_createSession(h[0], NULL) != 0 && rbus_getCurrentSession(h[0], NULL) != 0 && rbus_closeSession(NULL, 1) != 0, "what is no question is refused"); vp_check(rbusEvent_Unsubscribe(h[0], CCSP_CURRENT_SESSION_ID_SIGNAL) == 0, "a subscription ends"); rbus_close(h[0]); rbus_close(h[1]); vp_run_others(); bus_clear(); }
/* ---- answers of a manager which is another program ---- */
static int shape; static int32_t first, second;
static rbusError_t answer(rbusHandle_t hh, char const* m, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t a) { (void)hh; (void)m; (void)in; (void)a; rbusValue_t v; int s[2] = { shape % 4, shape / 4 % 4 }; for (int i = 0; i < 2; i++) { if (!s[i]) continue; if (s[i] == 3) { rbusProperty_t p; rbusProperty_Init(&p, i ? "sessionid" : "return_value", NULL); rbusObject_SetProperty(out, p); rbusProperty_Release(p); continue; } v = s[i] == 1 ? rbusValue_InitInt32(i ? second : first) : rbusValue_InitString("x"); rbusObject_SetValue(out, i ? "sessionid" : "return_value", v); rbusValue_Release(v); } return shape >= 16 ? RBUS_ERROR_BUS_ERROR : 0; }
static void other(void) { static rbusDataElement_t e[] = { { RBUS_SMGR_METHOD_GET_CURRENT_SESSION_ID, RBUS_ELEMENT_TYPE_METHOD, { 0, 0, 0, 0, 0, answer } }, { RBUS_SMGR_METHOD_REQUEST_SESSION_ID, RBUS_ELEMENT_TYPE_METHOD, { 0, 0, 0, 0, 0, answer } }, { RBUS_SMGR_METHOD_END_SESSION, RBUS_ELEMENT_TYPE_METHOD, { 0, 0, 0, 0, 0, answer } } };
  rbusHandle_t m; uint32_t id = 5; vp_check(rbus_open(&m, "mgr") == 0 && rbus_open(&h[0], "c0") == 0 && (!on || rbus_regDataElements(m, 3, e) == 0), "another manager starts");
  int ok2 = shape % 16 == 5, no = !on || shape >= 16; rbusError_t r = rbus_createSession(h[0], &id); vp_check((r == 0) == (!no && ok2 && first == 0) && id == (r == 0 ? (uint32_t)second : 0), "a session begins only if the manager says so"); id = 5; r = rbus_getCurrentSession(h[0], &id); vp_check((r == 0) == (!no && ok2 && first == 0) && id == (r == 0 ? (uint32_t)second : 0), "a session is told only if the manager says so"); r = rbus_closeSession(h[0], 9); vp_check((r == 0) == (!no && shape % 4 == 1 && first == 0), "a session ends only if the manager says so");
  rbus_close(h[0]); rbus_close(m); vp_run_others(); bus_clear(); }
int main(void) { vp_in_order = 1; if (vp_param("scen", 0) == 0) { on = 0; char* v[] = { "m", NULL }; vp_check(manager_main(1, v) == 0, "the manager ends"); vp_run_others(); bus_clear(); uint64_t base = vp_heap_live(); on = 1; vp_check(manager_main(1, v) == 0, "the manager ends"); vp_run_others(); bus_clear(); vp_check(vp_heap_live() == base, "nothing is left behind"); return 0; }
  shape = 5; on = 1; first = 0; second = 1; other(); uint64_t base = vp_heap_live(); on = vp_choose(8, "nobody") != 0; shape = (int)vp_choose(32, "shape"); vp_assume(shape % 4 || shape / 4 % 4 == 0); first = (int32_t)vp_u8("first"); second = (int32_t)(vp_u8("second") & 127); other(); vp_check(vp_heap_live() == base, "nothing is left behind"); return 0; }
