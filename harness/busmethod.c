/* Calling methods: parameters, results, names, asynchronous responses and calls. */
#include "bus.h"
rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg); void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg); /* the wire form of an object */
enum { NAMELEN = 40 };
static rbusHandle_t hp, hc; static int calls, wrong; static char seen_name[64];
/* what an object is made of: up to two properties, and a child with one */
struct spec { int null, nprop, child; struct raw v[2], cv; int quiet; };
static struct spec in, out; static int result, in_ok, early, answered_early; static rbusMethodAsyncHandle_t held[3]; static int nheld;
static int some_error(void) { int e = (int)vp_range("error", 1, 28); vp_assume(e != RBUS_ERROR_ASYNC_RESPONSE); return e; }
static void mk_any(struct raw* r) { mk_raw(r, (int)vp_choose(K_N, "type"), 0, 2); if (r->k == K_F32) vp_assume(((r->n & 0x7f800000u) != 0x7f800000u) | ((r->n & 0x7fffffu) == 0) | ((r->n & 0x400000u) != 0)); }
static void mk_num(struct raw* r) { mk_raw(r, K_I32, 0, 0); vp_assume((uint32_t)r->n - 1000u <= 29000u); }
static const char* pn[2] = { "one", "two" };
static void fill(rbusObject_t o, struct spec* s) { for (int i = 0; i < s->nprop; i++) { rbusValue_t v = rbusValue_Init(0); set_raw(v, &s->v[i]); rbusObject_SetValue(o, pn[i], v); rbusValue_Release(v); } if (s->child) { rbusObject_t c; rbusObject_Init(&c, "kid"); rbusValue_t v = rbusValue_Init(0); set_raw(v, &s->cv); rbusObject_SetValue(c, "deep", v); rbusValue_Release(v); rbusObject_SetChildren(o, c); rbusObject_Release(c); if (s->child > 1) { rbusObject_t d; rbusObject_InitMultiInstance(&d, "kid2"); rbusObject_SetNext(c, d); rbusObject_Release(d); } } }
static int same(rbusObject_t o, struct spec* s, int extra) { if (!o) return 0; int ok = 1; rbusProperty_t p = rbusObject_GetProperties(o); for (int i = 0; i < s->nprop; i++) { if (!p) return 0; ok &= !strcmp(rbusProperty_GetName(p), pn[i]) & (is_raw(rbusProperty_GetValue(p), &s->v[i]) != 0); p = rbusProperty_GetNext(p); } for (int i = 0; i < extra; i++) { if (!p) return 0; p = rbusProperty_GetNext(p); } if (p) return 0;
  rbusObject_t c = rbusObject_GetChildren(o); if (!s->child) return ok && !c; if (!c || strcmp(rbusObject_GetName(c), "kid")) return 0; p = rbusObject_GetProperties(c); if (!p || rbusProperty_GetNext(p) || strcmp(rbusProperty_GetName(p), "deep")) return 0; ok &= is_raw(rbusProperty_GetValue(p), &s->cv) != 0; c = rbusObject_GetNext(c); if (s->child > 1) { if (!c || strcmp(rbusObject_GetName(c), "kid2") || rbusObject_GetType(c) != RBUS_OBJECT_MULTI_INSTANCE || rbusObject_GetProperties(c)) return 0; c = rbusObject_GetNext(c); } return ok && !c; }
static int error_info(rbusObject_t o, int rc) { rbusValue_t c = rbusObject_GetValue(o, "error_code"), t = rbusObject_GetValue(o, "error_string"); return c && t && rbusValue_GetType(c) == RBUS_INT32 && rbusValue_GetInt32(c) == rc && rbusValue_GetType(t) == RBUS_STRING && rbusValue_GetString(t, NULL) && *rbusValue_GetString(t, NULL); }
static rbusError_t on_call(rbusHandle_t h, char const* name, rbusObject_t ip, rbusObject_t op, rbusMethodAsyncHandle_t ah) {
  if (h != hp) wrong++; calls++; snprintf(seen_name, sizeof seen_name, "%s", name); in_ok = same(ip, &in, 0);
  if (result == RBUS_ERROR_ASYNC_RESPONSE) { if (early) { rbusObject_t o; rbusObject_Init(&o, NULL); fill(o, &out); rbusMethod_SendAsyncResponse(ah, (rbusError_t)answered_early, o); rbusObject_Release(o); } else if (nheld < 3) held[nheld++] = ah; return RBUS_ERROR_ASYNC_RESPONSE; }
  fill(op, &out); return (rbusError_t)result; }
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)h; (void)p; (void)o; return RBUS_ERROR_ACCESS_NOT_ALLOWED; }
static rbusDataElement_t els[] = { { "Device.P.M()", RBUS_ELEMENT_TYPE_METHOD, { NULL, NULL, NULL, NULL, NULL, on_call } }, { "Device.P.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, NULL, NULL } }, { "Device.T.{i}.", RBUS_ELEMENT_TYPE_TABLE, { NULL, NULL, NULL, NULL, NULL, NULL } }, { "Device.T.{i}.Act()", RBUS_ELEMENT_TYPE_METHOD, { NULL, NULL, NULL, NULL, NULL, on_call } } };
static void start(void) { vp_check(rbus_open(&hp, "p") == 0 && rbus_open(&hc, "c") == 0 && rbus_regDataElements(hp, 4, els) == 0, "the provider registers its methods"); rbusObject_t o; vp_check(rbusMethod_Invoke(hc, "Device.P.M()", NULL, &o) == 0 && calls == 1, "a method can be called"); rbusObject_Release(o); calls = 0; }
static void stop(void) { rbus_unregDataElements(hp, 4, els); vp_check(rbus_close(hc) == 0 && rbus_close(hp) == 0, "components close"); }
static void spec_shape(struct spec* s, int which) { memset(s, 0, sizeof *s); switch (which) { case 0: s->null = 1; break; case 1: break; case 2: s->nprop = 1; mk_any(&s->v[0]); break; case 3: s->nprop = 2; mk_num(&s->v[0]); mk_raw(&s->v[1], K_STR, 0, 2); break; case 4: s->nprop = 1; mk_num(&s->v[0]); s->child = 1 + (int)vp_choose(2, "children"); mk_num(&s->cv); break; } }
static rbusObject_t build(struct spec* s) { if (s->null) return NULL; rbusObject_t o; rbusObject_Init(&o, NULL); fill(o, s); return o; }
static void check_out(int rc, int want, rbusObject_t o) { vp_check(rc == want, "a call reports what the method answered"); int ec = want && 1; vp_check(o && same(o, &out, ec ? 2 : 0), "a call returns the results of the method"); if (ec) vp_check(error_info(o, want), "a failed call says why"); }
static void sync_call(void) { start(); spec_shape(&in, (int)vp_param("in", 2)); spec_shape(&out, (int)vp_param("out", 1)); out.null = 0; result = vp_choose(2, "fails") ? some_error() : 0; early = 0; if (vp_choose(2, "answers asynchronously")) { early = 1; answered_early = result; result = RBUS_ERROR_ASYNC_RESPONSE; } int want = early ? answered_early : result;
  rbusObject_t ip = build(&in), op = NULL; uint64_t mid = vp_heap_live(); int rc = rbusMethod_Invoke(hc, "Device.P.M()", ip, &op); vp_check(calls == 1 && !wrong && !strcmp(seen_name, "Device.P.M()"), "a call runs the method once, under its name"); vp_check(in_ok, "the method is given exactly the parameters of the call");
  if (early) { vp_check(rc == want, "a call reports what the method answered"); vp_check(op && same(op, &out, 0), "a call returns the results of the method"); } else check_out(rc, want, op); rbusObject_Release(op); vp_check(vp_heap_live() == mid, "a call leaks nothing"); if (ip) rbusObject_Release(ip); vp_reach("called"); stop(); }
static void own_error(void) { /* the method explains its failure itself */ start(); memset(&in, 0, sizeof in); memset(&out, 0, sizeof out); result = some_error(); struct raw r; mk_num(&r); rbusObject_t op = NULL; out.nprop = 0; static rbusObject_t keep; (void)keep; pn[0] = "error_code"; out.nprop = 1; out.v[0] = r; uint64_t mid = vp_heap_live(); int rc = rbusMethod_Invoke(hc, "Device.P.M()", NULL, &op); vp_check(rc == result && same(op, &out, 0), "a failed method's own explanation is returned unchanged"); rbusObject_Release(op); vp_check(vp_heap_live() == mid, "a call leaks nothing"); vp_reach("own error"); stop(); }
static void names(void) { start(); memset(&in, 0, sizeof in); memset(&out, 0, sizeof out); result = 0; vp_check(rbusTable_registerRow(hp, "Device.T.", 1, "al") == 0 && rbusTable_registerRow(hp, "Device.T.", 12, NULL) == 0, "rows register");
  static const struct { const char* n; int ok; } nm[] = { { "Device.P.M()", 1 }, { "Device.T.1.Act()", 1 }, { "Device.T.[al].Act()", 1 }, { "Device.T.12.Act()", 1 }, { "Device.T.2.Act()", 0 }, { "Device.T.[a].Act()", 0 }, { "Device.T.[all].Act()", 0 }, { "Device.P.A", 0 }, { "Device.P.M", 0 }, { "Device.P.M(", 0 }, { "Device.P.M().", 0 }, { "Device.P.", 0 }, { "Nope()", 0 }, { "", 0 }, { "Device.T.Act()", 0 }, { "Device.T.1.Act()x", 0 }, { "Device.T.1.", 0 }, { "Device.T.{i}.Act()", 0 }, { "Device.T.*.Act()", 0 }, { "Device.P.N()", 0 }, { "p", 0 } };
  int w = (int)vp_choose(sizeof nm / sizeof *nm, "name"), lost = (int)vp_choose(2, "lost"); if (lost) bus_fail_at = bus_nrequests + 1; rbusObject_t op = NULL; uint64_t mid = vp_heap_live(); int n0 = bus_nrequests, rc = rbusMethod_Invoke(hc, nm[w].n, NULL, &op); lost = lost && bus_nrequests > n0; bus_fail_at = 0;
  vp_check((rc == 0) == (nm[w].ok && !lost), "a call succeeds exactly for a method that exists and answers"); vp_check(calls == (nm[w].ok && !lost) && !wrong, "only the method named is run"); if (calls) vp_check(!strcmp(seen_name, nm[w].n), "the method is told the name it was called by"); if (rc) vp_check(op && error_info(op, rc), "a failed call says why"); if (op) rbusObject_Release(op); vp_check(vp_heap_live() == mid, "a call leaks nothing");
  if (w == 1 && !lost) { vp_check(rbusTable_unregisterRow(hp, "Device.T.1") == 0, "a row unregisters"); vp_check(rbusMethod_Invoke(hc, "Device.T.1.Act()", NULL, &op) != 0 && calls == 1, "a removed row's method cannot be called"); rbusObject_Release(op); } vp_reach("names"); stop(); }
static rbusMessage request(const char* name) { rbusMessage m; rbusMessage_Init(&m); rbusMessage_SetInt32(m, 0); rbusMessage_SetString(m, name); rbusMessage_SetInt32(m, in.null ? 0 : 1); if (!in.null) { rbusObject_t o = build(&in); rbusObject_appendToMessage(o, m); rbusObject_Release(o); } return m; }
static void later(void) { /* calls of other processes, answered later in any order */
  start(); spec_shape(&in, 3); result = RBUS_ERROR_ASYNC_RESPONSE; uint64_t base = vp_heap_live(); int n = (int)vp_param("n", 2), codes[3]; static struct spec outs[3]; static const char* box[3] = { "rbus.other.INBOX.7", "rbus.other.INBOX.8", "rbus.third.INBOX.7" }; uint32_t seq0 = bus_seq;
  for (int i = 0; i < n; i++) { rbusMessage m = request("Device.P.M()"); bus_call("Device.P.M()", "METHOD_RPC", box[i], m, NULL); rbusMessage_Release(m); vp_check(calls == i + 1 && nheld == i + 1 && bus_nout == 0 && in_ok, "a call is not answered before its method does"); }
  int done[3] = { 0, 0, 0 };
  for (int k = 0; k < n; k++) { int i = (int)vp_choose((uint32_t)n, "answers"); vp_assume(!done[i]); done[i] = 1; codes[i] = vp_choose(2, "fails") ? some_error() : 0; spec_shape(&outs[i], vp_choose(2, "results") ? 3 : 0); rbusObject_t o = build(&outs[i]); int rc = rbusMethod_SendAsyncResponse(held[i], (rbusError_t)codes[i], o); if (o) rbusObject_Release(o); vp_check(rc == 0 && bus_nout == k + 1, "an asynchronous answer is sent once");
    struct bus_sent* s = &bus_out[k]; vp_check(s->response && !strcmp(s->topic, box[i]) && s->hdr.sequence_number == seq0 + 1 + (uint32_t)i, "an asynchronous answer goes to the call it answers"); rbusMessage a; rbusMessage_FromBytes(&a, s->data, s->n); int32_t code = -1; rbusObject_t r; vp_check(rbusMessage_GetInt32(a, &code) == RT_OK && code == codes[i] && rbusObject_initFromMessage(&r, a) == 0, "an asynchronous answer carries its result code"); struct spec e = { 0 }; vp_check(outs[i].null ? (codes[i] ? same(r, &e, 2) && error_info(r, codes[i]) : same(r, &e, 0)) : same(r, &outs[i], 0), "an asynchronous answer carries its results"); rbusObject_Release(r); rbusMessage_Release(a); }
  bus_clear(); vp_check(vp_heap_live() == base, "answering leaks nothing"); vp_reach("later"); stop(); }
static int cb_n, cb_rc[2], cb_ok[2]; static int cb_extra;
static void on_answer(rbusHandle_t h, char const* m, rbusError_t e, rbusObject_t p) { int i = cb_n++; if (i < 2) { cb_rc[i] = (int)e; cb_ok[i] = h == hc && !strcmp(m, "Device.P.M()") && same(p, &out, e ? 2 : 0) && (!e || error_info(p, (int)e)); } }
extern int vp_fail_thread;
static void async_call(void) { start(); spec_shape(&in, vp_choose(2, "parameters") ? 3 : 0); spec_shape(&out, 3); result = vp_choose(2, "fails") ? some_error() : 0; int n = 1 + (int)vp_choose(2, "calls"), lost = (int)vp_choose(2, "lost"); if (lost) { bus_fail_requests = n; memset(&out, 0, sizeof out); } vp_fail_thread = n == 1 && !lost && vp_choose(2, "no thread"); int nothread = vp_fail_thread; uint64_t mid = vp_heap_live(); for (int i = 0; i < n; i++) { rbusObject_t ip = build(&in); int rc = rbusMethod_InvokeAsync(hc, "Device.P.M()", ip, on_answer, (int)vp_choose(2, "timeout")); if (ip) rbusObject_Release(ip); vp_check(nothread ? rc != 0 : rc == 0, "an asynchronous call starts"); } vp_fail_thread = 0; vp_run_others();
  vp_check(cb_n == (nothread ? 0 : n) && calls == (nothread || lost ? 0 : n), "each asynchronous call is answered once"); for (int i = 0; i < cb_n; i++) { vp_check(lost ? cb_rc[i] != 0 : cb_rc[i] == result, "an asynchronous call reports what the method answered"); vp_check(cb_ok[i] && (lost || in_ok), "an asynchronous call passes parameters and results unchanged"); } vp_check(vp_heap_live() == mid, "an asynchronous call leaks nothing"); vp_reach("async"); stop(); }
/* damaged requests, and damaged answers from a provider of another kind */
static void malformed(void) { start(); memset(&in, 0, sizeof in); result = 0; memset(&out, 0, sizeof out); uint64_t mid = vp_heap_live(); int cut = (int)vp_choose(10, "cut"); rbusMessage m; rbusMessage_Init(&m); int f = 0; static const uint8_t junk[3] = { 1, 2, 3 };
  do { if (cut == 0) break; if (cut == 1) rbusMessage_SetString(m, "x"); else rbusMessage_SetInt32(m, 0); if (cut <= 2) break; if (cut == 3) rbusMessage_SetInt32(m, 5); else rbusMessage_SetString(m, "Device.P.M()"); if (cut <= 4) break; if (cut == 5) rbusMessage_SetBytes(m, junk, 3); else rbusMessage_SetInt32(m, 1); if (cut <= 6) break; rbusMessage_SetString(m, "obj"); if (cut == 7) break; rbusMessage_SetInt32(m, 0); rbusMessage_SetInt32(m, cut == 8 ? 2 : 0); if (cut == 9) rbusMessage_SetInt32(m, 1); } while (f);
  rbusMessage a = NULL; int e = bus_call("Device.P.M()", "METHOD_RPC", "rbus.other.INBOX.7", m, &a); rbusMessage_Release(m); int32_t code = 0; vp_check(e == RT_OK && a && rbusMessage_GetInt32(a, &code) == RT_OK && code != 0, "a malformed call is answered with an error"); rbusMessage_Release(a); vp_check(calls == 0, "a malformed call runs nothing"); vp_check(vp_heap_live() == mid, "a malformed call leaks nothing"); vp_reach("malformed"); stop(); }
static int bad_kind; static int32_t bad_code;
static int bad_provider(char const* d, char const* method, rbusMessage req, void* u, rbusMessage* rsp, const rtMessageHeader* h) { (void)d; (void)method; (void)req; (void)u; (void)h; if (bad_kind == 0) return 0; rbusMessage_Init(rsp); if (bad_kind == 1) return 0; if (bad_kind == 2) { rbusMessage_SetString(*rsp, "zz"); return 0; } rbusMessage_SetInt32(*rsp, bad_code); if (bad_kind == 3) return 0; rbusMessage_SetString(*rsp, "o"); if (bad_kind == 4) return 0; rbusMessage_SetInt32(*rsp, 0); rbusMessage_SetInt32(*rsp, bad_kind == 5 ? 1 : 0); if (bad_kind >= 6) rbusMessage_SetInt32(*rsp, bad_kind == 6 ? 1 : 0); return 0; }
static void bad_answer(void) { start(); bad_kind = (int)vp_choose(8, "kind"); bad_code = vp_choose(2, "fails") ? some_error() : 0; rbus_registerObj("odd", bad_provider, NULL); rbus_addElement("odd", "Odd.M()"); rbusObject_t op = NULL; uint64_t mid = vp_heap_live(); int rc = rbusMethod_Invoke(hc, "Odd.M()", NULL, &op); vp_check(bad_kind == 7 ? rc == bad_code : rc != 0, "a malformed answer is not taken for success"); if (op) rbusObject_Release(op); vp_check(vp_heap_live() == mid, "a malformed answer leaks nothing"); vp_reach("bad answer"); rbus_unregisterObj("odd"); stop(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: sync_call(); break; case 1: own_error(); break; case 2: names(); break; case 3: later(); break; case 4: async_call(); break; case 5: malformed(); break; case 6: bad_answer(); break; } return 0; }
