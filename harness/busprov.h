/* Two providers and a consumer on the loopback bus; the parameters behind the handlers are a plain table. */
#include "bus.h"
enum { PA, PB, PR, PW, PC, PD, PE, NPAR }; /* A, B: read-write; R: read-only; W: write-only (first provider); C, D: read-write (second provider); E: read-write (third) */
struct par { const char* name; struct raw cur; int refuse_set, refuse_get; int nset, nget; int last_commit; unsigned last_session; char who[32]; };
static struct par par[NPAR] = { { .name = "Device.P.A" }, { .name = "Device.P.B" }, { .name = "Device.P.R" }, { .name = "Device.P.W" }, { .name = "Device.Q.C" }, { .name = "Device.Q.D" }, { .name = "Device.S.E" } };
static int nullvalues;
static rbusHandle_t hp, hq, hs, hc; static int hsets, hgets, wrong;
static struct par* find_par(const char* n) { for (int i = 0; i < NPAR; i++) if (n && !strcmp(par[i].name, n)) return &par[i]; wrong++; return NULL; }
static void take_raw(struct raw* r, rbusValue_t v, int k) { memset(r, 0, sizeof *r); r->k = k; switch (k) { case K_I32: r->n = (uint32_t)rbusValue_GetInt32(v); break; case K_STR: { int n = 0; const char* s = rbusValue_GetString(v, &n); r->len = n; memcpy(r->b, s, (size_t)n + 1); break; } default: break; } }
static struct { struct raw want; int on, ok; } expect; /* a value the set handler must be handed */
static int kind_of(rbusValue_t v) { for (int k = 0; k < K_N; k++) if (v && rbusValue_GetType(v) == vh_type[k]) return k; return -1; }
static rbusError_t on_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) { (void)h; hsets++; struct par* a = find_par(rbusProperty_GetName(p)); if (!a) return RBUS_ERROR_BUS_ERROR; a->nset++; a->last_commit = o->commit; a->last_session = o->sessionId; strncpy(a->who, o->requestingComponent ? o->requestingComponent : "", 31); rbusValue_t v = rbusProperty_GetValue(p); if (expect.on) expect.ok = is_raw(v, &expect.want); if (!v) { nullvalues++; return RBUS_ERROR_INVALID_INPUT; } if (a->refuse_set) { int e = a->refuse_set; return e; } int k = kind_of(v); if (k == K_I32 || k == K_STR) take_raw(&a->cur, v, k); else if (expect.on) a->cur = expect.want; return RBUS_ERROR_SUCCESS; }
static rbusError_t on_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)h; hgets++; struct par* a = find_par(rbusProperty_GetName(p)); if (!a) return RBUS_ERROR_BUS_ERROR; a->nget++; strncpy(a->who, o->requestingComponent ? o->requestingComponent : "", 31); if (a->refuse_get) return a->refuse_get; rbusValue_t v = rbusValue_Init(0); set_raw(v, &a->cur); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
static rbusDataElement_t el_p[] = { { "Device.P.A", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.P.B", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.P.R", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, NULL, NULL, NULL, NULL, NULL } }, { "Device.P.W", RBUS_ELEMENT_TYPE_PROPERTY, { NULL, on_set, NULL, NULL, NULL, NULL } } };
static rbusDataElement_t el_q[] = { { "Device.Q.C", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } }, { "Device.Q.D", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } } };
static rbusDataElement_t el_s[] = { { "Device.S.E", RBUS_ELEMENT_TYPE_PROPERTY, { on_get, on_set, NULL, NULL, NULL, NULL } } };
static void start(int third) { vp_check(rbus_open(&hp, "p") == RBUS_ERROR_SUCCESS && rbus_open(&hq, "q") == RBUS_ERROR_SUCCESS && rbus_open(&hc, "c") == RBUS_ERROR_SUCCESS, "components open"); vp_check(rbus_regDataElements(hp, 4, el_p) == RBUS_ERROR_SUCCESS && rbus_regDataElements(hq, 2, el_q) == RBUS_ERROR_SUCCESS, "elements register"); if (third) { vp_check(rbus_open(&hs, "pz") == RBUS_ERROR_SUCCESS && rbus_regDataElements(hs, 1, el_s) == RBUS_ERROR_SUCCESS, "third provider registers"); } }
/* one set of every writable parameter, so that what a provider remembers per parameter is there before leaks are measured */
static void warm(void) { for (int i = 0; i < NPAR; i++) if (i != PR && (i != PE || hs)) { rbusValue_t v = rbusValue_InitInt32(0); vp_check(rbus_set(hc, par[i].name, v, NULL) == RBUS_ERROR_SUCCESS, "a parameter can be set"); rbusValue_Release(v); par[i].nset = par[i].nget = 0; } hsets = hgets = 0; }
static void stop(void) { if (hs) { rbus_unregDataElements(hs, 1, el_s); rbus_close(hs); } rbus_unregDataElements(hq, 2, el_q); rbus_unregDataElements(hp, 4, el_p); vp_check(rbus_close(hc) == RBUS_ERROR_SUCCESS && rbus_close(hq) == RBUS_ERROR_SUCCESS && rbus_close(hp) == RBUS_ERROR_SUCCESS, "components close"); }
