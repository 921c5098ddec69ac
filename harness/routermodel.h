/* What the router is told by its clients, in plain lists. */
#ifndef ROUTERMODEL_H
#define ROUTERMODEL_H
#include "router.h"
enum { MR = 16 };
struct route { int c, id, live; char own[40]; }; static struct route ro[MR]; static int nro; /* a client's subscriptions, */
struct reg { char t[40]; int r; }; static struct reg rg[MR]; static int nrg; /* and the names they go by */
static int same(const char* a, const char* b) { size_t n = strlen(a); return n == strlen(b) && vp_memeq(a, b, n); }
static void mdrop(int r) { for (int j = 0; j < nrg; j++) if (rg[j].r == r) { for (int k = j; k + 1 < nrg; k++) rg[k] = rg[k + 1]; nrg--; j--; } }
static void mreg(const char* t, int r) { for (int j = 0; j < nrg; j++) if (rg[j].r == r && same(rg[j].t, t)) return; strcpy(rg[nrg].t, t); rg[nrg++].r = r; }
static int32_t msub(int c, const char* t, int id) { for (int i = 0; i < nro; i++) if (ro[i].live && ro[i].c == c && ro[i].id == id) { for (int j = 0; j < nrg; j++) if (same(rg[j].t, t)) return RT_ERROR_DUPLICATE_ENTRY; mreg(t, i); return RT_OK; } ro[nro].c = c; ro[nro].id = id; ro[nro].live = 1; strcpy(ro[nro].own, t); mreg(t, nro++); return RT_OK; }
static void munsub(int c, const char* t) { for (int i = 0; i < nro; i++) if (ro[i].live && ro[i].c == c && same(ro[i].own, t)) { ro[i].live = 0; mdrop(i); return; } for (int j = 0; j < nrg; j++) if (ro[rg[j].r].c == c && same(rg[j].t, t)) { for (int k = j; k + 1 < nrg; k++) rg[k] = rg[k + 1]; nrg--; j--; } }
static void mgone(int c) { for (int i = 0; i < nro; i++) if (ro[i].live && ro[i].c == c) { ro[i].live = 0; mdrop(i); } }
static int client(void) { int c = r_client(); char s[32]; r_inbox(c, s); msub(c, s, 1); return c; }
static void name(char* s, int parts) { int n = 1 + (parts > 1 ? (int)vp_choose((uint32_t)parts, "parts") : 0); for (int i = 0; i < n; i++) { unsigned char c = vp_u8("letter"); vp_assume((c >= 'a') & (c <= 'z')); if (i) *s++ = '.'; *s++ = (char)c; } *s = 0; }
static int inb(int c, char* s) { r_inbox(c, s); return 1; }
static int expect_result(int c, int add, const char* t, int id) { char in[32]; inb(c, in); int32_t w = RT_OK; if (add) w = msub(c, t, id); else munsub(c, t); int32_t g = r_sub(c, add, t, id, in); vp_check(g == w, "a subscription is answered with what became of it"); return g == w; }
#endif
