/* Discovery as the router answers it: who is there, what they provide, and who provides a name. */
#include "routermodel.h"
static rtMessage answer; static int asked;
static int ask(int c, const char* topic, const char* js) { char in[32]; r_inbox(c, in); nrout = 0; r_send(c, topic, in, 55, rtMessageFlags_Request, js, (uint32_t)strlen(js)); answer = NULL; int ok = nrout == 1 && rout[0].c == c && rout[0].seq == 55 && rout[0].flags == rtMessageFlags_Response && !strcmp(rout[0].topic, in) && rout[0].pl < RPAY && rtMessage_FromBytes(&answer, rout[0].pay, (int)rout[0].pl) == RT_OK; vp_check(ok, "a question is answered once, to who asked"); asked++; return ok; }
static int count(void) { int32_t n = -1; rtMessage_GetInt32(answer, RTM_DISCOVERY_COUNT, &n); return n; }
static int result(void) { int32_t n = -1; rtMessage_GetInt32(answer, RTM_DISCOVERY_RESULT, &n); return n; }
static int items(void) { int32_t n = 0; if (rtMessage_GetArrayLength(answer, RTM_DISCOVERY_ITEMS, &n) != RT_OK) n = 0; return n; }
static const char* item(int i) { const char* s = ""; rtMessage_GetStringItem(answer, RTM_DISCOVERY_ITEMS, i, &s); return s; }
/* how often name is among the items from..to */
static int times(const char* t, int from, int to) { int k = 0; for (int i = from; i < to; i++) k += same(item(i), t); return k; }
static void components(int c) { if (!ask(c, RTM_DISCOVER_REGISTERED_COMPONENTS, "{\"dummy\":0}")) return; int want = 0, ok = 1, n = items(); for (int i = 0; i < nro; i++) if (ro[i].live && ro[i].own[0] != '_') { want++; int k = 0; for (int j = 0; j < nro; j++) k += ro[j].live && same(ro[j].own, ro[i].own); ok &= times(ro[i].own, 0, n) == k; } vp_check(ok && n == want && count() == want, "the components which are registered are those registered, once each"); rtMessage_Release(answer); }
static void objects(int c, int n) { char t[3][40], js[300]; int o = snprintf(js, sizeof js, "{\"" RTM_DISCOVERY_COUNT "\":%d,\"" RTM_DISCOVERY_ITEMS "\":[", n); for (int i = 0; i < n; i++) { name(t[i], 2); o += snprintf(js + o, sizeof js - (size_t)o, "%s\"%s\"", i ? "," : "", t[i]); } strcpy(js + o, "]}"); if (!ask(c, RTM_DISCOVER_ELEMENT_OBJECTS, js)) return; int at = 0, ok = result() == RT_OK, m = items();
  for (int i = 0; i < n; i++) { int want = 0; for (int j = 0; j < nrg; j++) want += same(rg[j].t, t[i]); if (i == 0) ok &= count() == want; for (int j = 0; j < nrg; j++) if (same(rg[j].t, t[i])) { int k = 0; for (int q = 0; q < nrg; q++) k += same(rg[q].t, t[i]) & same(ro[rg[q].r].own, ro[rg[j].r].own); ok &= times(ro[rg[j].r].own, at, at + want) == k; } at += want; } vp_check(ok && m == at, "a name's providers are those registered for it, name after name"); rtMessage_Release(answer); }
static void elements(int c) { char t[40], js[120]; int w = (int)vp_choose(3, "whose"); if (w == 0) name(t, 2); else if (w == 1) strcpy(t, "obj"); else strcpy(t, "nobody"); snprintf(js, sizeof js, "{\"" RTM_DISCOVERY_EXPRESSION "\":\"%s\"}", t); if (!ask(c, RTM_DISCOVER_OBJECT_ELEMENTS, js)) return; int r = -1; for (int i = nro - 1; i >= 0; i--) if (ro[i].live && same(ro[i].own, t)) r = i; int want = 0, ok = 1, m = items(); for (int j = 0; j < nrg; j++) if (rg[j].r == r) { want++; ok &= times(rg[j].t, 0, m) == 1; } vp_check(ok && m == want && count() == want, "a component's names are those it registered, once each"); rtMessage_Release(answer); }
static int below(const char* t, const char* p) { size_t n = strlen(p); return strlen(t) > n && !strncmp(t, p, n); }
static void under(int c) { char t[42], js[120]; name(t, 1); strcat(t, "."); snprintf(js, sizeof js, "{\"" RTM_DISCOVERY_EXPRESSION "\":\"%s\"}", t); if (!ask(c, RTM_DISCOVER_WILDCARD_DESTINATIONS, js)) return; int want = 0, ok = result() == RT_OK, m = items(); for (int i = 0; i < nro; i++) if (ro[i].live) { int in = 0, first = -1; for (int j = 0; j < nrg; j++) if (rg[j].r == i) { if (first < 0) first = j; in |= below(rg[j].t, t); } if (in) { want++; int k = 0; for (int q = 0; q < m; q++) for (int j = 0; j < nrg; j++) k |= rg[j].r == i && same(item(q), rg[j].t); ok &= k; } } vp_check(ok && m == want && count() == want, "below a partial name there are those registered below it, once each"); rtMessage_Release(answer); }
static void history(void) { int ops = (int)vp_param("ops", 2), q = (int)vp_param("q", 0); r_start(); client(); client(); client(); char t[40]; expect_result(0, 1, "obj", 9);
  for (int s = 0; s < ops; s++) { int op = s == 0 ? (int)vp_param("op0", 0) : (int)vp_choose(5, "op"), c = op == 3 ? (int)vp_choose(2, "who") : s == 0 ? 0 : (int)vp_choose(2, "who"); if (op == 3) { if (rcl[c].open) { r_gone(c); mgone(c); } continue; } if (!rcl[c].open) vp_end_path(); if (op == 4) { if (!expect_result(c, 1, "_x", 12)) return; continue; } name(t, 2);
    if (op == 0) { if (!expect_result(c, 1, t, 2 + s)) return; } else if (op == 1) { if (!expect_result(c, 1, t, c ? 1 : 9)) return; } else if (!expect_result(c, 0, t, 0)) return; }
  switch (q) { case 0: components(2); break; case 1: objects(2, 1 + (int)vp_choose(2, "names")); break; case 2: elements(2); break; default: under(2); } r_stop(2); vp_reach("history"); }
int main(void) { history(); return 0; }
