/* One client sends the router whatever it likes; the others must not notice. */
#include "router.h"
static const char* TOP[] = { "_RTROUTED.INBOX.SUBSCRIBE", RTM_DISCOVER_REGISTERED_COMPONENTS, RTM_DISCOVER_WILDCARD_DESTINATIONS, RTM_DISCOVER_OBJECT_ELEMENTS, RTM_DISCOVER_ELEMENT_OBJECTS, RTROUTER_DIAG_DESTINATION, "TransactionTime", "_RTROUTED.INBOX.HELLO", "a.b", "nobody" };
enum { NTOP = 10 };
static int A, B, H; static uint64_t base; static int swallow; static int done_;
static const char* reply(void) { static const char* R[] = { "c2.INBOX.1", "nobody", "", "_RTROUTED.INBOX.SUBSCRIBE", RTM_DISCOVER_ELEMENT_OBJECTS, RTROUTER_DIAG_DESTINATION, "c0.INBOX.1", "a." , "TransactionTime" }; return R[vp_param("reply", 99) < 9 ? vp_param("reply", 99) : vp_choose(9, "reply")]; }
/* what the others rely on still holds */
static int warm; static void others(void) { nrout = 0; unsigned char p[3] = { 1, 2, 3 }; if (warm) vp_bytes(p, 3, "payload"); r_send(B, "a.b", "c1.INBOX.1", 9, rtMessageFlags_Request, p, 3); int k = -1, n = 0; for (int i = 0; i < nrout; i++) if (rout[i].c == A) { k = i; n++; } vp_check(n == 1 && rout[k].cd == 3 && rout[k].seq == 9 && rout[k].pl == 3 && vp_memeq(rout[k].pay, p, 3), "other clients' messages are passed on whatever one client sent");
  nrout = 0; r_send(A, "c1.INBOX.1", "", 9, rtMessageFlags_Response, p, 2); n = 0; for (int i = 0; i < nrout; i++) if (rout[i].c == B) { k = i; n++; } vp_check(n == 1 && rout[k].cd == 1 && rout[k].pl == 2 && vp_memeq(rout[k].pay, p, 2), "other clients' answers are passed on whatever one client sent");
  vp_check(r_sub(B, 1, "z", 8, "c1.INBOX.1") == RT_OK && (r_sub(B, 0, "z", 8, "c1.INBOX.1"), 1), "other clients register whatever one client sent"); }
static void drop(void) { r_gone(H); rnc--; memset(&rcl[H], 0, sizeof rcl[H]); }
static void setup(void) { r_start(); A = r_client(); vp_check(r_sub(A, 1, "a.b", 3, "c0.INBOX.1") == RT_OK, "a client registers a name"); B = r_client(); H = r_client(); r_send(H, "nobody", "nobody", 1, rtMessageFlags_Response, "", 0); others(); drop(); H = r_client(); warm = 1; r_last = 0; }
/* the others are served with the client, without it, and when it comes back to do the same again; that takes no more memory */
static void finish(void) { static unsigned char again[RSTREAM]; int n = r_last ? r_last : rcl[H].n; memcpy(again, rcl[H].in, (size_t)n); others(); warm = 0; if (rcl[H].open) drop(); else { rnc--; memset(&rcl[H], 0, sizeof rcl[H]); } others(); base = vp_heap_live(); H = r_client(); memcpy(rcl[H].in, again, (size_t)n); rcl[H].lim = rcl[H].n = n; r_pump(H); others(); if (rcl[H].open) drop(); others(); vp_check(vp_heap_live() == base, "nothing is left of a client that has gone"); r_stop(B); vp_reach("served"); }
static void raw(const unsigned char* p, int n) { struct rcl* k = &rcl[H]; memcpy(k->in + k->n, p, (size_t)n); k->n += n; k->lim = k->n; r_pump(H); }
/* the numbers of a header take any value */
static void header(void) { setup(); int f = (int)vp_param("field", 0); const char* t = TOP[vp_param("top", 8)]; unsigned char b[200]; unsigned char* p = b; uint32_t tl = (uint32_t)strlen(t), rl = 4, hl = 52 + tl + rl, pl = 5, m1 = 0xAAAA, v = 2, m2 = 0xAAAA; uint32_t xtl = tl, xrl = rl;
  if (f == 0) { hl = vp_u32("hl") & 0xffff; } if (f == 1) { xtl = vp_u32("tl"); } if (f == 2) { xrl = vp_u32("rl"); } if (f == 3) { pl = vp_u32("pl"); vp_assume((pl <= 40) | (pl > RTMSG_MAX_PAYLOAD_LENGTH)); } if (f == 4) { m1 = vp_u32("m1") & 0xffff; v = vp_u32("v") & 0xffff; } if (f == 5) { m2 = vp_u32("m2") & 0xffff; } if (f == 6) { static const int32_t D[] = { -300, -46, -10, -2, -1, 1, 2, 10, 200 }; hl += (uint32_t)D[vp_choose(9, "dh")]; xtl += (uint32_t)D[vp_choose(9, "dt")]; xrl += (uint32_t)D[vp_choose(9, "dr")]; }
  w16(&p, m1); w16(&p, v); w16(&p, hl); w32(&p, vp_u32("seq")); w32(&p, vp_u32("flags")); w32(&p, vp_u32("cd")); w32(&p, pl); w32(&p, xtl); memcpy(p, t, tl); p += tl; w32(&p, xrl); memcpy(p, "c2.I", 4); p += 4; for (int i = 0; i < 5; i++) w32(&p, 7); w16(&p, m2); for (int i = 0; i < (int)vp_param("tail", 40); i++) *p++ = 'x';
  raw(b, (int)(p - b)); finish(); }
/* arbitrary bytes from the start of a header on */
static void stream(void) { setup(); int n = (int)vp_param("n", 20); unsigned char b[64]; vp_bytes(b, (size_t)n, "byte"); if (vp_param("good", 1)) { b[0] = b[1] = 0xAA; b[2] = 0; b[3] = 2; b[4] = 0; b[5] = (unsigned char)vp_param("hl", 52); uint32_t pl = be(b + 18, 4); vp_assume((pl <= 3) | (pl > RTMSG_MAX_PAYLOAD_LENGTH)); uint32_t tl = be(b + 22, 4); vp_assume((tl <= vp_param("tl", 2)) | (tl > 255)); } raw(b, n); finish(); }
/* arbitrary short payloads to every name of the router */
static void payload(void) { setup(); int n = (int)vp_choose((uint32_t)vp_param("n", 3) + 1, "length"); unsigned char b[16]; vp_bytes(b, (size_t)n, "byte"); r_send(H, TOP[vp_param("top", 0)], reply(), 5, vp_choose(2, "request") ? rtMessageFlags_Request : vp_u32("flags") & ~(uint32_t)rtMessageFlags_Request, b, (uint32_t)n); finish(); }
/* well formed JSON whose fields are not what they should be */
static const char* value(char* w) { static const char* V[] = { "0", "1", "-1", "2147483648", "1e300", "null", "true", "[]", "{}", "[\"a.b\"]", "[1,null]", "\"\"", "\"a.b\"", "\"a.\"", "\"_RTROUTED.INBOX.SUBSCRIBE\"", "\"c0.INBOX.1\"", "\"*\"", "\"a.{i}.\"", "\"..\"", "\"c1.INBOX.7\"" }; uint32_t k = vp_choose(23, "value"); if (k < 20) return V[k]; if (k == 20) return 0; if (k == 21) { unsigned char a = vp_u8("letter"), b = vp_u8("letter"); vp_assume((a > 32) & (a != '"') & (a != '\\') & (b > 32) & (b != '"') & (b != '\\')); w[0] = '"'; w[1] = (char)a; w[2] = (char)b; w[3] = '"'; w[4] = 0; return w; } int n = 100 + (int)vp_choose(4, "long") * 60; memset(w, 'q', (size_t)n); w[0] = '"'; w[n - 1] = '"'; w[n] = 0; return w; }
static void fields(void) { setup(); static const char* F[8][5] = { { "add", "topic", "route_id" }, { 0 }, { "expression" }, { "expression" }, { "count", "items" }, { RTROUTER_DIAG_CMD_KEY, RTROUTER_DIAG_CMD_VALUE }, { "topic", "reply_topic", "T1" }, { "inbox" } }; static const char* G[8][5] = { { "1", "\"a.c\"", "4" }, { 0 }, { "\"a.\"" }, { "\"a.b\"" }, { "1", "[\"a.b\"]" }, { "\"heartbeat\"", "\"x\"" }, { "\"x\"", "\"y\"", "3" }, { "\"x\"" } };
  int t = (int)vp_param("top", 0), any = (int)vp_param("any", 1); char js[900], w[400]; int n = 0; js[n++] = '{'; for (int i = 0; i < 3 && F[t][i]; i++) { const char* v = any >> i & 1 ? value(w) : vp_param("alt", 0) && i == 0 ? "0" : G[t][i]; if (!v) continue; n += snprintf(js + n, sizeof js - (size_t)n, "%s\"%s\":%s", n > 1 ? "," : "", F[t][i], v); } js[n++] = '}';
  r_send(H, TOP[t], reply(), 5, vp_choose(2, "request") ? rtMessageFlags_Request : 0, js, (uint32_t)n); finish(); }
static void diag(void) { setup(); static const char* C[] = { "enableVerboseLogs", "disableVerboseLogs", "logRoutingStats", "logRoutingTopics", "logRoutingRoutes", "enableTrafficMonitor", "disableTrafficMonitor", "resetBenchmarkData", "dumpBenchmarkData", "heartbeat", "addNewListener", "" }; char js[700], w[400]; uint32_t k; int n = snprintf(js, sizeof js, "{\"" RTROUTER_DIAG_CMD_KEY "\":\"%s\"", C[(k = vp_choose(12, "cmd"))]); const char* v = k == 10 ? value(w) : "1"; if (v) n += snprintf(js + n, sizeof js - (size_t)n, ",\"" RTROUTER_DIAG_CMD_VALUE "\":%s", v); js[n++] = '}'; r_send(H, RTROUTER_DIAG_DESTINATION, reply(), 5, vp_choose(2, "request") ? rtMessageFlags_Request : 0, js, (uint32_t)n); finish(); }
static void listener(void) { setup(); static const char* pre[] = { "tcp://", "unix://", "tcp:/", "tcp://1.2.3.4", "tcp://[::1]" }; char js[900]; int n = snprintf(js, sizeof js, "{\"" RTROUTER_DIAG_CMD_KEY "\":\"addNewListener\",\"" RTROUTER_DIAG_CMD_VALUE "\":\"%s", pre[vp_choose(5, "kind")]); static const int L[] = { 0, 1, 15, 62, 63, 64, 65, 107, 108, 109, 126, 127, 128, 129, 250 }; int l = L[vp_choose(15, "length")]; memset(js + n, vp_choose(2, "digit") ? '1' : 'q', (size_t)l); n += l; static const char* suf[] = { "", ":", ":80", ":99999999999", ":x", ":-1" }; n += snprintf(js + n, sizeof js - (size_t)n, "%s\"}", suf[vp_choose(6, "port")]); r_send(H, RTROUTER_DIAG_DESTINATION, "", 5, 0, js, (uint32_t)n); others(); drop(); others(); r_stop(B); vp_reach("served"); }
/* a valid message whose end is missing, and a client that goes in the middle of one */
static void cut(void) { setup(); static const char* J[8] = { "{\"add\":1,\"topic\":\"a.c\",\"route_id\":4}", "{}", "{\"expression\":\"a.\"}", "{\"expression\":\"a.b\"}", "{\"count\":1,\"items\":[\"a.b\"]}", "{\"" RTROUTER_DIAG_CMD_KEY "\":\"heartbeat\"}", "{\"topic\":\"x\",\"reply_topic\":\"y\",\"T1\":3}", "{\"inbox\":\"x\"}" }; int t = (int)vp_param("top", 0); uint32_t l = (uint32_t)strlen(J[t]); char* j = malloc(l); memcpy(j, J[t], l); uint32_t n = vp_choose(l, "cut");
  if (vp_choose(2, "gone")) { r_put(H, TOP[t], "c2.INBOX.1", 5, rtMessageFlags_Request, 0, j, l); rcl[H].lim = rcl[H].n - (int)l + (int)n; r_pump(H); rcl[H].n = rcl[H].lim; } else r_send(H, TOP[t], "c2.INBOX.1", 5, rtMessageFlags_Request, j, n); free(j); finish(); }
/* any names in the header, with zero bytes and all */
static void names(void) { setup(); int l = 1 + (int)vp_choose((uint32_t)vp_param("n", 2), "length"); unsigned char b[100]; unsigned char* p = b; char t[8], s[8]; vp_bytes(t, (size_t)l, "name"); int rl = (int)vp_choose(2, "rl"); vp_bytes(s, (size_t)rl, "reply"); w16(&p, 0xAAAA); w16(&p, 2); w16(&p, (uint32_t)(52 + l + rl)); w32(&p, 1); w32(&p, vp_u32("flags")); w32(&p, 0); w32(&p, 2); w32(&p, (uint32_t)l); memcpy(p, t, (size_t)l); p += l; w32(&p, (uint32_t)rl); memcpy(p, s, (size_t)rl); p += rl; for (int i = 0; i < 5; i++) w32(&p, 0); w16(&p, 0xAAAA); *p++ = '{'; *p++ = '}'; raw(b, (int)(p - b)); finish(); }
/* names as long as a header allows */
static void longnames(void) { setup(); static char t[300], r[300]; int a = 120 + (int)vp_choose(137, "tl"), c = vp_choose(2, "rl") ? 255 : 1; if (a > 255) a = 255; memset(t, vp_choose(2, "dots") ? '.' : 'q', (size_t)a); memset(r, 'r', (size_t)c); if (vp_choose(2, "subscribe")) { char in[64] = "c2.INBOX.1"; r_sub(H, 1, t, 4, in); } else r_send(H, t, r, 1, rtMessageFlags_Request, "{}", 2); finish(); }
/* messages around and beyond the size of the reader's buffer */
static void large(void) { setup(); int n = (int)vp_param("base", 65480) + (int)vp_choose(vp_param("span", 64), "len"); big_turns(H, vp_choose(2, "whom") ? "a.b" : "nobody", n, 0); others(); drop(); others(); r_stop(B); vp_reach("large"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: header(); break; case 1: stream(); break; case 2: payload(); break; case 3: fields(); break; case 4: diag(); break; case 5: listener(); break; case 6: cut(); break; case 7: names(); break; case 8: longnames(); break; case 9: large(); break; } return 0; }
