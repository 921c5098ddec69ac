/* Routing between clients of the router. */
#include "routermodel.h"
/* c sends one message; exactly those registered get it, or the sender learns that nobody is */
static void message(int c, const char* t, const char* reply, uint32_t seq, uint32_t flags, const unsigned char* pay, uint32_t n) { nrout = 0; r_send(c, t, reply, seq, flags, pay, n); int want = 0, ok = 1, seen[ROUT] = { 0 };
  for (int j = 0; j < nrg; j++) if (same(rg[j].t, t)) { want++; int f = 0; for (int i = 0; i < nrout; i++) if (!seen[i] && rout[i].c == ro[rg[j].r].c && rout[i].cd == (uint32_t)ro[rg[j].r].id) { seen[i] = 1; f = 1; ok &= rout[i].seq == seq; ok &= rout[i].flags == flags; ok &= rout[i].pl == n; ok &= vp_memeq(rout[i].pay, pay, n); ok &= same(rout[i].topic, t); ok &= same(rout[i].reply, reply); break; } if (!f) ok = 0; }
  if (want) { vp_check(ok && nrout == want, "a message reaches each client registered for its name once, unchanged, and no other"); return; }
  if (!(flags & rtMessageFlags_Request)) { vp_check(nrout == 0, "a message nobody is registered for reaches nobody"); return; }
  ok = nrout == 1; if (ok) { ok &= rout[0].c == c; ok &= rout[0].cd == 1; ok &= rout[0].seq == seq; ok &= rout[0].pl == 0; ok &= rout[0].flags == ((flags & ~(uint32_t)rtMessageFlags_Request) | rtMessageFlags_Response | rtMessageFlags_Undeliverable); ok &= same(rout[0].topic, reply); } vp_check(ok, "a request nobody is registered for comes back marked undeliverable"); }
static void any_message(int c, int parts) { char t[40], in[32]; name(t, parts); inb(c, in); unsigned char p[3]; vp_bytes(p, 3, "payload"); message(c, t, in, vp_u32("seq"), vp_u32("flags"), p, vp_choose(2, "empty") ? 0 : 3); }
static void history(void) { int ops = (int)vp_param("ops", 2), parts = (int)vp_param("parts", 1); r_start(); client(); client(); client(); char t[40];
  for (int s = 0; s < ops; s++) { int op = s == 0 ? (int)vp_param("op0", 0) : s == 1 && vp_param("op1", 9) < 9 ? (int)vp_param("op1", 9) : (int)vp_choose(4, "op"); if (op == 3) { int c = (int)vp_choose(2, "who"); if (rcl[c].open) { r_gone(c); mgone(c); } continue; } int c = s == 0 ? 0 : (int)vp_choose(2, "who"); if (!rcl[c].open) vp_end_path(); name(t, parts);
    if (op == 0) { if (!expect_result(c, 1, t, 2 + s)) return; } else if (op == 1) { if (!expect_result(c, 1, t, 1)) return; } else if (!expect_result(c, 0, t, 0)) return; }
  any_message(2, parts); r_stop(2); vp_reach("history"); }
/* two messages of one client cut anywhere, with another's in between */
static void framing(void) { r_start(); int a = client(), b = client(), c = client(); expect_result(a, 1, "x", 2); int n1 = vp_param("len", 9) > 2 ? (int)vp_choose(3, "len1") : (int)vp_param("len", 9), n2 = (int)vp_choose(2, "len2") * 2; unsigned char p[6]; vp_bytes(p, 6, "payload"); uint32_t q = vp_u32("seq"), f = vp_u32("flags") ; struct rcl* k = &rcl[b]; int e1 = r_put(b, "x", "r", q, f, 7, p, (uint32_t)n1), e = vp_param("two", 1) ? r_put(b, "x", "", q + 1, f, 8, p + 2, (uint32_t)n2) : e1; nrout = 0;
  int c1 = 1 + (int)vp_choose((uint32_t)e - 1, "cut"), c2 = vp_param("cuts", 1) > 1 ? c1 + (int)vp_choose((uint32_t)(e - c1), "cut2") : e; k->lim = c1; r_pump(b); int between = nrout; r_send(c, "x", "z", 3, 0, p + 4, 2); k->lim = c2; r_pump(b); k->lim = e; r_pump(b); k->n = k->o = k->lim = 0; int two = e != e1;
  vp_check(between == (c1 >= e1), "a message is passed on once all of it has come"); int ok = nrout == 2 + two, i = 0; if (ok) for (int m = 0; m < 2 + two; m++) { struct rout* r = &rout[m]; ok &= r->c == a && r->cd == 2 && same(r->topic, "x"); if (m == (c1 >= e1)) { ok &= r->pl == 2 && r->seq == 3; ok &= same(r->reply, "z"); ok &= vp_memeq(r->pay, p + 4, 2); continue; } ok &= r->seq == q + (uint32_t)i; ok &= r->flags == f; ok &= r->pl == (uint32_t)(i ? n2 : n1); ok &= vp_memeq(r->pay, p + (i ? 2 : 0), (size_t)(i ? n2 : n1)); ok &= same(r->reply, i ? "" : "r"); i++; }
  vp_check(ok, "messages are passed on whole, unchanged and in order, however their bytes arrive"); r_stop(c); vp_reach("framing"); }
static void advisory(void) { r_start(); int a = client(), b = client(); int on = (int)vp_choose(4, "listen"); if (on & 1) expect_result(a, 1, RTMSG_ADVISORY_TOPIC, 3); if (on & 2) expect_result(b, 1, RTMSG_ADVISORY_TOPIC, 4); nrout = 0; int c = client(); char in[32]; inb(c, in); int off = (int)vp_choose(3, "off");
  for (int turn = 0; turn < 2; turn++) { int want = 0, ok = 1; for (int k = 0; k < 2; k++) if (on >> k & 1) { want++; int f = 0; for (int i = 0; i < nrout; i++) if (rout[i].c == k) { int32_t ev = -1; rtMessage m; char const* s = NULL; f++; ok &= rout[i].cd == (uint32_t)(3 + k) && !strcmp(rout[i].topic, RTMSG_ADVISORY_TOPIC); if (rtMessage_FromBytes(&m, rout[i].pay, (int)rout[i].pl) == RT_OK) { rtMessage_GetInt32(m, RTMSG_ADVISE_EVENT, &ev); rtMessage_GetString(m, RTMSG_ADVISE_INBOX, &s); ok &= ev == (turn ? rtAdviseClientDisconnect : rtAdviseClientConnect) && s && !strcmp(s, in); rtMessage_Release(m); } else ok = 0; } ok &= f == 1; }
    vp_check(ok && nrout == want, "those who asked are told once of each client that comes or goes"); if (turn == 0) { if (off == 1 && (on & 1)) { expect_result(a, 0, RTMSG_ADVISORY_TOPIC, 0); on &= ~1; } else if (off == 2) { int32_t w = r_sub(c, 1, "other.INBOX.2", 5, in); vp_check(w == 0 && nrout == want, "only a client's first inbox announces it"); } nrout = 0; r_gone(c); mgone(c); } }
  unsigned char p[1] = { 0 }; message(b, in, "c1.INBOX.1", 1, rtMessageFlags_Request, p, 0); r_stop(b); vp_reach("advisory"); }
static void large(void) { r_start(); int a = client(), b = client(); expect_result(a, 1, "x", 0); int n = (int)vp_param("base", 65482) + (int)vp_choose(5, "len"); vp_check(big_turns(b, "x", n, 1), "a large message is passed on unchanged"); unsigned char s[3]; vp_bytes(s, 3, "payload"); message(b, "x", "", 5, 0, s, 3); r_stop(b); vp_reach("large"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: history(); break; case 1: framing(); break; case 2: advisory(); break; case 3: large(); break; } return 0; }
