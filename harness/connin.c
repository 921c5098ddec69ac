/* What arrives on a connection reaches its listeners. */
#include "conn.h"
#include <rtrouteBase.h>
/* messages to listeners, cut anywhere on their way */
static void deliver(void) { c_start(); rtConnection_AddListenerWithId(C, "a.b", 7, c_cb, (void*)1); rtConnection_AddListener(C, "x.y", c_cb, (void*)2); rtConnection_AddDefaultListener(C, c_cb, (void*)3); int32_t id = 0, id7 = 0; vp_check(ncout == 2 && c_is_sub(&cout_[0], 1, "a.b", &id7) && id7 == 7 && c_is_sub(&cout_[1], 1, "x.y", &id), "a listener is registered with the router");
  vp_set_preempt((int)vp_param("preempt", 0)); cn_cuts = (int)vp_param("cuts", 1); cn_eintr = (int)vp_param("eintr", 0); int n = (int)vp_param("n", 2); struct { uint32_t seq, flags, cd, l; unsigned char p[8]; int who; } m[4];
  for (int i = 0; i < n; i++) { m[i].seq = vp_u32("seq"); m[i].flags = vp_u32("flags"); vp_assume(!(m[i].flags & rtMessageFlags_Response)); m[i].cd = vp_u32("cd"); m[i].l = vp_choose(3, "length") * 2; vp_bytes(m[i].p, m[i].l, "byte"); m[i].who = m[i].cd == 7 ? 1 : m[i].cd == (uint32_t)id ? 2 : m[i].cd == 1 ? 3 : 0; c_put(i & 1 ? "x.y" : "a.b", i & 1 ? "" : "c.INBOX.2", m[i].seq, m[i].flags, m[i].cd, m[i].p, m[i].l); }
  c_flush(); vp_run_others(); int k = 0, ok = 1; for (int i = 0; i < n; i++) if (m[i].who) { ok = ok && k < ngot && got[k].who == m[i].who; if (ok) { struct cgot* g = &got[k]; ok = (g->seq == m[i].seq) & (g->flags == m[i].flags) & (g->cd == m[i].cd) & (g->n == m[i].l) & vp_memeq(g->d, m[i].p, m[i].l) && !strcmp(g->topic, i & 1 ? "x.y" : "a.b") && !strcmp(g->reply, i & 1 ? "" : "c.INBOX.2"); } k++; }
  vp_check(ok && k == ngot, "each message reaches the listener it is for, whole and in order"); c_stop(); }
/* listeners come and go; what arrives then goes to those there are */
static void history(void) { c_start(); static const char* E[3] = { "a.b", "x.y", "q" }; int on[3] = { 0 }; int32_t id[3]; ncout = 0; int n = (int)vp_param("ops", 3);
  for (int k = 0; k < n; k++) { int i = (int)vp_choose(3, "which"), b = ncout; int32_t r; switch (vp_choose(k ? 4 : 1, "op")) {
    case 0: if (on[i]) vp_end_path(); id[i] = 11 + i + 10 * k; vp_check(rtConnection_AddListenerWithId(C, E[i], (uint32_t)id[i], c_cb, (void*)(intptr_t)(i + 1)) == RT_OK, "a listener is added"); on[i] = 1; vp_check(ncout == b + 1 && c_is_sub(&cout_[b], 1, E[i], &r) && r == id[i], "adding a listener registers it"); break;
    case 1: { rtError e = rtConnection_RemoveListener(C, E[i]); vp_check((e == RT_OK) == on[i], "a listener is removed if it is there"); vp_check(on[i] ? ncout == b + 1 && c_is_sub(&cout_[b], 0, E[i], &r) && r == id[i] : ncout == b, "removing a listener ends its registration"); on[i] = 0; break; }
    case 2: { int32_t w = on[i] ? id[i] : 5000; rtError e = rtConnection_RemoveListenerWithId(C, E[i], (uint32_t)w); vp_check((e == RT_OK) == on[i], "a listener is removed if it is there"); vp_check(on[i] ? ncout == b + 1 && c_is_sub(&cout_[b], 0, E[i], &r) && r == id[i] : ncout == b, "removing a listener ends its registration"); on[i] = 0; break; }
    case 3: { uint32_t cd = vp_u32("cd"); vp_assume((cd != 1) & (cd != 0)); unsigned char p = vp_u8("byte"); int g = ngot, who = 0; c_send("t", "", 4, 0, cd, &p, 1); vp_run_others(); for (int j = 0; j < 3; j++) if (on[j] && (int32_t)cd == id[j]) who = j + 1; vp_check(ngot == g + (who != 0) && (!who || (got[g].who == who && got[g].d[0] == p)), "a message goes to the listener there is now"); break; } } }
  for (int i = 0; i < 3; i++) { int g = ngot; if (!on[i]) continue; c_send("t", "", 4, 0, (uint32_t)id[i], "x", 1); vp_run_others(); vp_check(ngot == g + 1 && got[g].who == i + 1, "a message goes to the listener there is now"); } c_stop(); }
/* more listeners than there is room for */
static void full(void) { c_start(); int n = 0; for (int i = 0; i < 140; i++) { char e[16]; snprintf(e, sizeof e, "l%d", i); ncout = 0; if (rtConnection_AddListenerWithId(C, e, (uint32_t)(20 + i), c_cb, (void*)1) != RT_OK) { vp_check(ncout == 0, "a listener there is no room for is not registered"); break; } n++; } vp_check(n >= 100 && n < 140, "there is room for 100 listeners"); ncout = 0; vp_check(rtConnection_RemoveListenerWithId(C, "l50", 70) == RT_OK && rtConnection_AddListenerWithId(C, "new", 500, c_cb, (void*)2) == RT_OK, "the room of a listener removed is used again"); c_send("t", "", 4, 0, 70, "x", 1); c_send("t", "", 4, 0, 500, "x", 1); vp_run_others(); vp_check(ngot == 1 && got[0].who == 2, "a message goes to the listener there is now"); c_stop(); }
/* headers and payloads that are not what they should be: nothing is read or written that is not there, and the connection can be closed */
static void malformed(void) { c_start(); rtConnection_AddListenerWithId(C, "a.b", 7, c_cb, (void*)1); vp_run_others(); int f = (int)vp_param("field", 0); unsigned char b[200]; unsigned char* p = b; uint32_t tl = 3, rl = 4, hl = 59, pl = 5, m1 = 0xAAAA, v = 2, m2 = 0xAAAA, xtl = tl, xrl = rl, fl = 0, cd = 7, sent = 5; uint32_t sq = vp_u32("seq"); unsigned char q[5];
  if (f == 0) hl = vp_u32("hl") & 0xffff; if (f == 1) xtl = vp_u32("tl"); if (f == 2) xrl = vp_u32("rl"); if (f == 3) { pl = vp_u32("pl"); vp_assume((pl <= 8) | (pl > RTMSG_MAX_PAYLOAD_LENGTH)); } if (f == 4) { m1 = vp_u32("m1") & 0xffff; m2 = vp_u32("m2") & 0xffff; } if (f == 5) { fl = vp_u32("flags"); cd = vp_u32("cd"); } if (f == 6) { static const int32_t D[] = { -300, -46, -10, -2, -1, 1, 2, 10, 200 }; hl += (uint32_t)D[vp_choose(9, "dh")]; xtl += (uint32_t)D[vp_choose(9, "dt")]; xrl += (uint32_t)D[vp_choose(9, "dr")]; }
  w16(&p, m1); w16(&p, v); w16(&p, hl); w32(&p, sq); w32(&p, fl); w32(&p, cd); w32(&p, pl); w32(&p, xtl); memcpy(p, "a.b", 3); p += 3; w32(&p, xrl); memcpy(p, "c2.I", 4); p += 4; for (int i = 0; i < 5; i++) w32(&p, 7); w16(&p, m2); vp_bytes(q, 5, "byte"); memcpy(p, q, 5); p += 5;
  struct cep* e = &ce[cur]; memcpy(e->in + e->n, b, (size_t)(p - b)); e->n += (int)(p - b); c_flush(); if (vp_choose(2, "the end")) { vp_run_others(); } else { e->dead = 1; cn_refuse = 1; vp_run_others(); }
  int whole = m1 == 0xAAAA && m2 == 0xAAAA && hl == 59 && xtl == tl && xrl == rl && pl <= sent; for (int i = 0; i < ngot; i++) { int ok = whole && i == 0 && got[i].who == 1 && cd == 7 && got[i].n == pl && vp_memeq(got[i].d, q, pl) && got[i].seq == sq; if (!ok) vp_error("a message was delivered that was not sent"); } if (f == 5 && cd == 7 && !(fl & rtMessageFlags_Response)) vp_check(ngot == 1, "a whole message is delivered"); c_stop(); }
/* any bytes at all */
static void stream(void) { c_start(); rtConnection_AddListenerWithId(C, "a.b", 7, c_cb, (void*)1); vp_run_others(); int n = (int)vp_param("n", 12); unsigned char b[64]; vp_bytes(b, (size_t)n, "byte"); struct cep* e = &ce[cur]; memcpy(e->in, b, (size_t)n); e->o = 0; e->n = n; c_flush(); vp_run_others(); c_stop(); vp_reach("any bytes"); }
/* a listener takes its time: messages wait for it, answers do not */
static int hold, held; static int c_free(void* a) { (void)a; return !hold; } static void slow(int i) { if (i == 0) { held = 1; vp_wait_until(c_free, 0); } } static int c_held(void* a) { (void)a; return held; }
static void* answering(void* a) { (void)a; vp_wait_until(c_held, 0); int n = (int)vp_param("more", 24); for (int i = 1; i <= n; i++) { unsigned char b = (unsigned char)i; c_put("a.b", "", (uint32_t)i, 0, 7, &b, 1); } struct cmsg* m = 0; for (int i = 0; i < ncout; i++) if (!strcmp(cout_[i].topic, "r.q")) m = &cout_[i]; if (!m) { vp_end_path(); } c_put(rtConnection_GetReturnAddress(C), "r.q", m->seq, rtMessageFlags_Response, 1, "ok", 2); c_flush(); return 0; }
static int c_asked(void* a) { (void)a; return ncout > 0; }
static void* calling(void* a) { (void)a; vp_wait_until(c_asked, 0); unsigned char b = 0; c_send("a.b", "", 0, 0, 7, &b, 1); return 0; }
static void queue(void) { c_start(); rtConnection_AddListenerWithId(C, "a.b", 7, c_cb, (void*)1); vp_run_others(); ncout = 0; hold = 1; c_cb_hook = slow; pthread_t t1, t2; pthread_create(&t1, NULL, answering, 0); pthread_create(&t2, NULL, calling, 0); uint8_t* r; uint32_t rn; rtError e = rtConnection_SendBinaryRequest(C, (const uint8_t*)"q", 1, "r.q", &r, &rn, 3000); vp_check(e == RT_OK && rn == 2 && held && hold, "an answer does not wait for a listener that takes its time"); if (e == RT_OK) free(r); pthread_join(t1, NULL); pthread_join(t2, NULL); vp_check(ngot == 1, "one message is handled at a time"); hold = 0; vp_run_others(); int n = (int)vp_param("more", 24), ok = 1; for (int i = 1; i < ngot; i++) ok = ok && got[i].d[0] == i && got[i].seq == (uint32_t)i; vp_check(ok && (n > 25 ? ngot > 25 : ngot == n + 1), "messages that wait are handled in order, up to 25 of them"); int g = ngot; c_send("a.b", "", 99, 0, 7, "z", 1); vp_run_others(); vp_check(ngot == g + 1 && got[g].seq == 99, "messages are handled again once the listener returned"); c_stop(); }
/* closed while messages wait, or while a listener runs */
static void closing(void) { c_start(); rtConnection_AddListenerWithId(C, "a.b", 7, c_cb, (void*)1); vp_run_others(); vp_set_preempt((int)vp_param("preempt", 1)); int n = 1 + (int)vp_choose(2, "messages"); for (int i = 0; i < n; i++) { unsigned char b = (unsigned char)i; c_put("a.b", "", (uint32_t)i, 0, 7, &b, 1); } ce[cur].lim = ce[cur].n - (vp_choose(2, "cut") ? 10 : 0); if (vp_choose(2, "at once") == 0) vp_run_others(); c_stop(); int ok = 1; for (int i = 0; i < ngot; i++) ok = ok && got[i].d[0] == i; vp_check(ok && ngot <= n, "no message is handled twice or after a later one"); }
/* payloads around the size of what a message is kept in, for a listener and as an answer */
static unsigned char lb[66200]; static int lok;
static uint32_t l_at; static void l_cb(rtMessageHeader const* h, uint8_t const* b, uint32_t n, void* cl) { (void)h; (void)cl; lok += n == (uint32_t)c_altn - l_at && !memcmp(b, lb + l_at, n); }
static void l_put(const char* topic, const char* reply, uint32_t seq, uint32_t flags, uint32_t cd, uint32_t n) { unsigned char* p = lb; uint32_t tl = (uint32_t)strlen(topic), rl = (uint32_t)strlen(reply); w16(&p, 0xAAAA); w16(&p, 2); w16(&p, 52 + tl + rl); w32(&p, seq); w32(&p, flags); w32(&p, cd); w32(&p, n); w32(&p, tl); memcpy(p, topic, tl); p += tl; w32(&p, rl); memcpy(p, reply, rl); p += rl; for (int i = 0; i < 5; i++) w32(&p, 0); w16(&p, 0xAAAA); l_at = (uint32_t)(p - lb); memset(p, 'q', n); p[0] = vp_u8("first"); p[n - 1] = vp_u8("last"); c_alt = lb; c_alto = 0; c_altn = (int)(l_at + n); }
static uint32_t l_n; static int l_asked(void* a) { (void)a; return ncout > 0; } static void* l_answer(void* a) { (void)a; vp_wait_until(l_asked, 0); l_put(rtConnection_GetReturnAddress(C), "r.q", cout_[0].seq, rtMessageFlags_Response | rtMessageFlags_RawBinary, 1, l_n); return 0; }
static void large(void) { c_start(); rtConnection_AddListenerWithId(C, "a.b", 7, l_cb, 0); vp_run_others(); l_n = vp_param("base", 8186) + vp_choose(12, "len"); l_put("a.b", "", 1, 0, 7, l_n); vp_run_others(); vp_check(lok == 1, "a large message reaches its listener whole"); ncout = 0; pthread_t t; pthread_create(&t, NULL, l_answer, 0); uint8_t* r; uint32_t rn; rtError e = rtConnection_SendBinaryRequest(C, (const uint8_t*)"q", 1, "r.q", &r, &rn, 3000); vp_check(e == RT_OK && rn == l_n && !memcmp(r, lb + l_at, rn), "a large answer is returned whole"); if (e == RT_OK) free(r); pthread_join(t, NULL); l_put("a.b", "", 1, 0, 7, 5); vp_run_others(); vp_check(lok == 2, "messages arrive after a large one"); c_stop(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: deliver(); break; case 1: history(); break; case 2: full(); break; case 3: malformed(); break; case 4: stream(); break; case 5: queue(); break; case 6: closing(); break; case 7: large(); break; } return 0; }
