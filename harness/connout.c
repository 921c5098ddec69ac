/* What is sent over a connection is written whole, whatever the socket takes at a time and whenever the router goes away. */
#include "conn.h"
enum { NM = 6 }; static struct sm { int kind, thread; uint32_t seq, T1, T2, T3; unsigned char p[4]; uint32_t l; int long_; rtError e; } sm[NM]; static int nsm; static unsigned char big[600];
static const char* DEST[] = { "a.b", "c2.INBOX.1", "q" };
static void sendone(struct sm* m) { rtMessageHeader h; rtMessage j; switch (m->kind) {
  case 0: m->e = rtConnection_SendBinary(C, m->p, m->l, "a.b"); break;
  case 1: m->e = rtConnection_SendBinaryDirect(C, m->p, m->l, "a.b", m->thread ? "mi" : "me"); break;
  case 2: case 4: rtMessageHeader_Init(&h); h.sequence_number = m->seq; strcpy(h.topic, "a.b"); strcpy(h.reply_topic, "c2.INBOX.1"); h.T1 = (int)m->T1; h.T2 = (int)m->T2; h.T3 = (int)m->T3; if (m->kind == 2) m->e = rtConnection_SendBinaryResponse(C, &h, m->p, m->l, 100); else { rtMessage_Create(&j); rtMessage_SetInt32(j, "add", (int32_t)m->p[0]); rtMessage_SetString(j, "topic", "v"); m->e = rtConnection_SendResponse(C, &h, j, 100); rtMessage_Release(j); } break;
  case 3: rtMessage_Create(&j); rtMessage_SetInt32(j, "add", (int32_t)m->p[0]); rtMessage_SetString(j, "topic", "v"); m->e = rtConnection_SendMessage(C, j, "a.b"); rtMessage_Release(j); break;
  case 5: m->e = rtConnection_SendBinary(C, big, 300, "a.b"); break; } }
/* is r what m was meant to be */
static int same(const struct cmsg* r, const struct sm* m) { int32_t v; char t[32]; int rsp = m->kind == 2 || m->kind == 4, js = m->kind == 3 || m->kind == 4; if (strcmp(r->topic, rsp ? "c2.INBOX.1" : "a.b") || strcmp(r->reply, rsp ? "a.b" : m->kind == 1 ? m->thread ? "mi" : "me" : "")) return 0; if (r->flags != (uint32_t)((rsp ? rtMessageFlags_Response : 0) | (js ? 0 : rtMessageFlags_RawBinary)) || (rsp && r->seq != m->seq) || r->cd != 0) return 0; if (js) return c_json(r, "add", &v, t, sizeof t) && v == m->p[0] && !strcmp(t, "v"); if (m->kind == 5) return r->pl == 300 && vp_memeq(r->pay, big, 299); return r->pl == m->l && vp_memeq(r->pay, m->p, m->l); }
static void* sender(void* a) { for (int i = 0; i < nsm; i++) if (sm[i].thread == (int)(intptr_t)a) sendone(&sm[i]); return 0; }
static void make(int n, int threads) { nsm = n; for (int i = 0; i < n; i++) { struct sm* m = &sm[i]; m->thread = threads ? i % 2 : 0; m->kind = vp_param("kind", 9) < 6 && i == 0 ? (int)vp_param("kind", 9) : vp_param("kind2", 9) < 6 ? (int)vp_param("kind2", 9) : (int)vp_choose(6, "kind"); m->l = m->kind == 5 ? 300 : (uint32_t)vp_choose(2, "length") * 3; m->seq = vp_u32("seq"); m->T1 = vp_u32("T1"); m->T2 = vp_u32("T2"); m->T3 = vp_u32("T3"); if (m->kind == 3 || m->kind == 4) m->p[0] = (unsigned char)(40 + i); else vp_bytes(m->p, m->l < 3 ? m->l : 3, "byte"); } }
/* the messages of each thread are all there, in order and nothing else */
static void compare(int b) { int nx[2] = { 0, 0 }, ok = 1; uint32_t last[2] = { 0, 0 }; for (int k = b; ok && k < ncout; k++) { int hit = 0; for (int t = 0; t < 2 && !hit; t++) { int i = nx[t]; while (i < nsm && sm[i].thread != t) i++; if (i < nsm && same(&cout_[k], &sm[i])) { hit = 1; nx[t] = i + 1; } } ok = hit; } (void)last; int n = 0; for (int i = 0; i < nsm; i++) n += sm[i].e == RT_OK; vp_check(ok, "what is written is what was sent, in each thread's order"); vp_check(n == nsm && ncout - b == nsm, "every message sent is written once"); }
static void sending(void) { c_start(); memset(big, 'g', sizeof big); int thr = (int)vp_param("threads", 0); make((int)vp_param("n", 2), thr); vp_set_preempt((int)vp_param("preempt", 0)); cn_short = (int)vp_param("short", 0); cn_eintr = (int)vp_param("eintr", 0); int b = ncout; pthread_t t; if (thr) pthread_create(&t, NULL, sender, (void*)1); sender(0); if (thr) pthread_join(t, NULL); vp_set_preempt(0); cn_short = cn_eintr = 0; compare(b); c_stop(); }
/* names and payloads of any size */
static void sizes(void) { c_start(); static char t[300]; static unsigned char p[3000]; int n = 1 + (int)vp_choose(6, "name") * 50, l = (int)vp_choose(4, "size") * 900; if (n > 255) n = 255; memset(t, 'n', (size_t)n); t[n] = 0; for (int i = 0; i < l; i++) p[i] = (unsigned char)i; p[0] = vp_u8("first"); ncout = 0; rtError e = rtConnection_SendBinaryDirect(C, p, (uint32_t)l, t, t); vp_check(e == RT_OK && ncout == 1 && (int)cout_[0].pl == l && vp_memeq(cout_[0].pay, p, (size_t)(l < 290 ? l : 290)) && !strcmp(cout_[0].topic, t) && !strcmp(cout_[0].reply, t), "names and payloads of every size are written whole"); c_stop(); }
/* the router goes away at any point and comes back */
static int asked; static int c_newreq(void* a) { (void)a; return ncout > asked; } static int quit_; static int c_work(void* a) { return quit_ || c_newreq(a); }
static void* replier(void* a) { (void)a; while (!quit_) { vp_wait_until(c_work, 0); for (; asked < ncout; asked++) { struct cmsg* m = &cout_[asked]; if ((m->flags & rtMessageFlags_Request) && m->ep == cur && !ce[cur].dead) c_send(m->reply, m->topic, m->seq, rtMessageFlags_Response | rtMessageFlags_RawBinary, 1, "yes", 3); } } return 0; }
static int registered(const char* n, int id) { int k = 0; int32_t r; for (int i = 0; i < ncout; i++) if (cout_[i].ep == cur && c_is_sub(&cout_[i], 1, n, &r) && (!id || r == id)) k++; return k; }
static void settle(void) { for (int i = 0; i < 40; i++) { vp_run_others(); if (!vp_fire_timeouts()) break; } vp_run_others(); }
static void gone(void) { c_start(); vp_fair = 25; rtConnection_AddListenerWithId(C, "gap", 6, c_cb, (void*)9); rtConnection_AddListenerWithId(C, "a.b", 7, c_cb, (void*)1); rtConnection_AddListenerWithId(C, "x.y", 8, c_cb, (void*)2); rtConnection_RemoveListener(C, "gap"); vp_run_others(); asked = ncout; pthread_t t; pthread_create(&t, NULL, replier, 0); vp_run_others(); vp_set_preempt((int)vp_param("preempt", 0));
  int how = (int)vp_choose(3, "how"); int op = (int)vp_param("op", 0), end = cur; cn_refuse = (int)vp_choose(3, "refused"); cn_nosock = (int)vp_choose(2, "no socket"); int again = (int)vp_choose(2, "again"); if (how == 0) { ce[cur].dead = 1; vp_run_others(); } else if (how == 1) ce[cur].dead = 1; else cn_die = 0; if (again) { int w = (int)vp_choose(3, "when"); if (how == 2) cn_die2 = w; else cn_die = w; }
  rtError e = RT_OK; uint8_t* r = 0; uint32_t rn = 0; switch (op) { case 0: break; case 1: e = rtConnection_SendBinary(C, (const uint8_t*)"pay", 3, "d.e"); break; case 2: e = rtConnection_SendBinaryRequest(C, (const uint8_t*)"req", 3, "d.e", &r, &rn, 500); if (e == RT_OK) { vp_check(rn == 3 && !memcmp(r, "yes", 3), "a request gets its answer after the router came back"); free(r); } break; case 3: e = rtConnection_AddListenerWithId(C, "new", 9, c_cb, (void*)3); break; case 4: e = rtConnection_RemoveListener(C, "x.y"); break; }
  settle(); if (how == 2 && op == 0) { vp_end_path(); } vp_set_preempt(0); if (!(cur > end && ce[cur].open && !ce[cur].dead)) { if (cn_die >= 0 || again) { cn_die = cn_die2 = -1; rtConnection_SendBinary(C, (const uint8_t*)"p", 1, "wake"); settle(); } } vp_check(cur > end && ce[cur].open && !ce[cur].dead, "a client connects again when the router is back"); cn_die = cn_die2 = -1;
  vp_check(registered(rtConnection_GetReturnAddress(C), 0) >= 1 && registered("a.b", 7) >= 1 && (op == 4 || registered("x.y", 8) >= 1) && (op != 3 || e != RT_OK || registered("new", 9) >= 1), "every listener is registered again when the router is back"); vp_check(registered("gap", 0) == 0, "a listener that was removed is not registered again");
  if (op == 1 && e == RT_OK) { int k = 0; for (int i = 0; i < ncout; i++) k += !strcmp(cout_[i].topic, "d.e") && cout_[i].pl == 3 && !memcmp(cout_[i].pay, "pay", 3); vp_check(k == 1, "a message sent is written to the router once"); }
  int g = ngot; c_send("a.b", "", 3, 0, 7, "m", 1); vp_run_others(); vp_check(ngot == g + 1 && got[g].who == 1 && got[g].d[0] == 'm', "messages arrive again after the router came back"); e = rtConnection_SendBinaryRequest(C, (const uint8_t*)"req", 3, "f.g", &r, &rn, 500); vp_check(e == RT_OK && rn == 3, "requests are answered again after the router came back"); if (e == RT_OK) free(r); quit_ = 1; pthread_join(t, NULL); c_stop(); }
/* no router at all */
static void nobody(void) { c_hooks(); c_warm(); c_base = vp_heap_live(); cn_refuse = (int)vp_choose(5, "refused"); cn_nosock = (int)vp_choose(2, "no socket"); static const char* A[] = { "unix:///tmp/x", "tcp://1.2.3.4:5", "tcp://:5", "tcp://a", "nothing", "", "tcp://1.2.3:99" }; uint32_t a = vp_choose(7, "address"); rtError e = rtConnection_Create(&C, "app", A[a]); int ok = a < 2 && cn_nosock == 0 && e == RT_OK; if (e == RT_OK) { vp_check(ok && C, "a connection is made only if there is a router"); vp_run_others(); c_stop(); } else { vp_check(C == 0, "no connection is returned if there is no router"); vp_check(c_open() == 0 && vp_heap_live() == c_base && vp_run_others() == 0, "nothing is left of a connection that could not be made"); } }
int main(void) { switch (vp_param("scen", 0)) { case 0: sending(); break; case 1: sizes(); break; case 2: gone(); break; case 3: nobody(); break; } return 0; }
