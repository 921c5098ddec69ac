/* A request over a connection gets the answer to it. */
#include "conn.h"
/* requests of two threads, answered in any order, twice, late, by mistake or never */
static struct rq { uint8_t p[3]; int np; rtError e; uint8_t* r; uint32_t rn; int done; uint32_t seq; int seen, ans; uint8_t a[3]; uint32_t an; int undel; } rq[3]; static int fired, nreq, nextra;
static void request(int i) { rq[i].e = rtConnection_SendBinaryRequest(C, rq[i].p, (uint32_t)rq[i].np, i ? "s.t" : "a.b", &rq[i].r, &rq[i].rn, 1000); rq[i].done = 1; }
static void* requester(void* a) { request((int)(intptr_t)a); return 0; }
static int scanned; static void scan(void) { for (; scanned < ncout; scanned++) { struct cmsg* m = &cout_[scanned]; if (!strcmp(m->topic, "TransactionTime")) { nextra++; continue; } int i = !strcmp(m->topic, "a.b") ? 0 : 1; vp_check(!rq[i].seen && m->flags == (rtMessageFlags_Request | rtMessageFlags_RawBinary) && !strcmp(m->reply, rtConnection_GetReturnAddress(C)) && (int)m->pl == rq[i].np && vp_memeq(m->pay, rq[i].p, m->pl), "a request is sent once as it was given"); rq[i].seen = 1; rq[i].seq = m->seq; } }
static int outready(void* a) { (void)a; int d = 1; for (int i = 0; i < nreq; i++) d = d && rq[i].done; return ncout > scanned || d; }
static void answer(int i, int undel) { uint8_t a[3]; uint32_t n = 1 + (uint32_t)vp_choose(2, "answer length"); vp_bytes(a, n, "answer"); if (!rq[i].ans) { rq[i].ans = 1; memcpy(rq[i].a, a, n); rq[i].an = n; rq[i].undel = undel; } c_send(rtConnection_GetReturnAddress(C), i ? "s.t" : "a.b", rq[i].seq, rtMessageFlags_Response | (undel ? rtMessageFlags_Undeliverable : rtMessageFlags_RawBinary), 1, a, n); }
static void* network(void* x) { (void)x; int left = (int)vp_param("acts", 3), first = 1; for (;;) { vp_wait_until(outready, 0); scan(); int d = 1; for (int i = 0; i < nreq; i++) d = d && rq[i].done; if (d) break; for (;;) { if (left <= 0) break; uint32_t c = first && vp_param("act0", 9) < 6 ? (uint32_t)vp_param("act0", 9) : vp_choose(6, "network"); first = 0; left--; if (c == 5) break; if (c < 2) { if (!rq[c].seen || (int)c >= nreq) { vp_end_path(); } answer((int)c, 0); } else if (c == 2) { int i = nreq > 1 ? (int)vp_choose(2, "whose") : 0; if (!rq[i].seen) vp_end_path(); answer(i, 1); } else if (c == 3) { uint32_t s = vp_u32("stray"); for (int i = 0; i < nreq; i++) vp_assume(!rq[i].seen || s != rq[i].seq); vp_assume(s > 40); c_send(rtConnection_GetReturnAddress(C), "q", s, rtMessageFlags_Response, 1, "zz", 2); } else { vp_wall_off -= 3600000000000LL; /* somebody sets the clock */ if (!vp_fire_timeouts()) vp_end_path(); fired = 1; } vp_yield(); } } return 0; }
static void requests(void) { c_start(); vp_set_preempt((int)vp_param("preempt", 1)); vp_spurious = (int)vp_param("spurious", 0); nreq = (int)vp_param("n", 2); for (int i = 0; i < nreq; i++) { rq[i].np = 1 + i; vp_bytes(rq[i].p, (size_t)rq[i].np, "request"); } pthread_t tn, tr; pthread_create(&tn, NULL, network, 0); if (nreq > 1) pthread_create(&tr, NULL, requester, (void*)1); request(0); if (nreq > 1) pthread_join(tr, NULL); pthread_join(tn, NULL); vp_run_others(); scan();
  for (int i = 0; i < nreq; i++) { struct rq* q = &rq[i]; vp_check(q->seen, "a request is sent"); if (q->e == RT_OK) { vp_check(q->ans && !q->undel && q->rn == q->an && vp_memeq(q->r, q->a, q->an), "a request gets the first answer to it"); free(q->r); } else if (q->e == RT_OBJECT_NO_LONGER_AVAILABLE) vp_check(q->ans && q->undel, "a request fails as undeliverable only if it is"); else vp_check(q->e == RT_ERROR_TIMEOUT && (!q->ans || fired), "a request fails only if no answer came in time"); }
  c_stop(); }
/* nobody answers: the request ends when its time is up */
static struct timespec dl_at; static int dl_n; static int dl_hook(const struct timespec* t) { if (vp_thread_self() != 0) return 0; dl_at = *t; dl_n++; vp_check((t->tv_nsec >= 0) & (t->tv_nsec < 1000000000), "a request waits for a point in time there is"); vp_now_ns += 200000000000LL; return 0; }
static void deadline(void) { c_start(); vp_now_ns += (int64_t)vp_choose(3, "when") * 499999000; uint32_t ms = vp_u32("timeout"); vp_assume((ms > 0) & (ms <= 100000)); int how = (int)vp_choose(3, "how"); int64_t t0 = vp_now_ns; vp_timedwait_hook = dl_hook; rtError e = 0; uint8_t* r = 0; uint32_t n = 0; rtMessage q = 0, a = 0;
  if (how == 0) e = rtConnection_SendBinaryRequest(C, (const uint8_t*)"q", 1, "a.b", &r, &n, (int32_t)ms); else { rtMessage_Create(&q); rtMessage_SetInt32(q, "v", 1); if (how == 1) e = rtConnection_SendRequest(C, q, "a.b", &a, (int32_t)ms); else { rtMessageHeader h; (void)h; e = rtConnection_SendBinaryRequest(C, (const uint8_t*)"", 0, "a.b", &r, &n, (int32_t)ms); } rtMessage_Release(q); }
  vp_check(e == RT_ERROR_TIMEOUT, "a request nobody answers fails when its time is up"); vp_timedwait_hook = 0; int64_t s = dl_at.tv_sec - t0 / 1000000000LL - ms / 1000, d = dl_at.tv_nsec - t0 % 1000000000LL - (int64_t)(ms % 1000) * 1000000; vp_check((dl_n > 0) & (((s == 0) & (d >= -1000000) & (d <= 50000000)) | ((s == 1) & (d >= -1001000000) & (d <= -950000000))), "a request waits as long as it was told"); c_stop(); }
int main(void) { switch (vp_param("scen", 0)) { case 0: requests(); break; case 1: deadline(); break; } return 0; }
