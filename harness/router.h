/* The router as it is, main() and all, over a stand-in for its sockets. */
#ifndef ROUTER_H
#define ROUTER_H
#include "vp.h"
#include "vp_env.h"
#include "env.h"
#include <getopt.h>
static int r_getopt(void) { return -1; }
#define main rtrouted_main
#define getopt_long(...) r_getopt()
#define daemon(a, b) 0
#include "rtrouted.c"
#undef main
#undef getopt_long
#undef daemon
const char* rtStrError(rtError e) { (void)e; return "error"; } rtError rtErrorFromErrno(int e) { return e == EBADF ? RT_ERROR_CLASS_SYSERROR << 16 | EBADF : RT_ERROR; }
rtError _rtConnection_ReadAndDropBytes(int fd, unsigned int n) { (void)fd; (void)n; vp_incomplete("no memory for a message"); return RT_OK; }
enum { RC = 5, ROUT = 24, RSTREAM = 1400, RPAY = 400 };
struct rcl { int fd, open, gone, used; unsigned char in[RSTREAM]; int n, o, lim; }; static struct rcl rcl[RC]; static int rnc, r_wait = -1, r_ready = -1, r_lfd = -1, r_done, r_nextfd = 20;
struct rout { int c; uint32_t hl, seq, flags, cd, pl; char topic[260], reply[260]; unsigned char pay[RPAY]; int sent; }; static struct rout rout[ROUT]; static int nrout; static int r_bigrecv;
static uint32_t be(const unsigned char* p, int n) { uint32_t v = 0; while (n--) v = v << 8 | *p++; return v; }
static int r_byfd(int fd) { for (int i = 0; i < rnc; i++) if (rcl[i].fd == fd && rcl[i].used) return i; return -1; }
static int r_isl[200]; static int r_socket(void) { int f = r_nextfd++; r_isl[f % 200] = 1; if (r_lfd < 0) r_lfd = f; return f; }
static int r_accept(int fd) { if (fd != r_lfd || r_wait < 0) vp_error("accept without a client waiting"); rcl[r_wait].fd = r_nextfd++; rcl[r_wait].open = 1; int f = rcl[r_wait].fd; r_wait = -1; return f; }
static ssize_t r_recv(int fd, void* p, size_t n) { int c = r_byfd(fd); if (c < 0 || !rcl[c].open) { vp_error("read from a descriptor that is not open"); errno = EBADF; return -1; } struct rcl* k = &rcl[c]; if (n == 0) return 0; if (k->gone && k->o == k->n) return 0; int av = k->lim - k->o; if (av <= 0) { vp_error("the router waits for one client"); vp_end_path(); } if (n > 0x7fffffff) r_bigrecv = 1; size_t m = n < (size_t)av ? n : (size_t)av; m = (size_t)vp_concretize(m); memcpy(p, k->in + k->o, m); k->o += (int)m; return (ssize_t)m; }
static int r_str(char* d, const unsigned char* p, uint32_t n) { if (n > 255) return 0; memcpy(d, p, n); d[n] = 0; return 1; }
static unsigned char r_buf[70000];
static ssize_t r_sendmsg(int fd, const struct msghdr* m) { int c = r_byfd(fd); if (c < 0 || !rcl[c].open) { vp_error("written to a descriptor that is not open"); errno = EBADF; return -1; } if (rcl[c].gone) { errno = EPIPE; return -1; } size_t t = 0; for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) { size_t l = m->msg_iov[i].iov_len; if (t + l > sizeof r_buf) { vp_error("an impossible message was written"); vp_end_path(); } memcpy(r_buf + t, m->msg_iov[i].iov_base, l); t += l; }
  if (nrout >= ROUT) { vp_incomplete("too many messages"); return (ssize_t)t; } struct rout* r = &rout[nrout++]; r->c = c; r->hl = be(r_buf + 4, 2); r->seq = be(r_buf + 6, 4); r->flags = be(r_buf + 10, 4); r->cd = be(r_buf + 14, 4); r->pl = be(r_buf + 18, 4); uint32_t tl = be(r_buf + 22, 4); int ok = r_str(r->topic, r_buf + 26, tl); uint32_t rl = 0; if (ok) { rl = be(r_buf + 26 + tl, 4); ok = r_str(r->reply, r_buf + 30 + tl, rl); }
  ok = ok && be(r_buf, 2) == 0xAAAA && be(r_buf + 2, 2) == 2 && r->hl == 52 + tl + rl && be(r_buf + r->hl - 2, 2) == 0xAAAA && r->hl + r->pl == t; vp_check(ok, "every message the router sends is well formed"); if (!ok) vp_end_path(); memset(r->pay, 0, sizeof r->pay); memcpy(r->pay, r_buf + r->hl, r->pl < RPAY ? r->pl : RPAY - 1); return (ssize_t)t; }
static int r_close(int fd) { int c = r_byfd(fd); if (c < 0 || !rcl[c].open) { if (fd < 0 || !r_isl[fd % 200]) vp_error("closed a descriptor that is not open"); else r_isl[fd % 200] = 0; return 0; } rcl[c].open = 0; rcl[c].used = 0; return 0; }
static int r_select(int n, fd_set* r) { (void)n; r_ready = -1; vp_thread_switch(0); FD_ZERO(r); int k = 0; if (r_wait >= 0) { FD_SET(r_lfd, r); k++; } if (r_ready >= 0) { FD_SET(rcl[r_ready].fd, r); k++; } return k; }
static void r_thread(void* a) { (void)a; static char* av[] = { "rtrouted", 0 }; rtrouted_main(1, av); r_done = 1; for (;;) vp_thread_switch(0); }
static uint32_t r_tid;
static void r_run(void) { if (!r_done) vp_thread_switch(r_tid); }
static void r_start(void) { vp_sock = (struct vp_sock_hooks){ .socket = r_socket, .accept = r_accept, .recv = r_recv, .sendmsg = r_sendmsg, .close = r_close, .select = r_select }; r_tid = vp_thread_spawn(r_thread, 0); r_run(); }
static int r_connect(void) { int c = rnc++; if (c >= RC) { vp_incomplete("too many clients"); vp_end_path(); } rcl[c].used = 1; rcl[c].fd = -2; r_wait = c; r_run(); vp_check(rcl[c].open, "a client that connects is accepted"); return c; }
/* let the router read all there is, up to the next cut */
static void r_pump(int c) { while (rcl[c].open && rcl[c].o < rcl[c].lim && !r_done) { r_ready = c; r_run(); } }
static void r_gone(int c) { rcl[c].gone = 1; r_pump(c); if (rcl[c].open) { r_ready = c; r_run(); } vp_check(!rcl[c].open, "a client that has gone is dropped"); }
static void w16(unsigned char** p, uint32_t v) { *(*p)++ = (unsigned char)(v >> 8); *(*p)++ = (unsigned char)v; } static void w32(unsigned char** p, uint32_t v) { w16(p, v >> 16); w16(p, v); }
static int r_put(int c, const char* topic, const char* reply, uint32_t seq, uint32_t flags, uint32_t cd, const void* pay, uint32_t n) { struct rcl* k = &rcl[c]; uint32_t tl = (uint32_t)strlen(topic), rl = (uint32_t)strlen(reply); if (k->n + 52 + (int)(tl + rl + n) > RSTREAM) { vp_incomplete("stream full"); vp_end_path(); } unsigned char* p = k->in + k->n; w16(&p, 0xAAAA); w16(&p, 2); w16(&p, 52 + tl + rl); w32(&p, seq); w32(&p, flags); w32(&p, cd); w32(&p, n); w32(&p, tl); memcpy(p, topic, tl); p += tl; w32(&p, rl); memcpy(p, reply, rl); p += rl; for (int i = 0; i < 5; i++) w32(&p, 0); w16(&p, 0xAAAA); memcpy(p, pay, n); p += n; k->n = (int)(p - k->in); return k->n; }
static int r_last; /* how much of the stream the last message took */
static void r_send(int c, const char* topic, const char* reply, uint32_t seq, uint32_t flags, const void* pay, uint32_t n) { rcl[c].lim = r_put(c, topic, reply, seq, flags, 0, pay, n); r_pump(c); r_last = rcl[c].lim; if (rcl[c].o == rcl[c].n) rcl[c].o = rcl[c].n = rcl[c].lim = 0; }
static int r_json_int(const struct rout* r, const char* k, int32_t* v) { rtMessage m; if (rtMessage_FromBytes(&m, r->pay, (int)r->pl) != RT_OK) return 0; int ok = rtMessage_GetInt32(m, k, v) == RT_OK; rtMessage_Release(m); return ok; }
/* subscribe or unsubscribe; the result the router answers, or -1 if none came */
static int32_t r_sub(int c, int add, const char* topic, int id, const char* inbox) { char js[300]; int n = snprintf(js, sizeof js, "{\"add\":%d,\"topic\":\"%s\",\"route_id\":%d}", add, topic, id); int b = nrout; r_send(c, "_RTROUTED.INBOX.SUBSCRIBE", inbox, 77, rtMessageFlags_Request, js, (uint32_t)n); int32_t v = -1; for (int i = b; i < nrout; i++) if (rout[i].c == c && !strcmp(rout[i].topic, inbox)) { if (!(rout[i].flags == rtMessageFlags_Response && rout[i].seq == 77 && r_json_int(&rout[i], "result", &v))) v = -2; for (int j = i; j + 1 < nrout; j++) rout[j] = rout[j + 1]; nrout--; break; } return v; }
static void r_inbox(int c, char* s) { strcpy(s, "c0.INBOX.1"); s[1] = (char)('0' + c); }
static int r_client(void) { int c = r_connect(); char s[32]; r_inbox(c, s); vp_check(r_sub(c, 1, s, 1, s) == RT_OK, "a client registers where its answers go"); return c; }
static void r_stop(int c) { r_send(c, RTROUTER_DIAG_DESTINATION, "", 1, 0, "{\"" RTROUTER_DIAG_CMD_KEY "\":\"" RTROUTER_DIAG_CMD_SHUTDOWN "\"}", (uint32_t)strlen("{\"" RTROUTER_DIAG_CMD_KEY "\":\"" RTROUTER_DIAG_CMD_SHUTDOWN "\"}")); vp_check(r_done, "the router still serves requests, and stops when told"); }
/* messages around and beyond the size of the reader's buffer; bigfrom sends them to the first client, or to nobody */
static unsigned char big[70200];
static int r_bigrecv_from; static ssize_t big_recv(int fd, void* p, size_t n) { if (r_byfd(fd) != r_bigrecv_from) return r_recv(fd, p, n); struct rcl* k = &rcl[r_bigrecv_from]; int av = k->lim - k->o; if (n == 0) return 0; size_t m = n < (size_t)av ? n : (size_t)av; memcpy(p, big + k->o, m); k->o += (int)m; return (ssize_t)m; }
static int bn; static int bigok; static ssize_t big_sendmsg(int fd, const struct msghdr* m) { if (r_byfd(fd) != 0) return r_sendmsg(fd, m); size_t t = 0; for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) { if (t + m->msg_iov[i].iov_len > sizeof r_buf) { vp_error("an impossible message was written"); vp_end_path(); } memcpy(r_buf + t, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); t += m->msg_iov[i].iov_len; } nrout++; bigok = (int)t == bn && !memcmp(r_buf + 22, big + 22, (size_t)bn - 22); return (ssize_t)t; }
static int big_turns(int b, const char* t, int n, int cuts) { unsigned char* p = big; uint32_t tl = (uint32_t)strlen(t); w16(&p, 0xAAAA); w16(&p, 2); w16(&p, 52 + tl); w32(&p, 1); w32(&p, 0); w32(&p, 0); w32(&p, (uint32_t)n); w32(&p, tl); memcpy(p, t, tl); p += tl; w32(&p, 0); for (int i = 0; i < 5; i++) w32(&p, 0); w16(&p, 0xAAAA); memset(p, 'q', (size_t)n); p[0] = vp_u8("first"); p[n - 1] = vp_u8("last"); bn = (int)(p + n - big); vp_sock.recv = big_recv; vp_sock.sendmsg = big_sendmsg; r_bigrecv_from = b; int ok = 1;
  for (int turn = 0; turn < 2; turn++) { rcl[b].o = 0; nrout = 0; bigok = 0; int cut[3] = { 30, bn - 1, bn }; for (int i = cuts && vp_choose(2, "cut") ? 0 : 2; i < 3; i++) { rcl[b].lim = cut[i]; r_pump(b); } ok = ok && nrout == 1 && bigok; }
  vp_sock.recv = r_recv; vp_sock.sendmsg = r_sendmsg; rcl[b].o = rcl[b].n = rcl[b].lim = 0; return ok; }
#endif
