/* A client's connection as it is, both its threads included, over a stand-in for its socket. */
#ifndef CONN_H
#define CONN_H
#include "vp.h"
#include "vp_env.h"
#include "env.h"
#include <rtConnection.h>
#include <rtMessage.h>
#include <rtMessageHeader.h>
#include <rtError.h>
#include <rtTime.h>
const char* rtStrError(rtError e) { (void)e; return "error"; } rtError rtErrorFromErrno(int e) { return (rtError)(RT_ERROR_CLASS_SYSERROR << 16 | e); }
enum { CE = 4, CSTREAM = 4096, COUT = 40, CPAY = 300, CIN = 48 };
/* one connection after another; each has a stream in and a stream out */
struct cep { int open, dead, shut; unsigned char in[CSTREAM], out[CSTREAM]; int n, o, lim, on; };
static struct cep ce[CE]; static int cur = -1; enum { CFD = 30 };
static int cn_cuts, cn_short, cn_eintr, cn_refuse, cn_nosock, cn_die = -1, cn_die2 = -1; /* how much may still go wrong */
struct cmsg { int ep; uint32_t hl, seq, flags, cd, pl; char topic[260], reply[260]; unsigned char pay[CPAY]; }; static struct cmsg cout_[COUT]; static int ncout;
static uint32_t be(const unsigned char* p, int n) { uint32_t v = 0; while (n--) v = v << 8 | *p++; return v; }
static struct cep* ep(int fd) { for (int i = cur; i >= 0 && i >= cur - 1; i--) if (ce[i].open && fd == CFD + (i & 1)) return &ce[i]; return 0; } static int c_open(void) { int n = 0; for (int i = 0; i < CE; i++) n += ce[i].open; return n; }
static int c_socket(void) { if (cn_nosock > 0) { cn_nosock--; errno = EMFILE; return -1; } if (++cur >= CE) { vp_incomplete("too many connections"); vp_end_path(); } if (c_open() > 1) { vp_error("a descriptor was lost"); vp_end_path(); } ce[cur].open = 1; return CFD + (cur & 1); }
static int c_connect(int fd) { (void)fd; if (cn_refuse > 0) { cn_refuse--; errno = ECONNREFUSED; return -1; } return 0; }
static int c_close(int fd) { struct cep* e = ep(fd); if (!e) { vp_error("closed a descriptor that is not open"); return -1; } e->open = 0; return 0; }
static int c_shutdown(int fd) { struct cep* e = ep(fd); if (e) e->shut = 1; return 0; }
static unsigned char* c_alt; static int c_altn, c_alto; /* a longer stream to read from, if there is one */
static int c_readable(void* a) { struct cep* e = a; return c_alto < c_altn || e->lim > e->o || e->dead || e->shut; }
static ssize_t c_recv(int fd, void* p, size_t n) { vp_yield(); struct cep* e = ep(fd); if (!e) { errno = EBADF; return -1; } if (n > 0x7fffffff) { vp_error("an impossible amount was asked for"); vp_end_path(); } vp_wait_until(c_readable, e); if (e->shut || (e->dead && e->o == e->lim)) return 0; if (c_alto < c_altn) { size_t m = n < (size_t)(c_altn - c_alto) ? n : (size_t)(c_altn - c_alto); memcpy(p, c_alt + c_alto, m); c_alto += (int)m; return (ssize_t)m; } if (cn_eintr > 0 && vp_choose(2, "interrupted read")) { cn_eintr--; errno = EINTR; return -1; }
  size_t av = (size_t)(e->lim - e->o), m = n < av ? n : av; m = (size_t)vp_concretize(m); if (cn_cuts > 0 && m > 1) { uint32_t k = vp_choose((uint32_t)m, "cut"); if (k) { cn_cuts--; m = k; } } memcpy(p, e->in + e->o, m); e->o += (int)m; return (ssize_t)m; }
static int c_str(char* d, const unsigned char* p, uint32_t n) { if (n > 255) return 0; memcpy(d, p, n); d[n] = 0; return 1; }
static void c_parse(struct cep* e) { int o = 0; while (e->on - o >= 30) { const unsigned char* b = e->out + o; uint32_t hl = be(b + 4, 2), pl = be(b + 18, 4), tl = be(b + 22, 4); if (!(be(b, 2) == 0xAAAA && be(b + 2, 2) == 2 && hl >= 52 && hl <= 562 && tl <= 255 && pl < CSTREAM)) { vp_error("what is written is no message"); vp_end_path(); } if (e->on - o < (int)(hl + pl)) break;
    if (ncout >= COUT) { vp_incomplete("too many messages"); vp_end_path(); } struct cmsg* r = &cout_[ncout]; memset(r, 0, sizeof *r); r->ep = (int)(e - ce); r->hl = hl; r->pl = pl; r->seq = be(b + 6, 4); r->flags = be(b + 10, 4); r->cd = be(b + 14, 4); int ok = c_str(r->topic, b + 26, tl); uint32_t rl = be(b + 26 + tl, 4); ok = ok && c_str(r->reply, b + 30 + tl, rl) && hl == 52 + tl + rl && be(b + hl - 2, 2) == 0xAAAA; if (!ok) { vp_error("what is written is no message"); vp_end_path(); } memcpy(r->pay, b + hl, pl < CPAY ? pl : CPAY - 1); o += (int)(hl + pl); ncout++; }
  memmove(e->out, e->out + o, (size_t)(e->on - o)); e->on -= o; }
static int c_sending;
static ssize_t c_sendmsg(int fd, const struct msghdr* m) { vp_yield(); struct cep* e = ep(fd); if (!e) { errno = EBADF; return -1; } if (c_sending) vp_error("two threads write at a time"); if (cn_die == 0) { e->dead = 1; cn_die = cn_die2 + 1; cn_die2 = -1; } if (cn_die >= 0) cn_die--; if (e->dead || e->shut) { errno = EPIPE; return -1; } if (cn_eintr > 0 && vp_choose(2, "interrupted write")) { cn_eintr--; errno = EINTR; return -1; }
  size_t t = 0; for (size_t i = 0; i < (size_t)m->msg_iovlen; i++) t += m->msg_iov[i].iov_len; t = (size_t)vp_concretize(t); size_t a = t; if (cn_short > 0 && t > 1) { uint32_t k = vp_choose((uint32_t)t, "short write"); if (k) { cn_short--; a = k; } } if (e->on + a > CSTREAM) { vp_incomplete("stream full"); vp_end_path(); }
  size_t w = 0; for (size_t i = 0; i < (size_t)m->msg_iovlen && w < a; i++) { size_t l = m->msg_iov[i].iov_len; if (l > a - w) l = a - w; memcpy(e->out + e->on, m->msg_iov[i].iov_base, l); e->on += (int)l; w += l; } c_sending = 1; vp_yield(); c_sending = 0; c_parse(e); return (ssize_t)a; }
static void c_hooks(void) { vp_sock = (struct vp_sock_hooks){ .socket = c_socket, .connect = c_connect, .close = c_close, .shutdown = c_shutdown, .recv = c_recv, .sendmsg = c_sendmsg }; vp_tick_ns = 1000; }
static void w16(unsigned char** p, uint32_t v) { *(*p)++ = (unsigned char)(v >> 8); *(*p)++ = (unsigned char)v; } static void w32(unsigned char** p, uint32_t v) { w16(p, v >> 16); w16(p, v); }
/* put a message on the stream to the client; it is not there to be read before lim says so */
static void c_put(const char* topic, const char* reply, uint32_t seq, uint32_t flags, uint32_t cd, const void* pay, uint32_t n) { struct cep* e = &ce[cur]; uint32_t tl = (uint32_t)strlen(topic), rl = (uint32_t)strlen(reply); if (e->n + 52 + (int)(tl + rl + n) > CSTREAM) { vp_incomplete("stream full"); vp_end_path(); } unsigned char* p = e->in + e->n; w16(&p, 0xAAAA); w16(&p, 2); w16(&p, 52 + tl + rl); w32(&p, seq); w32(&p, flags); w32(&p, cd); w32(&p, n); w32(&p, tl); memcpy(p, topic, tl); p += tl; w32(&p, rl); memcpy(p, reply, rl); p += rl; for (int i = 0; i < 5; i++) w32(&p, 0); w16(&p, 0xAAAA); memcpy(p, pay, n); p += n; e->n = (int)(p - e->in); }
static void c_flush(void) { ce[cur].lim = ce[cur].n; }
static void c_send(const char* topic, const char* reply, uint32_t seq, uint32_t flags, uint32_t cd, const void* pay, uint32_t n) { c_put(topic, reply, seq, flags, cd, pay, n); c_flush(); }
static int c_json(const struct cmsg* r, const char* k, int32_t* v, char* t, size_t tn) { rtMessage m; if (rtMessage_FromBytes(&m, r->pay, (int)r->pl) != RT_OK) return 0; char const* s = 0; int ok = rtMessage_GetInt32(m, k, v) == RT_OK && rtMessage_GetString(m, "topic", &s) == RT_OK && s; if (ok) snprintf(t, tn, "%s", s); rtMessage_Release(m); return ok; }
/* is this a message that registers (or ends) a name */
static int c_is_sub(const struct cmsg* r, int add, const char* name, int32_t* id) { int32_t a; char t[64]; return !strcmp(r->topic, "_RTROUTED.INBOX.SUBSCRIBE") && c_json(r, "add", &a, t, sizeof t) && a == add && !strcmp(t, name) && c_json(r, "route_id", id, t, sizeof t); }
/* what a listener has been called with */
struct cgot { int who; uint32_t seq, flags, cd, n; char topic[64], reply[64]; unsigned char d[CPAY]; }; static struct cgot got[CIN]; static int ngot; static void (*c_cb_hook)(int i);
static void c_cb(rtMessageHeader const* h, uint8_t const* b, uint32_t n, void* cl) { if (ngot >= CIN) { vp_incomplete("too many calls"); return; } struct cgot* g = &got[ngot++]; memset(g, 0, sizeof *g); g->who = (int)(intptr_t)cl; g->seq = h->sequence_number; g->flags = h->flags; g->cd = h->control_data; g->n = n; snprintf(g->topic, 64, "%s", h->topic); snprintf(g->reply, 64, "%s", h->reply_topic); memcpy(g->d, b, n < CPAY ? n : CPAY); if (c_cb_hook) c_cb_hook(ngot - 1); }
static rtConnection C; static uint64_t c_base;
static void c_warm(void) { rtTime_t t; char b[100]; rtTime_Now(&t); rtTime_ToString(&t, b); } /* the C library keeps what it read about time zones */
static void c_start(void) { c_hooks(); c_warm(); c_base = vp_heap_live(); vp_check(rtConnection_Create(&C, "app", "unix:///tmp/x") == RT_OK && C, "a connection is made"); vp_run_others(); int32_t id; vp_check(ncout == 1 && c_is_sub(&cout_[0], 1, rtConnection_GetReturnAddress(C), &id), "a connection registers where its answers go"); ncout = 0; }
static void c_stop(void) { rtConnection_Destroy(C); vp_check(vp_run_others() == 0, "no thread is left of a connection"); vp_check(vp_lock_depth == 0, "no lock is left of a connection"); vp_check(c_open() == 0, "no descriptor is left of a connection"); vp_check(vp_heap_live() == c_base, "nothing is left of a connection"); }
#endif
