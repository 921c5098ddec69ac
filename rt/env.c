/* Environment model, shared by the symbolic executor and the native replay. */
#define VP_ENV_IMPL 1
#include "vp_env.h"
#include "vp.h"
#include "env.h"
/* ------------------------------------------------------------------ threads */
#define MAXT 24
enum { T_FREE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_IDLE, T_DONE, T_PRED };
struct vthr { int st; void* obj; int timed; int timedout; int (*pred)(void*); void* (*fn)(void*); void* arg; void* ret; int detached; void* tls[8]; int64_t deadline; int wall; };
static struct vthr thr[MAXT] = {{T_RUN}}; static int nthr = 1; static int preempts; int64_t vp_now_ns = 1000000000LL, vp_wall_off = 1700000000000000000LL; /* the wall clock is this far ahead, and may be set */ int vp_threads_enabled = 1;
int vp_lock_depth; int vp_thread_count(void) { return nthr; }
struct vmutex { int owner; unsigned count; int a, b; int kind; };           /* overlays pthread_mutex_t: __lock, __count, ..., __kind */
struct vcond { unsigned waiters, tokens; int monotonic; };
static int self(void) { return (int)vp_thread_self(); }
static int64_t ends(int i) { return thr[i].deadline - (thr[i].wall ? vp_wall_off : 0); }
static int earliest(int i) { for (int k = 0; k < nthr; k++) if (thr[k].st == T_SLEEP && thr[k].deadline < thr[i].deadline) return 0; return 1; }
int vp_one_order; /* of the threads that can run always the first does */ int vp_in_order; static int first(int i) { if (vp_in_order) for (int k = 0; k < nthr; k++) if (thr[k].st == T_COND && thr[k].timed && ends(k) < ends(i)) return 0; return 1; } /* the wait that ends first times out first */
static int can_run(int i, int allow_timeout) {
  struct vthr* t = &thr[i];
  switch (t->st) { case T_RUN: return 1; case T_MUTEX: return ((struct vmutex*)t->obj)->owner == 0; case T_COND: { struct vcond* c = (struct vcond*)t->obj; return c->tokens > 0 || (allow_timeout && t->timed && first(i)); } case T_JOIN: return thr[(intptr_t)t->obj].st == T_DONE; case T_SLEEP: return t->deadline <= vp_now_ns || (allow_timeout && earliest(i)); case T_PRED: return t->pred(t->obj); default: return 0; }
}
static int pick(int include_self, int allow_timeout, int* out) { int n = 0; for (int i = 0; i < nthr; i++) if ((include_self || i != self()) && can_run(i, allow_timeout)) out[n++] = i; return n; }
static int next_set(int inc, int* cand) { int n = pick(inc, 0, cand); if (n) return n; for (int i = 0; i < nthr; i++) if (thr[i].st == T_IDLE) { cand[0] = i; return 1; } return pick(inc, 1, cand); }
static void go(int t) { if (t != self()) vp_thread_switch((uint32_t)t); }
/* current thread cannot continue: run someone else until it can */
static void block(int st, void* obj, int timed) {
  struct vthr* t = &thr[self()]; t->st = st; t->obj = obj; t->timed = timed; t->timedout = 0;
  int cand[MAXT]; int n = next_set(1, cand);
  if (n == 0) { vp_error("deadlock: no thread can make progress"); vp_end_path(); }
  int k = n > 1 && !vp_one_order ? (int)vp_choose((uint32_t)n, "sched") : 0; go(cand[k]);
  t->st = T_RUN;
}
void vp_wait_until(int (*pred)(void*), void* arg) { if (pred(arg)) return; thr[self()].pred = pred; block(T_PRED, arg, 0); }
void vp_set_preempt(int n) { preempts = n; }
void vp_yield(void) {
  if (nthr < 2 || preempts <= 0) return; int cand[MAXT]; int n = pick(0, 0, cand); if (n == 0) return;
  uint32_t k = vp_choose((uint32_t)n + 1, "preempt"); if (k == 0) return; preempts--; go(cand[k - 1]);
}
void vp_atomic_point(void) { vp_yield(); }
int vp_run_others(void) { /* let the others run until none can; pending time-outs do not fire */
  for (int g = 0; g < 200; g++) { int cand[MAXT]; int n = pick(0, 0, cand); if (n == 0) break; struct vthr* t = &thr[self()]; t->st = T_IDLE; int k = n > 1 && !vp_one_order ? (int)vp_choose((uint32_t)n, "sched") : 0; go(cand[k]); t->st = T_RUN; }
  int alive = 0; for (int i = 0; i < nthr; i++) if (i != self() && thr[i].st != T_DONE) alive++; return alive; }
int vp_fire_timeouts(void) { /* let the time-outs of other blocked threads fire */
  int cand[MAXT]; int n = 0; for (int i = 0; i < nthr; i++) if (i != self() && !can_run(i, 0) && can_run(i, 1)) cand[n++] = i; if (!n) return 0;
  struct vthr* t = &thr[self()]; t->st = T_IDLE; int k = n > 1 && !vp_one_order ? (int)vp_choose((uint32_t)n, "sched") : 0; go(cand[k]); t->st = T_RUN; return n; }
static int nkeys; static void (*keydtor[8])(void*);
static void entry(void* p) { int i = (int)(intptr_t)p; thr[i].ret = thr[i].fn(thr[i].arg); for (int k = 0; k < 8 && k < nkeys; k++) if (keydtor[k] && thr[i].tls[k]) { void* v = thr[i].tls[k]; thr[i].tls[k] = 0; keydtor[k](v); } thr[i].st = T_DONE;
  int cand[MAXT]; int n = next_set(0, cand); if (!n) { vp_error("deadlock: all threads blocked"); vp_end_path(); } int k = n > 1 && !vp_one_order ? (int)vp_choose((uint32_t)n, "sched") : 0; go(cand[k]); vp_error("finished thread resumed"); vp_end_path(); }
int vp_fail_thread; /* the next thread cannot be started */
int vp_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { (void)a; if (vp_fail_thread) return 11; if (nthr >= MAXT) { vp_incomplete("too many threads"); return 11; } int i = nthr; thr[i].fn = fn; thr[i].arg = arg; thr[i].st = T_RUN; if (vp_threads_enabled) { vp_thread_spawn(entry, (void*)(intptr_t)i); nthr++; } if (t) *t = (pthread_t)(i + 1); vp_yield(); return 0; }
int vp_pthread_join(pthread_t t, void** r) { int i = (int)t - 1; if (i < 0 || i >= nthr) return 3; while (thr[i].st != T_DONE) block(T_JOIN, (void*)(intptr_t)i, 0); if (r) *r = thr[i].ret; return 0; }
int vp_pthread_detach(pthread_t t) { (void)t; return 0; } int vp_pthread_cancel(pthread_t t) { (void)t; return 0; } int vp_pthread_equal(pthread_t a, pthread_t b) { return a == b; } pthread_t vp_pthread_self(void) { return (pthread_t)(self() + 1); }
int vp_pthread_attr_init(pthread_attr_t* a) { (void)a; return 0; } int vp_pthread_attr_destroy(pthread_attr_t* a) { (void)a; return 0; } int vp_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { (void)a; (void)n; return 0; } int vp_pthread_attr_setdetachstate(pthread_attr_t* a, int n) { (void)a; (void)n; return 0; }
int vp_pthread_mutexattr_init(pthread_mutexattr_t* a) { *(int*)a = 0; return 0; } int vp_pthread_mutexattr_destroy(pthread_mutexattr_t* a) { (void)a; return 0; } int vp_pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { *(int*)a = k; return 0; } int vp_pthread_mutexattr_setrobust(pthread_mutexattr_t* a, int k) { (void)a; (void)k; return 0; }
int vp_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); ((struct vmutex*)m)->kind = a ? *(const int*)a & 3 : 0; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t* m) { (void)m; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t* m) { struct vmutex* v = (struct vmutex*)m; int me = self() + 1; if (v->owner == me && (v->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; } if (v->owner) return EBUSY; v->owner = me; v->count = 1; vp_lock_depth++; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t* m) {
  struct vmutex* v = (struct vmutex*)m; int me = self() + 1; vp_yield();
  if (v->owner == me) { if ((v->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; } if ((v->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; vp_error("deadlock: mutex locked twice by one thread"); vp_end_path(); }
  while (v->owner) block(T_MUTEX, v, 0);
  v->owner = me; v->count = 1; vp_lock_depth++; return 0; }
int vp_unlock_errors;
int vp_fair; static int spin, spinner; static void snooze(int64_t);
static void fair(void) { if (!vp_fair || nthr < 2) return; if (self() != spinner) { spinner = self(); spin = 0; return; } if (++spin < vp_fair) return; spin = 0; snooze(10000000000LL); } /* whoever keeps at it does not keep others from running */
int vp_pthread_mutex_unlock(pthread_mutex_t* m) { struct vmutex* v = (struct vmutex*)m; if (v->owner != self() + 1) { vp_unlock_errors++; if (vp_strict_unlock) { vp_error("mutex unlocked by a thread that does not hold it"); vp_end_path(); } return EPERM; } if (--v->count == 0) { v->owner = 0; vp_lock_depth--; fair(); vp_yield(); } return 0; }
int vp_strict_unlock;
int vp_pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = 0; return 0; } int vp_pthread_condattr_destroy(pthread_condattr_t* a) { (void)a; return 0; } int vp_pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(int*)a = c == CLOCK_MONOTONIC; return 0; }
int vp_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof *c); if (a) ((struct vcond*)c)->monotonic = *(const int*)a; return 0; } int vp_pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }
int vp_pthread_cond_signal(pthread_cond_t* c) { struct vcond* v = (struct vcond*)c; if (v->tokens < v->waiters) v->tokens++; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t* c) { struct vcond* v = (struct vcond*)c; v->tokens = v->waiters; return 0; }
int (*vp_timedwait_hook)(const struct timespec* abs); /* called when a timed wait would block: may advance the model clock or deliver input; return 1 if the wait should be re-examined before timing out */
int vp_spurious; /* how many waits may still end for no reason */
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  struct vcond* v = (struct vcond*)c; struct vmutex* mx = (struct vmutex*)m; int me = self(); unsigned cnt = mx->count; int r = 0, spur = 0, past = 0; if (ts) { thr[me].wall = !v->monotonic; thr[me].deadline = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; if (thr[me].wall && ends(me) <= vp_now_ns) past = 1; }
  if (mx->owner != me + 1) { vp_error("condition wait without holding the mutex"); vp_end_path(); }
  v->waiters++; mx->owner = 0; mx->count = 0; vp_lock_depth--;
  if (past) vp_yield(); /* the wait ends at once */
  else if (ts && vp_timedwait_hook) { vp_timedwait_hook(ts); if (v->tokens == 0) { int cand[MAXT]; if (pick(0, 0, cand) > 0) block(T_COND, v, 1); } }
  else if (v->tokens == 0 && vp_spurious > 0 && vp_choose(2, "spurious")) { vp_spurious--; spur = 1; vp_yield(); }
  else if (v->tokens == 0) block(T_COND, v, ts != 0);
  if (spur) ; else if (v->tokens > 0) v->tokens--; else { r = ETIMEDOUT; if (ts) { int64_t t = ends(me); if (t > vp_now_ns) vp_now_ns = t; } }
  v->waiters--; if (v->tokens > v->waiters) v->tokens = v->waiters;
  while (mx->owner) block(T_MUTEX, mx, 0); mx->owner = me + 1; mx->count = cnt; vp_lock_depth++; return r; }
int vp_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, 0); }
int vp_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cwait(c, m, t); }
int vp_pthread_once(pthread_once_t* o, void (*f)(void)) { if (*(int*)o != 2) { *(int*)o = 2; f(); } return 0; }
int vp_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (nkeys < 8) keydtor[nkeys] = d; *k = (pthread_key_t)nkeys++; return 0; } void* vp_pthread_getspecific(pthread_key_t k) { return k < 8 ? thr[self()].tls[k] : 0; } int vp_pthread_setspecific(pthread_key_t k, const void* p) { if (k >= 8) return 22; thr[self()].tls[k] = (void*)p; return 0; }
/* ------------------------------------------------------------------ time */
time_t vp_time(time_t* t) { time_t r = (time_t)((vp_now_ns + vp_wall_off) / 1000000000LL); if (t) *t = r; return r; }
int64_t vp_tick_ns; int vp_clock_gettime(clockid_t c, struct timespec* ts) { vp_now_ns += vp_tick_ns; int64_t t = vp_now_ns + (c == CLOCK_REALTIME ? vp_wall_off : 0); ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0; }
int vp_gettimeofday(struct timeval* tv, void* z) { (void)z; vp_now_ns += vp_tick_ns; int64_t t = vp_now_ns + vp_wall_off; tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000; return 0; }
static void snooze(int64_t ns) { int64_t d = vp_now_ns + ns; int cand[MAXT], w = nthr > 1 && pick(0, 0, cand) > 0; for (int i = 0; i < nthr && nthr > 1; i++) if (i != self() && thr[i].st == T_SLEEP && thr[i].deadline < d) w = 1; if (w) { thr[self()].deadline = d; block(T_SLEEP, 0, 1); } if (vp_now_ns < d) vp_now_ns = d; }
int vp_usleep(unsigned us) { snooze((int64_t)us * 1000); return 0; } unsigned vp_sleep(unsigned s) { snooze((int64_t)s * 1000000000LL); return 0; } int vp_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; snooze(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
/* ------------------------------------------------------------------ files (in memory) */
struct vfile vp_files[VP_NFILES]; struct vfh { int used; int f; long pos; int wr; }; static struct vfh fh[4]; int vp_disk_full_after = -1;
void (*vp_file_hook)(int op, int f, size_t before); static void fhook(int op, int f, size_t b) { if (vp_file_hook) vp_file_hook(op, f, b); }
static int ffind(const char* n) { for (int i = 0; i < VP_NFILES; i++) if (vp_files[i].exists && strcmp(vp_files[i].name, n) == 0) return i; return -1; }
int vp_file_put(const char* n, const void* d, size_t len) { int i = ffind(n); if (i < 0) for (i = 0; i < VP_NFILES; i++) if (!vp_files[i].exists) break; if (i >= VP_NFILES || len > VP_FSIZE) { vp_incomplete("file model full"); return -1; } vp_files[i].exists = 1; strncpy(vp_files[i].name, n, sizeof vp_files[i].name - 1); memcpy(vp_files[i].data, d, len); vp_files[i].len = len; return i; }
int vp_file_index(const char* n) { return ffind(n); }
static struct vfh* isfh(FILE* f) { struct vfh* h = (struct vfh*)f; for (int i = 0; i < 4; i++) if (h == &fh[i]) return h; return 0; }
FILE* vp_fopen(const char* n, const char* m) { int i = ffind(n); if (m[0] == 'r') { if (i < 0) { errno = ENOENT; return 0; } } else { if (i < 0 || m[0] == 'w') i = vp_file_put(n, "", 0); if (i < 0) return 0; } for (int k = 0; k < 4; k++) if (!fh[k].used) { fh[k].used = 1; fh[k].f = i; fh[k].pos = m[0] == 'a' ? (long)vp_files[i].len : 0; fh[k].wr = m[0] != 'r'; if (fh[k].wr) fhook(1, i, 0); return (FILE*)&fh[k]; } vp_incomplete("file handles"); return 0; }
int vp_fclose(FILE* f) { struct vfh* h = isfh(f); if (h) { if (!h->used) vp_error("file closed twice"); h->used = 0; if (h->wr) fhook(5, h->f, 0); } return 0; }
int vp_open_files(void) { int n = 0; for (int i = 0; i < 4; i++) n += fh[i].used; return n; }
size_t vp_fread(void* p, size_t s, size_t n, FILE* f) { struct vfh* h = isfh(f); if (!h) return 0; struct vfile* v = &vp_files[h->f]; size_t want = s * n, av = v->len - (size_t)h->pos, k = want < av ? want : av; memcpy(p, v->data + h->pos, k); h->pos += (long)k; return s ? k / s : 0; }
size_t vp_fwrite(const void* p, size_t s, size_t n, FILE* f) { struct vfh* h = isfh(f); if (!h) return n; struct vfile* v = &vp_files[h->f]; size_t want = s * n; if (vp_disk_full_after >= 0) { if ((size_t)vp_disk_full_after < want) { want = (size_t)vp_disk_full_after; } vp_disk_full_after -= (int)want; } if (h->pos + want > VP_FSIZE) { vp_incomplete("file model full"); return 0; } size_t b4 = v->len; memcpy(v->data + h->pos, p, want); h->pos += (long)want; if ((size_t)h->pos > v->len) v->len = (size_t)h->pos; fhook(2, h->f, b4); return s ? want / s : 0; }
int vp_fseek(FILE* f, long o, int w) { struct vfh* h = isfh(f); if (!h) return -1; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? h->pos : (long)vp_files[h->f].len; if (b + o < 0) return -1; h->pos = b + o; return 0; }
long vp_ftell(FILE* f) { struct vfh* h = isfh(f); return h ? h->pos : -1; } void vp_rewind(FILE* f) { vp_fseek(f, 0, SEEK_SET); } int vp_fflush(FILE* f) { (void)f; return 0; } int vp_fileno(FILE* f) { (void)f; return 9; }
int vp_fputc(int c, FILE* f) { unsigned char b = (unsigned char)c; return vp_fwrite(&b, 1, 1, f) == 1 ? c : -1; } int vp_fputs(const char* s, FILE* f) { vp_fwrite(s, 1, strlen(s), f); return 0; }
char* vp_fgets(char* b, int n, FILE* f) { struct vfh* h = isfh(f); if (!h || n <= 0) return 0; struct vfile* v = &vp_files[h->f]; int i = 0; while (i < n - 1 && (size_t)h->pos < v->len) { char c = v->data[h->pos++]; b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
int vp_fprintf(FILE* f, const char* fmt, ...) { struct vfh* h = isfh(f); if (!h) return 0; static char tmp[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap); vp_fwrite(tmp, 1, n < (int)sizeof tmp ? (size_t)n : sizeof tmp - 1, f); return n; }
int vp_printf(const char* fmt, ...) { (void)fmt; return 0; } int vp_puts(const char* s) { (void)s; return 0; } int vp_putchar(int c) { return c; }
int vp_remove(const char* n) { int i = ffind(n); if (i < 0) { errno = ENOENT; return -1; } vp_files[i].exists = 0; fhook(3, i, 0); return 0; } int vp_unlink(const char* n) { return vp_remove(n); } int vp_access(const char* n, int m) { (void)m; return ffind(n) >= 0 ? 0 : -1; }
int vp_stat(const char* n, struct stat* st) { int i = ffind(n); if (i < 0) return -1; memset(st, 0, sizeof *st); st->st_size = (off_t)vp_files[i].len; st->st_mode = S_IFREG | 0600; return 0; }
int vp_mkdir(const char* n, mode_t m) { (void)n; (void)m; return 0; } int vp_chmod(const char* n, mode_t m) { (void)n; (void)m; return 0; } int vp_rename(const char* a, const char* b) { int i = ffind(a); if (i < 0) return -1; int j = ffind(b); if (j == i) return 0; if (j >= 0) vp_files[j].exists = 0; memset(vp_files[i].name, 0, sizeof vp_files[i].name); strncpy(vp_files[i].name, b, sizeof vp_files[i].name - 1); fhook(4, i, 0); return 0; } int vp_flock(int f, int o) { (void)f; (void)o; return 0; }
/* ------------------------------------------------------------------ sockets: hooks set by the harness */
struct vp_sock_hooks vp_sock;
static int nextfd = 20;
int vp_socket(int a, int b, int c) { (void)b; (void)c; if (a != AF_UNIX && a != AF_INET && a != AF_INET6) { errno = EAFNOSUPPORT; return -1; } if (vp_sock.socket) return vp_sock.socket(); return nextfd++; } int vp_setsockopt(int f, int l, int o, const void* v, socklen_t n) { (void)f; (void)l; (void)o; (void)v; (void)n; return 0; } int vp_getsockopt(int f, int l, int o, void* v, socklen_t* n) { (void)f; (void)l; (void)o; (void)v; (void)n; return 0; }
int vp_connect(int f, const struct sockaddr* a, socklen_t n) { (void)a; (void)n; if (vp_sock.connect) return vp_sock.connect(f); return 0; } int vp_bind(int f, const struct sockaddr* a, socklen_t n) { (void)f; (void)a; (void)n; return 0; } int vp_listen(int f, int n) { (void)f; (void)n; return 0; }
int vp_accept(int f, struct sockaddr* a, socklen_t* n) { (void)a; (void)n; if (vp_sock.accept) return vp_sock.accept(f); return nextfd++; }
ssize_t vp_send(int f, const void* p, size_t n, int fl) { (void)fl; if (vp_sock.send) return vp_sock.send(f, p, n); return (ssize_t)n; } ssize_t vp_write(int f, const void* p, size_t n) { return vp_send(f, p, n, 0); }
ssize_t vp_sendmsg(int f, const struct msghdr* m, int fl) { (void)fl; if (vp_sock.sendmsg) return vp_sock.sendmsg(f, m); size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len; return (ssize_t)n; }
ssize_t vp_recv(int f, void* p, size_t n, int fl) { (void)fl; if (vp_sock.recv) return vp_sock.recv(f, p, n); return 0; } ssize_t vp_read(int f, void* p, size_t n) { return vp_recv(f, p, n, 0); }
int vp_shutdown(int f, int h) { (void)h; if (vp_sock.shutdown) return vp_sock.shutdown(f); return 0; } int vp_close(int f) { if (vp_sock.close) return vp_sock.close(f); return 0; }
int vp_getsockname(int f, struct sockaddr* a, socklen_t* n) { (void)f; struct sockaddr_un* u = (struct sockaddr_un*)a; u->sun_family = AF_UNIX; u->sun_path[0] = 0; *n = sizeof(struct sockaddr_un); return 0; }
int vp_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { (void)w; (void)e; (void)t; if (vp_sock.select) return vp_sock.select(n, r); return 1; } int vp_fcntl(int f, int c, ...) { (void)f; (void)c; return 0; } int vp_ioctl(int f, unsigned long c, ...) { (void)f; (void)c; return -1; }
/* ------------------------------------------------------------------ process */
int vp_pid = 100; pid_t vp_getpid(void) { return vp_pid; } int (*vp_kill_hook)(pid_t, int); int vp_kill(pid_t p, int s) { if (vp_kill_hook) return vp_kill_hook(p, s); errno = ESRCH; return -1; } char* vp_getenv(const char* n) { (void)n; return 0; } static unsigned rnd = 12345; int vp_rand(void) { rnd = rnd * 1103515245u + 12345u; return (int)((rnd >> 1) & 0x7fffffff); } void vp_srand(unsigned s) { rnd = s; } long vp_syscall(long n, ...) { (void)n; return 100 + self(); } int vp_pause(void) { return 0; } int vp_daemon(int a, int b) { (void)a; (void)b; return 0; }
/* ------------------------------------------------------------------ logging is outside every property */
int rtLogLevelFromString_unused;
