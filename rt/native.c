/* Native side of the harness API: feeds recorded values to the real code. */
#define _GNU_SOURCE
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>
static uint64_t* vals; static size_t nvals, pos; static int loaded;
static void load(void) {
  if (loaded) return; loaded = 1; const char* f = getenv("VP_INPUTS"); if (!f) return; FILE* fp = fopen(f, "r"); if (!fp) { fprintf(stderr, "no inputs\n"); _exit(3); }
  size_t cap = 1024; vals = (uint64_t*)malloc(cap * 8); unsigned long long v; while (fscanf(fp, "%llu", &v) == 1) { if (nvals == cap) { cap *= 2; vals = (uint64_t*)realloc(vals, cap * 8); } vals[nvals++] = v; } fclose(fp);
}
static uint64_t next(void) { load(); if (pos >= nvals) { return 0; } return vals[pos++]; }
uint64_t vp_input(const char* name, int bits) { (void)name; uint64_t v = next(); if (bits < 64) v &= (1ULL << bits) - 1; return v; }
uint32_t vp_choose(uint32_t n, const char* name) { (void)name; uint64_t v = next(); if (v >= n) { fflush(stdout); fprintf(stderr, "VPMISMATCH choose\n"); _exit(77); } return (uint32_t)v; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_assume(int c) { if (!c) { fflush(stdout); fprintf(stderr, "VPMISMATCH assume\n"); _exit(77); } }
void vp_check_(int c, const char* label) { if (!c) { fflush(stdout); fprintf(stderr, "VPFAIL check %s\n", label); _exit(99); } }
void vp_error(const char* label) { fflush(stdout); fprintf(stderr, "VPFAIL check %s\n", label); _exit(99); }
void vp_reach(const char* label) { (void)label; }
static FILE* obsf; static void obs_open(void) { const char* f = getenv("VP_OBS"); if (f) { static char b[4096]; obsf = fopen(f, "w"); if (obsf) { setvbuf(obsf, b, _IOFBF, sizeof b); } } } void vp_observe(uint64_t v) { if (obsf) { fprintf(obsf, "%llu\n", (unsigned long long)v); fflush(obsf); } }
uint64_t vp_param(const char* name, uint64_t def) { char b[128]; snprintf(b, 128, "VP_P_%s", name); const char* e = getenv(b); return e ? strtoull(e, 0, 0) : def; }
void vp_no_uninit(int on) { (void)on; } int vp_is_symbolic(uint64_t v) { (void)v; return 0; } void vp_debug(const char* s, uint64_t v) { fprintf(stderr, "[dbg] %s %llu\n", s, (unsigned long long)v); }
int vp_valid_(const void* p, size_t n) { (void)p; (void)n; return 1; } void vp_incomplete(const char* w) { (void)w; _exit(78); } void vp_end_path(void) { fflush(stdout); _exit(0); }
int vp_fmt_double(char* buf, int cap, const char* fmt, int w, int p, double d) { if (w >= 0 && p >= 0) return snprintf(buf, cap, fmt, w, p, d); if (w >= 0) return snprintf(buf, cap, fmt, w, d); if (p >= 0) return snprintf(buf, cap, fmt, p, d); return snprintf(buf, cap, fmt, d); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
static int64_t live; static __thread int counts; /* what starting a thread allocates is not counted */
#ifdef HAVE_ASAN
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void mh(const volatile void* p, size_t n) { (void)n; if (p && counts) __atomic_add_fetch(&live, 1, 5); } static void fh(const volatile void* p) { if (p && counts) __atomic_sub_fetch(&live, 1, 5); }
__attribute__((constructor)) static void hk(void) { load(); obs_open(); counts = 1; setvbuf(stdout, 0, _IONBF, 0); __sanitizer_install_malloc_and_free_hooks(mh, fh); }
#else
__attribute__((constructor)) static void hk(void) { load(); obs_open(); counts = 1; }
#endif
uint64_t vp_heap_live(void) { return (uint64_t)live; }
/* coroutine threads on real threads with a baton */
#define MAXT 16
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv[MAXT]; static int cur, nt = 1; static __thread int me; struct sp { void (*fn)(void*); void* arg; int id; };
static void* tramp(void* p) { struct sp s = *(struct sp*)p; me = s.id; pthread_mutex_lock(&mu); while (cur != me) pthread_cond_wait(&cv[me], &mu); pthread_mutex_unlock(&mu); counts = 1; s.fn(s.arg); fprintf(stderr, "VPFAIL check thread entry returned\n"); _exit(99); return 0; }
uint32_t vp_thread_spawn(void (*fn)(void*), void* arg) { static struct sp sps[MAXT]; int id = nt++; if (id >= MAXT) _exit(78); sps[id].fn = fn; sps[id].arg = arg; sps[id].id = id; pthread_t t; counts = 0; pthread_create(&t, 0, tramp, &sps[id]); counts = 1; return id; }
void vp_thread_switch(uint32_t tid) { pthread_mutex_lock(&mu); cur = tid; pthread_cond_signal(&cv[tid]); while (cur != me) pthread_cond_wait(&cv[me], &mu); pthread_mutex_unlock(&mu); }
uint32_t vp_thread_self(void) { return me; }
