/* Harness API. The same harness runs under the symbolic executor and natively (replay). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vp_input(const char* name, int bits);      /* fresh symbolic value */
uint32_t vp_choose(uint32_t n, const char* name);   /* symbolic choice in [0,n), explored case by case */
uint64_t vp_concretize(uint64_t v);                 /* split on every feasible value */
void vp_assume(int c);
void vp_check_(int c, const char* label);
void vp_reach(const char* label);
void vp_observe(uint64_t v);
void vp_error(const char* label);                   /* unconditional violation */
uint64_t vp_param(const char* name, uint64_t def);  /* concrete job parameter */
uint64_t vp_heap_live(void);
void vp_no_uninit(int on);
int vp_is_symbolic(uint64_t v);
void vp_debug(const char* s, uint64_t v);
int vp_valid_(const void* p, size_t n);
void vp_incomplete(const char* why);
void vp_end_path(void);
int vp_fmt_double(char* buf, int cap, const char* fmt, int width, int prec, double d);
uint32_t vp_thread_spawn(void (*fn)(void*), void* arg);
void vp_thread_switch(uint32_t tid);
uint32_t vp_thread_self(void);
#define vp_check(c, label) vp_check_(!!(c), label)
static inline uint8_t vp_u8(const char* n) { return (uint8_t)vp_input(n, 8); }
static inline uint16_t vp_u16(const char* n) { return (uint16_t)vp_input(n, 16); }
static inline uint32_t vp_u32(const char* n) { return (uint32_t)vp_input(n, 32); }
static inline uint64_t vp_u64(const char* n) { return vp_input(n, 64); }
static inline int32_t vp_i32(const char* n) { return (int32_t)vp_input(n, 32); }
static inline int64_t vp_i64(const char* n) { return (int64_t)vp_input(n, 64); }
static inline int vp_bool(const char* n) { return (int)vp_input(n, 1); }
static inline uint32_t vp_range(const char* n, uint32_t lo, uint32_t hi) { uint32_t v = vp_u32(n); vp_assume(v >= lo && v <= hi); return v; }
static inline void vp_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = vp_u8(name); }
/* n symbolic non-NUL bytes followed by NUL; length chosen in [lo,hi] */
static inline size_t vp_string(char* p, uint32_t lo, uint32_t hi, const char* name) {
  uint32_t n = lo + (hi > lo ? vp_choose(hi - lo + 1, "strlen") : 0);
  for (uint32_t i = 0; i < n; i++) { uint8_t c = vp_u8(name); vp_assume(c != 0); p[i] = (char)c; }
  p[n] = 0; return n; }
/* n bytes drawn from an alphabet, NUL terminated */
static inline size_t vp_string_of(char* p, uint32_t lo, uint32_t hi, const char* alpha, const char* name) {
  uint32_t n = lo + (hi > lo ? vp_choose(hi - lo + 1, "strlen") : 0);
  for (uint32_t i = 0; i < n; i++) { uint8_t c = vp_u8(name); int ok = 0; for (const char* a = alpha; *a; a++) ok |= (c == (uint8_t)*a); vp_assume(ok); p[i] = (char)c; }
  p[n] = 0; return n; }
/* bitwise (non short-circuit) equality of byte ranges / strings without forking */
static inline int vp_memeq(const void* a, const void* b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= (((const uint8_t*)a)[i] == ((const uint8_t*)b)[i]); return ok; }
/* scheduling model (rt/env.c) */
void vp_yield(void);
void vp_set_preempt(int n);        /* how many preemptions may still happen */
int vp_run_others(void);           /* let other threads run until they block or finish; returns number still alive */
extern int64_t vp_now_ns;          /* the model clock */
#ifdef __cplusplus
}
#endif
#endif
