/* Symbolic values of every type and bit-exact comparison against what was put in. */
#ifndef VH_VALUE_H
#define VH_VALUE_H
#include <rbus.h>
#include <string.h>
#include <math.h>
#include "vp.h"
uint8_t const* rbusValue_GetV(rbusValue_t v); uint32_t rbusValue_GetL(rbusValue_t v); void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void const* value);
enum { K_BOOL, K_CHAR, K_BYTE, K_I8, K_U8, K_I16, K_U16, K_I32, K_U32, K_I64, K_U64, K_F32, K_F64, K_TIME, K_STR, K_BYTES, K_N };
struct raw { int k; uint64_t n; rbusDateTime_t t; int len; uint8_t b[160]; };
static const rbusValueType_t vh_type[K_N] = { RBUS_BOOLEAN, RBUS_CHAR, RBUS_BYTE, RBUS_INT8, RBUS_UINT8, RBUS_INT16, RBUS_UINT16, RBUS_INT32, RBUS_UINT32, RBUS_INT64, RBUS_UINT64, RBUS_SINGLE, RBUS_DOUBLE, RBUS_DATETIME, RBUS_STRING, RBUS_BYTES };
static const int vh_bits[K_N] = { 1, 8, 8, 8, 8, 16, 16, 32, 32, 64, 64, 32, 64, 0, 0, 0 };
static inline uint64_t f32bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t f64bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static inline float bitsf32(uint64_t b) { uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; }
static inline double bitsf64(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static inline void mk_time(rbusDateTime_t* t) {
  memset(t, 0, sizeof *t); t->m_time.tm_sec = vp_i32("sec"); t->m_time.tm_min = vp_i32("min"); t->m_time.tm_hour = vp_i32("hour"); t->m_time.tm_mday = vp_i32("mday"); t->m_time.tm_mon = vp_i32("mon"); t->m_time.tm_year = vp_i32("year"); t->m_time.tm_wday = vp_i32("wday"); t->m_time.tm_yday = vp_i32("yday"); t->m_time.tm_isdst = vp_i32("isdst"); t->m_tz.m_tzhour = vp_i32("tzh"); t->m_tz.m_tzmin = vp_i32("tzm"); t->m_tz.m_isWest = vp_bool("west"); }
/* draw the content of a value of kind k; minl..maxl bounds the length of strings and byte arrays */
static inline void mk_raw(struct raw* r, int k, int minl, int maxl) {
  memset(r, 0, sizeof *r); r->k = k;
  if (k < K_TIME) r->n = vp_input("num", vh_bits[k]);
  else if (k == K_TIME) mk_time(&r->t);
  else { r->len = minl + (maxl > minl ? (int)vp_choose((uint32_t)(maxl - minl + 1), "len") : 0); for (int i = 0; i < r->len; i++) { r->b[i] = vp_u8("ch"); if (k == K_STR) vp_assume(r->b[i] != 0); } r->b[r->len] = 0; } }
static inline void set_raw(rbusValue_t v, const struct raw* r) {
  switch (r->k) {
    case K_BOOL: rbusValue_SetBoolean(v, (bool)r->n); break; case K_CHAR: rbusValue_SetChar(v, (char)r->n); break; case K_BYTE: rbusValue_SetByte(v, (unsigned char)r->n); break;
    case K_I8: rbusValue_SetInt8(v, (int8_t)r->n); break; case K_U8: rbusValue_SetUInt8(v, (uint8_t)r->n); break; case K_I16: rbusValue_SetInt16(v, (int16_t)r->n); break; case K_U16: rbusValue_SetUInt16(v, (uint16_t)r->n); break;
    case K_I32: rbusValue_SetInt32(v, (int32_t)r->n); break; case K_U32: rbusValue_SetUInt32(v, (uint32_t)r->n); break; case K_I64: rbusValue_SetInt64(v, (int64_t)r->n); break; case K_U64: rbusValue_SetUInt64(v, r->n); break;
    case K_F32: rbusValue_SetSingle(v, bitsf32(r->n)); break; case K_F64: rbusValue_SetDouble(v, bitsf64(r->n)); break;
    case K_TIME: rbusValue_SetTime(v, &r->t); break; case K_STR: rbusValue_SetString(v, (const char*)r->b); break; case K_BYTES: rbusValue_SetBytes(v, r->b, r->len); break; } }
static inline int time_eq(const rbusDateTime_t* a, const rbusDateTime_t* b) {
  return (a->m_time.tm_sec == b->m_time.tm_sec) & (a->m_time.tm_min == b->m_time.tm_min) & (a->m_time.tm_hour == b->m_time.tm_hour) & (a->m_time.tm_mday == b->m_time.tm_mday) & (a->m_time.tm_mon == b->m_time.tm_mon) & (a->m_time.tm_year == b->m_time.tm_year) & (a->m_time.tm_wday == b->m_time.tm_wday) & (a->m_time.tm_yday == b->m_time.tm_yday) & (a->m_time.tm_isdst == b->m_time.tm_isdst) & (a->m_tz.m_tzhour == b->m_tz.m_tzhour) & (a->m_tz.m_tzmin == b->m_tz.m_tzmin) & (a->m_tz.m_isWest == b->m_tz.m_isWest); }
/* the value holds exactly r: same type, same bits, read through the public getters */
static inline int is_raw(rbusValue_t v, const struct raw* r) {
  if (!v || rbusValue_GetType(v) != vh_type[r->k]) return 0;
  switch (r->k) {
    case K_BOOL: { bool x = 0; return (rbusValue_GetBooleanEx(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (bool)r->n) & (rbusValue_GetBoolean(v) == (bool)r->n); }
    case K_CHAR: { char x = 0; return (rbusValue_GetCharEx(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (char)r->n) & (rbusValue_GetChar(v) == (char)r->n); }
    case K_BYTE: { unsigned char x = 0; return (rbusValue_GetByteEx(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (unsigned char)r->n) & (rbusValue_GetByte(v) == (unsigned char)r->n); }
    case K_I8: { int8_t x = 0; return (rbusValue_GetInt8Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (int8_t)r->n) & (rbusValue_GetInt8(v) == (int8_t)r->n); }
    case K_U8: { uint8_t x = 0; return (rbusValue_GetUInt8Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (uint8_t)r->n) & (rbusValue_GetUInt8(v) == (uint8_t)r->n); }
    case K_I16: { int16_t x = 0; return (rbusValue_GetInt16Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (int16_t)r->n) & (rbusValue_GetInt16(v) == (int16_t)r->n); }
    case K_U16: { uint16_t x = 0; return (rbusValue_GetUInt16Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (uint16_t)r->n) & (rbusValue_GetUInt16(v) == (uint16_t)r->n); }
    case K_I32: { int32_t x = 0; return (rbusValue_GetInt32Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (int32_t)r->n) & (rbusValue_GetInt32(v) == (int32_t)r->n); }
    case K_U32: { uint32_t x = 0; return (rbusValue_GetUInt32Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (uint32_t)r->n) & (rbusValue_GetUInt32(v) == (uint32_t)r->n); }
    case K_I64: { int64_t x = 0; return (rbusValue_GetInt64Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == (int64_t)r->n) & (rbusValue_GetInt64(v) == (int64_t)r->n); }
    case K_U64: { uint64_t x = 0; return (rbusValue_GetUInt64Ex(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (x == r->n) & (rbusValue_GetUInt64(v) == r->n); }
    case K_F32: { float x = 0; return (rbusValue_GetSingleEx(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (f32bits(x) == (uint32_t)r->n) & (f32bits(rbusValue_GetSingle(v)) == (uint32_t)r->n); }
    case K_F64: { double x = 0; return (rbusValue_GetDoubleEx(v, &x) == RBUS_VALUE_ERROR_SUCCESS) & (f64bits(x) == r->n) & (f64bits(rbusValue_GetDouble(v)) == r->n); }
    case K_TIME: { const rbusDateTime_t* x = 0; return (rbusValue_GetTimeEx(v, &x) == RBUS_VALUE_ERROR_SUCCESS) && time_eq(x, &r->t) & time_eq(rbusValue_GetTime(v), &r->t); }
    case K_STR: { const char* x = 0; int n = -1; int rc = rbusValue_GetStringEx(v, &x, &n); if (rc != RBUS_VALUE_ERROR_SUCCESS || !x || n != r->len) return 0; int m = -1; const char* y = rbusValue_GetString(v, &m); if (!y || m != n) return 0; return vp_memeq(x, r->b, (size_t)r->len + 1) & vp_memeq(y, r->b, (size_t)r->len + 1); }
    case K_BYTES: { const uint8_t* x = 0; int n = -1; int rc = rbusValue_GetBytesEx(v, &x, &n); if (rc != RBUS_VALUE_ERROR_SUCCESS || !x || n != r->len) return 0; int m = -1; const uint8_t* y = rbusValue_GetBytes(v, &m); if (!y || m != n) return 0; return vp_memeq(x, r->b, (size_t)r->len) & vp_memeq(y, r->b, (size_t)r->len); } }
  return 0; }
/* every typed getter that does not match kind k refuses and leaves its output alone */
static inline int others_refuse(rbusValue_t v, int k) {
  int ok = 1; uint64_t m = 0x5a5a5a5a5a5a5a5aULL, x;
#define R1(K, F, T) if (k != K) { x = m; ok &= rbusValue_Get##F##Ex(v, (T*)&x) == RBUS_VALUE_ERROR_TYPE; ok &= x == m; }
  R1(K_BOOL, Boolean, bool) R1(K_CHAR, Char, char) R1(K_BYTE, Byte, unsigned char) R1(K_I8, Int8, int8_t) R1(K_U8, UInt8, uint8_t) R1(K_I16, Int16, int16_t) R1(K_U16, UInt16, uint16_t) R1(K_I32, Int32, int32_t) R1(K_U32, UInt32, uint32_t) R1(K_I64, Int64, int64_t) R1(K_U64, UInt64, uint64_t) R1(K_F32, Single, float) R1(K_F64, Double, double)
  if (k != K_TIME) { const rbusDateTime_t* t = (void*)&x; ok &= rbusValue_GetTimeEx(v, &t) == RBUS_VALUE_ERROR_TYPE; ok &= t == (void*)&x; }
  if (k != K_STR && k != K_BYTES) { const char* s = (void*)&x; const uint8_t* b = (void*)&x; int n = 7; ok &= rbusValue_GetStringEx(v, &s, &n) == RBUS_VALUE_ERROR_TYPE; ok &= rbusValue_GetBytesEx(v, &b, &n) == RBUS_VALUE_ERROR_TYPE; ok &= s == (void*)&x; ok &= b == (void*)&x; }
  { rbusProperty_t p = (void*)&x; rbusObject_t o = (void*)&x; ok &= rbusValue_GetPropertyEx(v, &p) == RBUS_VALUE_ERROR_TYPE; ok &= rbusValue_GetObjectEx(v, &o) == RBUS_VALUE_ERROR_TYPE; ok &= p == (void*)&x; ok &= o == (void*)&x; }
  return ok; }
static inline int raw_eq(const struct raw* a, const struct raw* b) { if (a->k != b->k || a->len != b->len) return 0; return (a->n == b->n) & (a->k == K_TIME ? time_eq(&a->t, &b->t) : 1) & vp_memeq(a->b, b->b, (size_t)a->len); }
static inline void observe_value(rbusValue_t v) { vp_observe(rbusValue_GetType(v)); if (rbusValue_GetType(v) != RBUS_NONE && rbusValue_GetType(v) < RBUS_PROPERTY && rbusValue_GetV(v)) for (uint32_t i = 0; i < rbusValue_GetL(v) && i < 8; i++) vp_observe(rbusValue_GetV(v)[i]); }
#endif
