/* Ordering and equality of values. */
#include "vh_value.h"
static int sg(int x) { return (x > 0) - (x < 0); }
static int neg_of(const struct raw* r, uint64_t* m) { /* sign and 64 bit pattern of an integral value */
  int64_t s; switch (r->k) { case K_CHAR: s = (char)r->n; break; case K_I8: s = (int8_t)r->n; break; case K_I16: s = (int16_t)r->n; break; case K_I32: s = (int32_t)r->n; break; case K_I64: s = (int64_t)r->n; break; default: *m = r->n; return 0; }
  *m = (uint64_t)s; return s < 0; }
static int cmp(rbusValue_t a, rbusValue_t b) { int c = sg(rbusValue_Compare(a, b)), d = sg(rbusValue_Compare(b, a)); vp_check(c == -d, "comparison is antisymmetric"); return c; }
static void ints(void) {
  static struct raw a, b; rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); mk_raw(&a, (int)vp_choose(K_F32, "ka"), 0, 0); mk_raw(&b, (int)vp_choose(K_F32, "kb"), 0, 0); set_raw(v, &a); set_raw(w, &b);
  uint64_t x, y; int nx = neg_of(&a, &x), ny = neg_of(&b, &y); int want = nx != ny ? (nx ? -1 : 1) : (x > y) - (x < y);
  vp_check(cmp(v, w) == want, "integers compare by mathematical value"); vp_observe((uint64_t)sg(rbusValue_Compare(v, w))); vp_reach("ints"); }
static double dbl(const struct raw* r) { switch (r->k) { case K_F32: return (double)bitsf32(r->n); case K_F64: return bitsf64(r->n); case K_CHAR: return (char)r->n; case K_I8: return (int8_t)r->n; case K_I16: return (int16_t)r->n; case K_I32: return (int32_t)r->n; default: return (double)(uint32_t)r->n; } }
static void floats(void) {
  static struct raw a, b; static const int ks[] = { K_F32, K_F64, K_I32, K_U32, K_I16, K_U8, K_BOOL }; rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0);
  mk_raw(&a, ks[vp_choose(2, "ka")], 0, 0); mk_raw(&b, ks[vp_choose(7, "kb")], 0, 0); set_raw(v, &a); set_raw(w, &b); double x = dbl(&a), y = dbl(&b); int nx = x != x, ny = y != y;
  int want = nx | ny ? nx - ny : (x > y) - (x < y);
  vp_check(cmp(v, w) == want, "floating point numbers compare by value, NaN equal to itself only"); vp_reach("floats"); }
static void texts(void) {
  static struct raw a, b; int k = vp_choose(2, "kind") ? K_STR : K_BYTES, hi = (int)vp_param("hi", 3); rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); mk_raw(&a, k, 0, hi); mk_raw(&b, k, 0, hi); set_raw(v, &a); set_raw(w, &b);
  int want = 0, n = a.len < b.len ? a.len : b.len; for (int i = n - 1; i >= 0; i--) want = a.b[i] == b.b[i] ? want : a.b[i] < b.b[i] ? -1 : 1; int same = 1; for (int i = 0; i < n; i++) same &= a.b[i] == b.b[i]; if (same) want = (a.len > b.len) - (a.len < b.len);
  vp_check(cmp(v, w) == want, "strings and byte arrays compare byte by byte, shorter first"); vp_reach("texts"); }
static const int cum[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
static void mkt(rbusDateTime_t* t, int64_t* sec, int pair) { /* a valid date; the chosen fields are free, the others fixed */
  static const int ym[3][2] = { {124, 1}, {124, 2}, {123, 11} }; int c = pair == 6 ? (int)vp_choose(3, "month") : 1; memset(t, 0, sizeof *t); t->m_time.tm_year = ym[c][0]; t->m_time.tm_mon = ym[c][1]; t->m_time.tm_mday = 15; t->m_time.tm_hour = 12; t->m_time.tm_min = 30; t->m_time.tm_sec = 45;
  if (pair == 0 || pair == 6) t->m_time.tm_mday = (int32_t)vp_range("mday", 1, 28); if (pair == 0 || pair == 1 || pair == 3) t->m_time.tm_hour = (int32_t)vp_range("hour", 0, 23); if (pair == 1 || pair == 2 || pair == 4) t->m_time.tm_min = (int32_t)vp_range("min", 0, 59); if (pair == 2) t->m_time.tm_sec = (int32_t)vp_range("sec", 0, 59);
  if (pair == 3 || pair == 5) { static const int H[4] = { 0, 1, 5, 14 }; t->m_tz.m_tzhour = vp_param("freetz", 0) ? (int32_t)vp_range("tzh", 0, 14) : H[vp_choose(4, "tzh")]; } if (pair == 4 || pair == 5) { static const int N[4] = { 0, 30, 45, 59 }; t->m_tz.m_tzmin = vp_param("freetz", 0) ? (int32_t)vp_range("tzm", 0, 59) : N[vp_choose(4, "tzm")]; } if (pair >= 3 && pair <= 5) t->m_tz.m_isWest = vp_choose(2, "west");
  int64_t off = t->m_tz.m_tzhour * 3600 + t->m_tz.m_tzmin * 60; if (t->m_tz.m_isWest) off = -off;
  int64_t days = (t->m_time.tm_year - 70) * 365 + (t->m_time.tm_year - 69) / 4 + cum[t->m_time.tm_mon] + (t->m_time.tm_mon > 1 && t->m_time.tm_year == 124) + t->m_time.tm_mday - 1;
  *sec = days * 86400 + t->m_time.tm_hour * 3600 + t->m_time.tm_min * 60 + t->m_time.tm_sec - off; }
static void times(void) {
  rbusDateTime_t a, b; int64_t x, y; int pair = (int)vp_param("pair", 0); mkt(&a, &x, pair); mkt(&b, &y, pair); rbusValue_t v = rbusValue_InitTime(&a), w = rbusValue_InitTime(&b); int want = (x > y) - (x < y);
  vp_check(cmp(v, w) == want, "date-times compare by the instant they denote"); vp_reach("times"); }
static void mixed(void) { /* numbers, times, strings and bytes never equal each other */
  static struct raw a, b; static const int ks[] = { K_I32, K_F64, K_TIME, K_STR, K_BYTES }; int i = (int)vp_choose(5, "ka"), j = (int)vp_choose(5, "kb"); vp_assume(i != j && !(i < 2 && j < 2)); rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); mk_raw(&a, ks[i], 0, 2); mk_raw(&b, ks[j], 0, 2); set_raw(v, &a); set_raw(w, &b);
  vp_check(cmp(v, w) != 0, "values of different kinds are never equal"); vp_reach("mixed"); }
static void handles(void) { static struct raw a; rbusValue_t v = rbusValue_Init(0), n = rbusValue_Init(0), m = rbusValue_Init(0); mk_raw(&a, (int)vp_choose(K_N, "k"), 0, 2); set_raw(v, &a); vp_check(rbusValue_Compare(v, v) == 0, "a value equals itself"); vp_check(rbusValue_Compare(v, NULL) != 0 && rbusValue_Compare(NULL, v) != 0, "a value differs from no value"); vp_check(rbusValue_Compare(v, n) != 0 && rbusValue_Compare(n, v) != 0, "a value differs from an empty value"); vp_check(rbusValue_Compare(n, m) == 0, "empty values are equal"); vp_reach("handles"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: ints(); break; case 1: floats(); break; case 2: texts(); break; case 3: times(); break; case 4: mixed(); break; case 5: handles(); break; } return 0; }
