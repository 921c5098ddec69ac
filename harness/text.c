/* Values as text. */
#include "vh_value.h"
static void roundtrip(void) { /* printing and parsing are inverse */
  static struct raw r; static const int ks[] = { K_BOOL, K_I8, K_U8, K_I16, K_U16, K_I32, K_U32, K_I64, K_U64, K_CHAR, K_STR }; int k = ks[vp_param("k", 0)]; uint64_t base = vp_heap_live();
  mk_raw(&r, k, 0, 4); if (k == K_CHAR) vp_assume(r.n != 0);
  int off = (int)vp_param("offbits", 0); if (off) { /* a window of 2^offbits values around zero, the extremes of the type and its sign change, and around powers of ten */ int b = vh_bits[k]; uint64_t top = b == 64 ? ~0ULL : (1ULL << b) - 1; uint64_t at[] = { 0, top - 30, top / 2 - 15, 999999990ULL & top, 99999999999999990ULL & top, 9999999999999999990ULL & top }; r.n = (at[vp_choose(6, "window")] + (vp_input("off", 64) & ((1ULL << off) - 1))) & top; }
  rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); set_raw(v, &r); char* s = rbusValue_ToString(v, NULL, 0); vp_check(s != NULL, "every value has a text"); vp_check(is_raw(v, &r), "printing leaves the value alone");
  vp_check(rbusValue_SetFromString(w, vh_type[k], s), "the text of a value is accepted for its type"); vp_check(is_raw(w, &r), "parsing the text of a value restores it"); free(s); rbusValue_Release(v); rbusValue_Release(w); vp_check(vp_heap_live() == base, "texts are freed"); vp_reach("text round trip"); }
static void date_roundtrip(void) {
  static struct raw r; memset(&r, 0, sizeof r); r.k = K_TIME; struct tm32* t = &r.t.m_time; static const int ys[] = { 70, 99, 124, 200 }; t->tm_year = ys[vp_choose(4, "year")]; int f = (int)vp_choose(5, "field"); t->tm_mon = 10; t->tm_mday = 15; t->tm_hour = 7; t->tm_min = 30; t->tm_sec = 9;
  if (f == 0) t->tm_mon = (int)vp_range("mon", 0, 11); if (f == 1) t->tm_mday = (int)vp_range("mday", 1, 28); if (f == 2) t->tm_hour = (int)vp_range("hour", 0, 23); if (f == 3) t->tm_min = (int)vp_range("min", 0, 59); if (f == 4) t->tm_sec = (int)vp_range("sec", 0, 59);
  switch (vp_choose(3, "zone")) { case 1: r.t.m_tz.m_tzhour = (int)vp_range("tzh", 1, 14); r.t.m_tz.m_isWest = vp_choose(2, "west"); break; case 2: r.t.m_tz.m_tzmin = (int)vp_range("tzm", 1, 59); r.t.m_tz.m_isWest = vp_choose(2, "west"); break; }
  rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); set_raw(v, &r); char* s = rbusValue_ToString(v, NULL, 0); vp_check(rbusValue_SetFromString(w, RBUS_DATETIME, s), "the text of a date-time is accepted"); const rbusDateTime_t* o = rbusValue_GetTime(w);
  vp_check((o->m_time.tm_year == t->tm_year) & (o->m_time.tm_mon == t->tm_mon) & (o->m_time.tm_mday == t->tm_mday) & (o->m_time.tm_hour == t->tm_hour) & (o->m_time.tm_min == t->tm_min) & (o->m_time.tm_sec == t->tm_sec) & (o->m_tz.m_tzhour == r.t.m_tz.m_tzhour) & (o->m_tz.m_tzmin == r.t.m_tz.m_tzmin) & (o->m_tz.m_isWest == r.t.m_tz.m_isWest), "parsing the text of a date-time restores date, time and zone"); vp_reach("date round trip"); }
/* magnitude in 64 bits, *big set when it does not fit */
static int parse(const char* s, int* neg, uint64_t* mag, int* big) { int i = 0; *neg = 0; while (s[i] == ' ') i++; if (s[i] == '-' || s[i] == '+') { *neg = s[i] == '-'; i++; } if (!s[i]) return 0; *mag = 0; *big = 0; for (; s[i]; i++) { if (s[i] < '0' || s[i] > '9') return 0; unsigned d = (unsigned)(s[i] - '0'); *big |= (*mag > 1844674407370955161ULL) | ((*mag == 1844674407370955161ULL) & (d > 5)); *mag = *mag * 10 + d; } return 1; }
static void strict(void) { /* decimal text: accepted exactly when it denotes a number of the type */
  static const int ks[] = { K_I16, K_U16, K_I32, K_U32, K_I64, K_U64 }; int k = ks[vp_param("k", 0)]; static char s[40]; static const char* pre[] = { "", "327", "655", "21474836", "42949672", "92233720368547758", "184467440737095516", "99999999999999999999" }; const char* p = pre[vp_param("pre", 0)]; int neg0 = (int)vp_choose(2, "minus"); int n = 0; if (neg0) s[n++] = '-'; for (int i = 0; p[i]; i++) s[n++] = p[i];
  vp_string_of(s + n, 0, (uint32_t)vp_param("n", 3), vp_param("pre", 0) ? "0123456789" : "0159-+ x", "c"); int neg = 0, big = 0; uint64_t mag = 0; int wf = parse(s, &neg, &mag, &big); unsigned b = (unsigned)vh_bits[k]; int sgn = k == K_I16 || k == K_I32 || k == K_I64; uint64_t top = b == 64 ? ~0ULL : (1ULL << b) - 1, maxp = sgn ? top / 2 : top, maxn = sgn ? top / 2 + 1 : 0;
  int want = wf && !big && mag <= (neg ? maxn : maxp); static struct raw old, nw; mk_raw(&old, K_I32, 0, 0); rbusValue_t v = rbusValue_Init(0); set_raw(v, &old); int ok = rbusValue_SetFromString(v, vh_type[k], s);
  vp_check(ok == want, "decimal text is accepted exactly when it is a number in range"); if (ok) { nw.k = k; nw.n = neg ? 0 - (uint64_t)mag : (uint64_t)mag; vp_check(is_raw(v, &nw), "accepted text yields the number it denotes"); } else vp_check(is_raw(v, &old), "refused text leaves the value alone"); vp_reach("strict"); }
static void booleans(void) { static char s[10]; static const char* w[] = { "", "true", "false", "1", "0" }; int b = (int)vp_choose(5, "begins"), n = (int)strlen(w[b]); memcpy(s, w[b], (size_t)n); for (int i = 0; i < n; i++) if (w[b][i] > '9') s[i] = (char)(s[i] - 32 * (vp_u8("upper") & 1)); vp_string_of(s + n, 0, b ? 2 : 5, b ? "e1 x0h" : "truefalsTRUEFALS01x", "c"); char l[10]; int i; for (i = 0; s[i]; i++) l[i] = (char)(s[i] | ((s[i] >= 'A') & (s[i] <= 'Z') ? 32 : 0)); l[i] = 0; int t = !strcmp(l, "true") | !strcmp(s, "1"), f = !strcmp(l, "false") | !strcmp(s, "0"); rbusValue_t v = rbusValue_Init(0); int ok = rbusValue_SetFromString(v, RBUS_BOOLEAN, s); vp_check(ok == (t | f), "boolean text is true, false, 1 or 0 in any case"); if (ok) vp_check(rbusValue_GetBoolean(v) == t, "boolean text yields its value"); vp_reach("booleans"); }
static void bounded(void) { /* a caller's buffer of any size */
  static struct raw r; static const int ks[] = { K_STR, K_BYTES, K_I32, K_BOOL, K_U64, K_TIME }; int k = ks[vp_choose(6, "kind")]; rbusValue_t v = rbusValue_Init(0); if (k >= K_STR) mk_raw(&r, k, 0, 4); else { memset(&r, 0, sizeof r); r.k = k; r.n = k == K_BOOL ? 1 : 1234567; r.t.m_time.tm_year = 124; r.t.m_time.tm_mday = 2; } set_raw(v, &r);
  char* full = rbusValue_ToString(v, NULL, 0); int L = (int)strlen(full); int n = (int)vp_choose(30, "bufsize"); char* b = malloc((size_t)n + 1); memset(b, 0x7f, (size_t)n + 1); char* o = rbusValue_ToString(v, b, (size_t)n); vp_check(o == b, "printing into a buffer returns it"); vp_check(b[n] == 0x7f, "printing never writes past the buffer");
  if (n > 0) { int m = 0; while (m < n && b[m]) m++; int cut = k == K_STR ? m == n : m < n; vp_check(L < n ? m == L && m < n : cut, "printed text is terminated"); int full_ok = L < n ? m == L : (k == K_BYTES ? m == (n - 1) / 2 * 2 || m == n - 1 : k == K_STR ? m == n : m == n - 1); vp_check(full_ok && vp_memeq(b, full, (size_t)m), "a buffer receives the text or as much of it as fits"); } vp_reach("bounded"); }
static void bytes_hex(void) { static struct raw r; mk_raw(&r, K_BYTES, 0, 3); rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); set_raw(v, &r); char* s = rbusValue_ToString(v, NULL, 0); vp_check((int)strlen(s) == 2 * r.len, "bytes print as two hex digits each"); static const char* H = "0123456789ABCDEF"; int ok = 1; for (int i = 0; i < r.len; i++) ok &= (s[2 * i] == H[r.b[i] >> 4]) & (s[2 * i + 1] == H[r.b[i] & 15]); vp_check(ok, "bytes print as their hex digits"); free(s);
  mk_raw(&r, K_STR, 0, 4); vp_check(rbusValue_SetFromString(w, RBUS_BYTES, (char*)r.b), "any text is accepted as bytes"); r.k = K_BYTES; vp_check(is_raw(w, &r), "text taken as bytes is kept as it is"); vp_check(!rbusValue_SetFromString(w, RBUS_BYTES, NULL) && !rbusValue_SetFromString(NULL, RBUS_BYTES, "x") && !rbusValue_SetFromString(w, RBUS_OBJECT, "x") && !rbusValue_SetFromString(w, RBUS_NONE, "x") && is_raw(w, &r), "missing text or unsupported types are refused"); vp_reach("hex"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: roundtrip(); break; case 1: date_roundtrip(); break; case 2: strict(); break; case 3: booleans(); break; case 4: bounded(); break; case 5: bytes_hex(); break; } return 0; }
