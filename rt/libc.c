/* Models of the C library, used by the symbolic executor only (native replay uses the real one). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include "vp.h"
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); int strcmp(const char*, const char*); int strncmp(const char*, const char*, size_t); void* memset(void*, int, size_t); void* realloc(void*, size_t); int memcmp(const void*, const void*, size_t);
static int g_errno; int* __errno_location(void) { return &g_errno; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char* stpcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char* strncpy(char* d, const char* s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); if (l < n) memset(d + l, 0, n - l); return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), k = strnlen(s, n); memcpy(d + l, s, k); d[l + k] = 0; return d; }
size_t strlcpy(char* d, const char* s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char*)s; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (strncmp(h, n, l) == 0) return (char*)h; return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); if (p) memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char* __strtok_r(char* s, const char* d, char** sv) { return strtok_r(s, d, sv); }
static char* tok_sv; char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok_sv); }
int isdigit(int c) { return (unsigned)c - '0' < 10u; } int isupper(int c) { return (unsigned)c - 'A' < 26u; } int islower(int c) { return (unsigned)c - 'a' < 26u; } int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26u; } int isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26u) | ((unsigned)c - '0' < 10u); } int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); } int isprint(int c) { return (unsigned)c - 32 < 95u; } int isxdigit(int c) { return ((unsigned)c - '0' < 10u) | (((unsigned)c | 32) - 'a' < 6u); } int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); } int isgraph(int c) { return (unsigned)c - 33 < 94u; } int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int tolower(int c) { return c + (((unsigned)c - 'A' < 26u) ? 32 : 0); } int toupper(int c) { return c - (((unsigned)c - 'a' < 26u) ? 32 : 0); }
static uint64_t strtox(const char* s, char** end, int base, int sgn, uint64_t max, uint64_t minmag) {
  const char* p = s; int neg = 0; while (isspace((unsigned char)*p)) p++; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  uint64_t v = 0; int any = 0, ovf = 0;
  for (;;) { unsigned char c = (unsigned char)*p; int d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = 1; uint64_t lim = neg && sgn ? minmag : max; if (!ovf) { if (v > (lim - (uint64_t)d) / (uint64_t)base) ovf = 1; else v = v * (uint64_t)base + (uint64_t)d; } p++; }
  if (end) *end = (char*)(any ? p : s); if (ovf) { g_errno = 34; return neg && sgn ? (uint64_t)0 - minmag : max; } return neg ? (uint64_t)0 - v : v; }
long strtol(const char* s, char** e, int b) { return (long)strtox(s, e, b, 1, LONG_MAX, (uint64_t)LONG_MAX + 1); } long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long strtoul(const char* s, char** e, int b) { return strtox(s, e, b, 0, ULONG_MAX, ULONG_MAX); } unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); } long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); } long long atoll(const char* s) { return strtol(s, 0, 10); }
char* strerror(int e) { (void)e; return "error"; } int strerror_r_dummy; int __xpg_strerror_r(int e, char* b, size_t n) { (void)e; if (n) b[0] = 0; return 0; } char* strerror_r(int e, char* b, size_t n) { (void)e; if (n) b[0] = 0; return b; }
char* __progname = "vp"; char* optarg; int optind; void perror(const char* s) { (void)s; }
uint16_t htons(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); } uint16_t ntohs(uint16_t v) { return htons(v); } uint32_t htonl(uint32_t v) { return ((v & 0xff) << 24) | ((v & 0xff00) << 8) | ((v >> 8) & 0xff00) | (v >> 24); } uint32_t ntohl(uint32_t v) { return htonl(v); }
void qsort(void* b, size_t n, size_t s, int (*cmp)(const void*, const void*)) { char* a = b; char t[256]; if (s > 256) { vp_incomplete("qsort element"); return; } for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * s, a + j * s) > 0; j--) { memcpy(t, a + j * s, s); memcpy(a + j * s, a + (j - 1) * s, s); memcpy(a + (j - 1) * s, t, s); } }
int abs(int x) { return x < 0 ? -x : x; } 
double difftime(long a, long b) { return (double)(a - b); }
/* ---- formatted output */
struct out { char* b; size_t n, cap; };
static void put(struct out* o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void pad(struct out* o, int n, char c) { while (n-- > 0) put(o, c); }
static void num(struct out* o, uint64_t v, int neg, int base, int upper, int width, int prec, int left, int zero, int plus, int alt) {
  char t[24]; int k = 0; const char* dg = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  if (base == 16) { int started = 0; (void)started; do { t[k++] = dg[v & 15]; v >>= 4; } while (v); }
  else if (base == 8) { do { t[k++] = (char)('0' + (v & 7)); v >>= 3; } while (v); }
  else { if ((v >> 32) == 0) { uint32_t w = (uint32_t)v; do { t[k++] = (char)('0' + w % 10); w /= 10; } while (w); } else do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); }
  int digits = k; int z = 0; if (prec > digits) z = prec - digits; int sign = neg || plus; int pre = (alt && base == 16) ? 2 : 0; int total = digits + z + sign + pre;
  if (!left && zero && prec < 0 && width > total) { z += width - total; total = width; }
  if (!left) pad(o, width - total, ' '); if (neg) put(o, '-'); else if (plus) put(o, '+'); if (pre) { put(o, '0'); put(o, 'x'); } pad(o, z, '0'); while (k > 0) put(o, t[--k]); if (left) pad(o, width - total, ' '); }
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  struct out o = {buf, 0, cap};
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; } f++;
    int left = 0, zero = 0, plus = 0, alt = 0, space = 0; for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') space = 1; else break; } (void)space;
    int width = 0, prec = -1; int wstar = 0; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } wstar = 1; f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0'); (void)wstar;
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int l = 0; for (;; f++) { if (*f == 'l') l++; else if (*f == 'h') l--; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else break; }
    switch (*f) {
      case 0: f--; break;
      case '%': put(&o, '%'); break;
      case 'c': { char c = (char)va_arg(ap, int); if (!left) pad(&o, width - 1, ' '); put(&o, c); if (left) pad(&o, width - 1, ' '); break; }
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t n = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s); if (!left) pad(&o, width - (int)n, ' '); for (size_t i = 0; i < n; i++) put(&o, s[i]); if (left) pad(&o, width - (int)n, ' '); break; }
      case 'd': case 'i': { int64_t v = l >= 1 ? va_arg(ap, long) : va_arg(ap, int); if (l == -1) v = (short)v; else if (l == -2) v = (signed char)v; int neg = v < 0; num(&o, neg ? (uint64_t)0 - (uint64_t)v : (uint64_t)v, neg, 10, 0, width, prec, left, zero, plus, 0); break; }
      case 'u': case 'x': case 'X': case 'o': { uint64_t v = l >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (l == -1) v = (unsigned short)v; else if (l == -2) v = (unsigned char)v; num(&o, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, prec, left, zero, 0, alt); break; }
      case 'p': { uint64_t v = (uint64_t)va_arg(ap, void*); num(&o, v, 0, 16, 0, width, prec, left, zero, 0, 1); break; }
      case 'f': case 'e': case 'g': case 'F': case 'G': case 'E': { double d = va_arg(ap, double); char fm[16]; int k = 0; fm[k++] = '%'; if (left) fm[k++] = '-'; if (zero) fm[k++] = '0'; if (plus) fm[k++] = '+'; if (width) fm[k++] = '*'; if (prec >= 0) { fm[k++] = '.'; fm[k++] = '*'; } fm[k++] = *f; fm[k] = 0; char t[512]; int n = vp_fmt_double(t, sizeof t, fm, width ? width : -1, prec, d); for (int i = 0; i < n; i++) put(&o, t[i]); break; }
      default: vp_incomplete("unmodelled printf conversion"); } }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 22, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1u << 22, f, ap); }
int asprintf(char** o, const char* f, ...) { va_list ap, aq; va_start(ap, f); va_copy(aq, ap); int n = vsnprintf(0, 0, f, ap); va_end(ap); *o = malloc((size_t)n + 1); vsnprintf(*o, (size_t)n + 1, f, aq); va_end(aq); return n; }
static int vsscanf_(const char* s, const char* f, va_list ap) { int cnt = 0; const char* st = s;
  for (; *f; f++) { if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; } if (*f != '%') { if (*s != *f) return cnt; s++; continue; } f++; int supp = 0; if (*f == '*') { supp = 1; f++; } int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); int l = 0; for (;; f++) { if (*f == 'l') l++; else if (*f == 'h') l--; else if (*f == 'z') l = 1; else break; }
    switch (*f) { case 'c': if (!*s) return cnt ? cnt : -1; if (!supp) { *va_arg(ap, char*) = *s; cnt++; } s++; break;
      case 'n': *va_arg(ap, int*) = (int)(s - st); break;
      case 'd': case 'u': case 'x': case 'i': { while (isspace((unsigned char)*s)) s++; if (!*s) return cnt ? cnt : -1; char t[32]; int k = 0; int lim = w && w < 31 ? w : 31; const char* p = s; if ((*p == '-' || *p == '+') && k < lim) t[k++] = *p++; while (k < lim && (*f == 'x' ? isxdigit((unsigned char)*p) : isdigit((unsigned char)*p))) t[k++] = *p++; t[k] = 0; char* e; long v = strtol(t, &e, *f == 'x' ? 16 : 10); if (e == t) return cnt; s += e - t; if (!supp) { if (l >= 1) *va_arg(ap, long*) = v; else if (l == -1) *va_arg(ap, short*) = (short)v; else if (l == -2) *va_arg(ap, char*) = (char)v; else *va_arg(ap, int*) = (int)v; cnt++; } break; }
      case 's': { while (isspace((unsigned char)*s)) s++; if (!*s) return cnt ? cnt : -1; char* d = supp ? 0 : va_arg(ap, char*); int k = 0; while (*s && !isspace((unsigned char)*s) && (!w || k < w)) { if (d) d[k] = *s; k++; s++; } if (d) { d[k] = 0; cnt++; } break; }
      default: vp_incomplete("unmodelled scanf conversion"); return cnt; } }
  return cnt; }
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf_(s, f, ap); va_end(ap); return r; }
/* decimal strtod on concrete text only; symbolic text is outside the model */
double strtod(const char* s, char** e) { const char* p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++; if (vp_is_symbolic((unsigned char)*p)) vp_incomplete("strtod of symbolic text"); double v = 0; int any = 0; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p++ - '0'); any = 1; } if (*p == '.') { p++; double sc = 0.1; while (isdigit((unsigned char)*p)) { v += (*p++ - '0') * sc; sc /= 10; any = 1; } } if (e) *e = (char*)(any ? p : s); return neg ? -v : v; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); } double atof(const char* s) { return strtod(s, 0); }
/* ---- time: proleptic Gregorian UTC, the zone of the sandbox */
struct tm_ { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long tm_gmtoff; const char* tm_zone; };
static int64_t days_from_civil(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400; int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
long mktime(struct tm_* t) { int64_t mon = t->tm_mon; int64_t y = (int64_t)t->tm_year + 1900 + mon / 12; int m = (int)(mon % 12); if (m < 0) { m += 12; y--; } int64_t days = days_from_civil(y, m + 1, 1) + t->tm_mday - 1; t->tm_isdst = 0; return days * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec; }
long timegm(struct tm_* t) { return mktime(t); }
static struct tm_ lt_; struct tm_* localtime(const long* t) { (void)t; lt_.tm_year = 100; return &lt_; } struct tm_* gmtime(const long* t) { return localtime(t); } struct tm_* localtime_r(const long* t, struct tm_* o) { *o = *localtime(t); return o; } struct tm_* gmtime_r(const long* t, struct tm_* o) { *o = *localtime(t); return o; } size_t strftime(char* b, size_t n, const char* f, const struct tm_* t) { (void)f; (void)t; if (n) b[0] = 0; return 0; }
static int dg2(const char** p, int maxd, int lo, int hi, int* out) { int v = 0, k = 0; while (isspace((unsigned char)**p)) (*p)++; while (k < maxd && isdigit((unsigned char)**p)) { int nv = v * 10 + (**p - '0'); if (nv > hi && k > 0) break; v = nv; (*p)++; k++; } if (!k || v < lo || v > hi) return 0; *out = v; return 1; }
char* strptime(const char* s, const char* f, struct tm_* t) { for (; *f; f++) { if (*f != '%') { if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; } if (*s != *f) return 0; s++; continue; } f++; int v; switch (*f) { case 'Y': if (!dg2(&s, 4, 0, 9999, &v)) return 0; t->tm_year = v - 1900; break; case 'm': if (!dg2(&s, 2, 1, 12, &v)) return 0; t->tm_mon = v - 1; break; case 'd': if (!dg2(&s, 2, 1, 31, &v)) return 0; t->tm_mday = v; break; case 'H': if (!dg2(&s, 2, 0, 23, &v)) return 0; t->tm_hour = v; break; case 'M': if (!dg2(&s, 2, 0, 59, &v)) return 0; t->tm_min = v; break; case 'S': if (!dg2(&s, 2, 0, 61, &v)) return 0; t->tm_sec = v; break; default: vp_incomplete("strptime"); return 0; } } return (char*)s; }
char* inet_ntoa(uint32_t a) { (void)a; static char b[16] = "127.0.0.1"; return b; } const char* inet_ntop(int f, const void* s, char* d, unsigned n) { (void)f; (void)s; if (n < 10) return 0; strcpy(d, "127.0.0.1"); return d; } int inet_pton(int f, const char* s, void* d) { if (f != 2) return 0; /* no address with a colon is used */ unsigned char o[4]; int n = 0, v = 0, dg = 0; for (;; s++) { if (*s >= '0' && *s <= '9') { if (dg && v == 0) return 0; v = v * 10 + (*s - '0'); if (v > 255) return 0; if (!dg) { if (++n > 4) return 0; dg = 1; } o[n - 1] = (unsigned char)v; } else if (*s == '.') { if (!dg || n == 4) return 0; v = 0; dg = 0; } else if (!*s) break; else { if (*s == ':') vp_incomplete("inet_pton of v6"); return 0; } } if (n < 4 || !dg) return 0; memcpy(d, o, 4); return 1; }
