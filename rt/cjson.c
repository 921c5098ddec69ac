/* Model of cJSON 1.7, used by the symbolic executor only (native replay links the real library). */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <cjson/cJSON.h>
#include "vp.h"
static const char* errp; const char* cJSON_GetErrorPtr(void) { return errp; }
static cJSON* nw(int t) { cJSON* j = malloc(sizeof *j); memset(j, 0, sizeof *j); j->type = t; return j; }
void cJSON_Delete(cJSON* j) { while (j) { cJSON* n = j->next; if (!(j->type & cJSON_IsReference) && j->child) cJSON_Delete(j->child); if (!(j->type & cJSON_IsReference) && j->valuestring) free(j->valuestring); if (!(j->type & cJSON_StringIsConst) && j->string) free(j->string); free(j); j = n; } }
cJSON* cJSON_CreateObject(void) { return nw(cJSON_Object); } cJSON* cJSON_CreateArray(void) { return nw(cJSON_Array); } cJSON* cJSON_CreateBool(cJSON_bool b) { return nw(b ? cJSON_True : cJSON_False); }
cJSON* cJSON_CreateString(const char* s) { cJSON* j = nw(cJSON_String); if (!s) { cJSON_Delete(j); return 0; } j->valuestring = strdup(s); return j; }
cJSON* cJSON_CreateNumber(double d) { cJSON* j = nw(cJSON_Number); j->valuedouble = d; j->valueint = d >= INT_MAX ? INT_MAX : d <= (double)INT_MIN ? INT_MIN : (int)d; return j; }
cJSON_bool cJSON_AddItemToArray(cJSON* a, cJSON* it) { if (!it || !a || a == it) return 0; if (!a->child) { a->child = it; it->prev = it; it->next = 0; } else { cJSON* l = a->child->prev; l->next = it; it->prev = l; a->child->prev = it; } return 1; }
cJSON_bool cJSON_AddItemToObject(cJSON* o, const char* n, cJSON* it) { if (!o || !n || !it || o == it) return 0; char* k = strdup(n); if (!(it->type & cJSON_StringIsConst) && it->string) free(it->string); it->string = k; it->type &= ~cJSON_StringIsConst; return cJSON_AddItemToArray(o, it); }
cJSON* cJSON_AddNumberToObject(cJSON* o, const char* n, double d) { cJSON* j = cJSON_CreateNumber(d); if (cJSON_AddItemToObject(o, n, j)) return j; cJSON_Delete(j); return 0; }
cJSON* cJSON_AddBoolToObject(cJSON* o, const char* n, cJSON_bool b) { cJSON* j = cJSON_CreateBool(b); if (cJSON_AddItemToObject(o, n, j)) return j; cJSON_Delete(j); return 0; }
static unsigned lc(unsigned char c) { return c + ((c - 'A' < 26u) ? 32 : 0); }
static int ieq(const char* a, const char* b) { if (!a || !b) return 0; if (a == b) return 1; for (;; a++, b++) { if (lc((unsigned char)*a) != lc((unsigned char)*b)) return 0; if (!*a) return 1; } }
cJSON* cJSON_GetObjectItem(const cJSON* o, const char* n) { if (!o || !n) return 0; cJSON* c = o->child; while (c && !ieq(n, c->string)) c = c->next; if (!c || !c->string) return 0; return c; }
int cJSON_GetArraySize(const cJSON* a) { int n = 0; if (!a) return 0; for (cJSON* c = a->child; c; c = c->next) n++; return n; }
cJSON* cJSON_GetArrayItem(const cJSON* a, int i) { if (i < 0 || !a) return 0; cJSON* c = a->child; while (c && i > 0) { i--; c = c->next; } return c; }
cJSON* cJSON_Duplicate(const cJSON* j, cJSON_bool rec) { if (!j) return 0; cJSON* n = nw(j->type & ~cJSON_IsReference); n->valueint = j->valueint; n->valuedouble = j->valuedouble; if (j->valuestring) n->valuestring = strdup(j->valuestring); if (j->string) n->string = strdup(j->string); if (rec) for (cJSON* c = j->child; c; c = c->next) cJSON_AddItemToArray(n, cJSON_Duplicate(c, 1)); return n; }
static cJSON_bool repl(cJSON* p, cJSON* it, cJSON* r) { if (!p || !p->child || !r || !it) return 0; if (r == it) return 1; r->next = it->next; r->prev = it->prev; if (r->next) r->next->prev = r; if (p->child == it) { if (p->child->prev == p->child) r->prev = r; p->child = r; } else { if (r->prev) r->prev->next = r; if (!r->next) p->child->prev = r; } it->next = 0; it->prev = 0; cJSON_Delete(it); return 1; }
cJSON_bool cJSON_ReplaceItemInObject(cJSON* o, const char* n, cJSON* r) { if (!r || !n) return 0; if (!(r->type & cJSON_StringIsConst) && r->string) free(r->string); r->string = strdup(n); r->type &= ~cJSON_StringIsConst; return repl(o, cJSON_GetObjectItem(o, n), r); }
/* ---- parsing */
struct ps { const unsigned char* s; size_t n, o; int depth; };
#define CAN(p, k) ((p)->o + (k) <= (p)->n)
#define AT(p, k) ((p)->o + (k) < (p)->n)
#define CH(p) ((p)->s[(p)->o])
static void ws(struct ps* p) { if (!AT(p, 0)) return; while (AT(p, 0) && CH(p) <= 32) p->o++; if (p->o == p->n) p->o--; }
static int hex4(const unsigned char* s, unsigned* v) { *v = 0; for (int i = 0; i < 4; i++) { unsigned c = s[i], d; if (c - '0' < 10u) d = c - '0'; else if ((c | 32) - 'a' < 6u) d = (c | 32) - 'a' + 10; else { *v = 0; return 0; } *v = *v * 16 + d; } return 1; }
static int pstr(struct ps* p, cJSON* it) {
  if (CH(p) != '"') return 0; const unsigned char* in = p->s + p->o + 1; const unsigned char* end = in; size_t skipped = 0; const unsigned char* lim = p->s + p->n;
  while (end < lim && *end != '"') { if (*end == '\\') { if (end + 1 >= lim) return 0; skipped++; end++; } end++; }
  if (end >= lim || *end != '"') return 0;
  char* out = malloc((size_t)(end - in) + 2); char* w = out;
  while (in < end) { if (*in != '\\') { *w++ = (char)*in++; continue; } int seq = 2; if (end - in < 1) goto bad;
    switch (in[1]) { case 'b': *w++ = '\b'; break; case 'f': *w++ = '\f'; break; case 'n': *w++ = '\n'; break; case 'r': *w++ = '\r'; break; case 't': *w++ = '\t'; break; case '"': case '\\': case '/': *w++ = (char)in[1]; break;
      case 'u': { if (end - in < 6) goto bad; unsigned a, cp; hex4(in + 2, &a); if (a >= 0xDC00 && a <= 0xDFFF) goto bad; if (a >= 0xD800 && a <= 0xDBFF) { if (end - (in + 6) < 6) goto bad; if (in[6] != '\\' || in[7] != 'u') goto bad; unsigned b; hex4(in + 8, &b); if (b < 0xDC00 || b > 0xDFFF) goto bad; cp = 0x10000 + (((a & 0x3FF) << 10) | (b & 0x3FF)); seq = 12; } else { cp = a; seq = 6; }
        if (cp < 0x80) *w++ = (char)cp; else if (cp < 0x800) { *w++ = (char)(0xC0 | (cp >> 6)); *w++ = (char)(0x80 | (cp & 63)); } else if (cp < 0x10000) { *w++ = (char)(0xE0 | (cp >> 12)); *w++ = (char)(0x80 | ((cp >> 6) & 63)); *w++ = (char)(0x80 | (cp & 63)); } else { *w++ = (char)(0xF0 | (cp >> 18)); *w++ = (char)(0x80 | ((cp >> 12) & 63)); *w++ = (char)(0x80 | ((cp >> 6) & 63)); *w++ = (char)(0x80 | (cp & 63)); } break; }
      default: goto bad; }
    in += seq; }
  *w = 0; it->type = cJSON_String; it->valuestring = out; p->o = (size_t)(end - p->s) + 1; return 1;
bad: free(out); return 0; }
/* what strtod makes of up to 15 digits and a small exponent, exactly; the text may be symbolic */
static double todouble(const char* s, const char** e) { static const double P[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22 }; const char* p = s; int neg = 0, nd = 0, sd = 0, k = 0; int64_t v = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  for (int dot = 0;; p++) { if (*p == '.' && !dot) { dot = 1; continue; } if ((unsigned char)(*p - '0') > 9) break; nd++; if (v || *p != '0') sd++; if (sd > 15) { vp_incomplete("number of many digits"); vp_end_path(); } v = v * 10 + (*p - '0'); k -= dot; }
  if (!nd) { *e = s; return 0; } if (*p == 'e' || *p == 'E') { const char* x = p + 1; int xn = 0, xv = 0; if (*x == '-') { xn = 1; x++; } else if (*x == '+') x++; if ((unsigned char)(*x - '0') <= 9) { while ((unsigned char)(*x - '0') <= 9) { if (xv < 100000) xv = xv * 10 + (*x - '0'); x++; } k += xn ? -xv : xv; p = x; } }
  *e = p; double d = (double)v; if (v == 0) ; else if (k > 310) d = __builtin_inf(); else if (k < -345) d = 0; else if (k > 22 || k < -22) { if (v != 1 || k != 300) { vp_incomplete("number with a large exponent"); vp_end_path(); } d = 1e300; } else if (k >= 0) d = d * P[k]; else d = d / P[-k]; return neg ? -d : d; }
static int pnum(struct ps* p, cJSON* it) { char b[64]; size_t i = 0; for (; i < 63 && AT(p, i); i++) { unsigned c = p->s[p->o + i]; if ((c - '0' < 10u) || c == '+' || c == '-' || c == 'e' || c == 'E' || c == '.') b[i] = (char)c; else break; } b[i] = 0;
  char* e = b; int pure = 1; size_t k = 0; int neg = 0; double d; if (b[0] == '-') { neg = 1; k = 1; } size_t st = k; int64_t v = 0; while (b[k] >= '0' && b[k] <= '9') { if (k - st < 18) v = v * 10 + (b[k] - '0'); else pure = 0; k++; } if (k == st) pure = 0; if (b[k] == '.' || b[k] == 'e' || b[k] == 'E') pure = 0;
  if (pure) { d = neg ? -(double)v : (double)v; e = b + k; } else d = todouble(b, (const char**)&e); if (e == b) return 0;
  it->type = cJSON_Number; it->valuedouble = d; it->valueint = d >= INT_MAX ? INT_MAX : d <= (double)INT_MIN ? INT_MIN : (int)d; p->o += (size_t)(e - b); return 1; }
static int pval(struct ps* p, cJSON* it);
static int parr(struct ps* p, cJSON* it) { cJSON *h = 0, *cur = 0; if (p->depth >= 1000) return 0; p->depth++; p->o++; ws(p); if (AT(p, 0) && CH(p) == ']') goto ok; if (!AT(p, 0)) { p->o--; goto bad; } p->o--;
  do { cJSON* n = nw(0); if (!h) h = cur = n; else { cur->next = n; n->prev = cur; cur = n; } p->o++; ws(p); if (!pval(p, cur)) goto bad; ws(p); } while (AT(p, 0) && CH(p) == ',');
  if (!AT(p, 0) || CH(p) != ']') goto bad;
ok: p->depth--; if (h) h->prev = cur; it->type = cJSON_Array; it->child = h; p->o++; return 1;
bad: if (h) cJSON_Delete(h); return 0; }
static int pobj(struct ps* p, cJSON* it) { cJSON *h = 0, *cur = 0; if (p->depth >= 1000) return 0; p->depth++; p->o++; ws(p); if (AT(p, 0) && CH(p) == '}') goto ok; if (!AT(p, 0)) { p->o--; goto bad; } p->o--;
  do { cJSON* n = nw(0); if (!h) h = cur = n; else { cur->next = n; n->prev = cur; cur = n; } if (!AT(p, 1)) goto bad; p->o++; ws(p); if (!pstr(p, cur)) goto bad; ws(p); cur->string = cur->valuestring; cur->valuestring = 0; if (!AT(p, 0) || CH(p) != ':') goto bad; p->o++; ws(p); if (!pval(p, cur)) goto bad; ws(p); } while (AT(p, 0) && CH(p) == ',');
  if (!AT(p, 0) || CH(p) != '}') goto bad;
ok: p->depth--; if (h) h->prev = cur; it->type = cJSON_Object; it->child = h; p->o++; return 1;
bad: if (h) cJSON_Delete(h); return 0; }
static int pval(struct ps* p, cJSON* it) {
  const char* s = (const char*)p->s + p->o;
  if (CAN(p, 4) && strncmp(s, "null", 4) == 0) { it->type = cJSON_NULL; p->o += 4; return 1; }
  if (CAN(p, 5) && strncmp(s, "false", 5) == 0) { it->type = cJSON_False; p->o += 5; return 1; }
  if (CAN(p, 4) && strncmp(s, "true", 4) == 0) { it->type = cJSON_True; it->valueint = 1; p->o += 4; return 1; }
  if (AT(p, 0) && CH(p) == '"') return pstr(p, it);
  if (AT(p, 0) && (CH(p) == '-' || (CH(p) >= '0' && CH(p) <= '9'))) return pnum(p, it);
  if (AT(p, 0) && CH(p) == '[') return parr(p, it);
  if (AT(p, 0) && CH(p) == '{') return pobj(p, it);
  return 0; }
cJSON* cJSON_Parse(const char* v) { if (!v) return 0; struct ps p = {(const unsigned char*)v, strlen(v) + 1, 0, 0}; cJSON* it = nw(0); if (CAN(&p, 4) && strncmp(v, "\xEF\xBB\xBF", 3) == 0) p.o += 3; ws(&p); if (!pval(&p, it)) { cJSON_Delete(it); errp = v; return 0; } return it; }
/* ---- printing */
struct sb { char* b; size_t n, cap; };
static void ps_(struct sb* o, const char* s, size_t n) { if (o->n + n + 1 > o->cap) { o->cap = (o->n + n + 1) * 2; o->b = realloc(o->b, o->cap); } memcpy(o->b + o->n, s, n); o->n += n; o->b[o->n] = 0; }
static void qs(struct sb* o, const char* s) { ps_(o, "\"", 1); if (s) for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"') ps_(o, "\\\"", 2); else if (c == '\\') ps_(o, "\\\\", 2); else if (c >= 32) ps_(o, s, 1); else if (c == '\b') ps_(o, "\\b", 2); else if (c == '\f') ps_(o, "\\f", 2); else if (c == '\n') ps_(o, "\\n", 2); else if (c == '\r') ps_(o, "\\r", 2); else if (c == '\t') ps_(o, "\\t", 2); else { char h[7] = "\\u00"; h[4] = "0123456789abcdef"[c >> 4]; h[5] = "0123456789abcdef"[c & 15]; ps_(o, h, 6); } } ps_(o, "\"", 1); }
static int pv(struct sb* o, const cJSON* j) { switch (j->type & 0xff) { case cJSON_NULL: ps_(o, "null", 4); return 1; case cJSON_False: ps_(o, "false", 5); return 1; case cJSON_True: ps_(o, "true", 4); return 1;
  case cJSON_Number: { char t[64]; double d = j->valuedouble; if (d != d || d - d != 0) strcpy(t, "null"); else if (d == (double)j->valueint) snprintf(t, sizeof t, "%d", j->valueint); else { vp_fmt_double(t, sizeof t, "%1.15g", -1, -1, d); if (strtod(t, 0) != d) vp_fmt_double(t, sizeof t, "%1.17g", -1, -1, d); } ps_(o, t, strlen(t)); return 1; }
  case cJSON_String: qs(o, j->valuestring); return 1;
  case cJSON_Array: ps_(o, "[", 1); for (cJSON* c = j->child; c; c = c->next) { if (!pv(o, c)) return 0; if (c->next) ps_(o, ",", 1); } ps_(o, "]", 1); return 1;
  case cJSON_Object: ps_(o, "{", 1); for (cJSON* c = j->child; c; c = c->next) { qs(o, c->string); ps_(o, ":", 1); if (!pv(o, c)) return 0; if (c->next) ps_(o, ",", 1); } ps_(o, "}", 1); return 1; }
  return 0; }
static char* pr(const cJSON* j) { if (!j) return 0; struct sb o = {malloc(64), 0, 64}; o.b[0] = 0; if (!pv(&o, j)) { free(o.b); return 0; } return o.b; }
char* cJSON_PrintUnformatted(const cJSON* j) { return pr(j); } char* cJSON_PrintBuffered(const cJSON* j, int pre, cJSON_bool f) { if (pre < 0) return 0; if (f) vp_incomplete("formatted json"); return pr(j); }
void cJSON_free(void* p) { free(p); }
