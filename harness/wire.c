/* What travels between processes: the routing header and the typed fields of a message. */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <rtMessageHeader.h>
#include <rbuscore_message.h>
void rbusMessage_BeginMetaSectionWrite(rbusMessage message); void rbusMessage_EndMetaSectionWrite(rbusMessage message); void rbusMessage_BeginMetaSectionRead(rbusMessage message); void rbusMessage_EndMetaSectionRead(rbusMessage message);
static void header(void) { /* encode, then decode elsewhere */
  static rtMessageHeader h, d; static uint8_t buf[1024]; rtMessageHeader_Init(&h); vp_check(h.flags == 0 && h.payload_length == 0 && h.topic[0] == 0 && h.reply_topic[0] == 0, "a new header is empty"); memset(&d, 0, sizeof d); memset(buf, 0xee, sizeof buf);
  h.sequence_number = vp_u32("seq"); h.flags = vp_u32("flags"); h.control_data = vp_u32("control"); h.payload_length = vp_u32("payload"); h.T1 = vp_u32("T1"); h.T2 = vp_u32("T2"); h.T3 = vp_u32("T3"); h.T4 = vp_u32("T4"); h.T5 = vp_u32("T5");
  static const int lens[] = { 0, 1, 5, sizeof h.topic - 2, sizeof h.topic - 1 }; int a = lens[vp_choose(5, "topic")], b = lens[vp_choose(5, "reply")]; for (int i = 0; i < a; i++) { uint8_t c = (i < 3 || i > a - 3) ? vp_u8("t") : 'x'; vp_assume(c != 0); h.topic[i] = (char)c; } h.topic[a] = 0; for (int i = 0; i < b; i++) { uint8_t c = (i < 3 || i > b - 3) ? vp_u8("r") : 'y'; vp_assume(c != 0); h.reply_topic[i] = (char)c; } h.reply_topic[b] = 0;
  vp_check(rtMessageHeader_Encode(&h, buf) == RT_OK, "every header can be encoded"); int n = h.header_length; vp_check(n > 0 && n < 1000, "the declared header length is sane"); vp_check(rtMessageHeader_Decode(&d, buf) == RT_OK, "an encoded header is accepted");
  vp_check(d.header_length == n && buf[n] == 0xee && buf[n - 1] != 0xee, "the declared header length is the number of bytes written"); vp_check(((buf[4] << 8) | buf[5]) == n, "the header length stands where receivers look for it");
  vp_check((d.sequence_number == h.sequence_number) & (d.flags == h.flags) & (d.control_data == h.control_data) & (d.payload_length == h.payload_length), "header numbers survive the wire"); vp_check(d.topic_length == (uint32_t)a && d.reply_topic_length == (uint32_t)b && vp_memeq(d.topic, h.topic, (size_t)a + 1) & vp_memeq(d.reply_topic, h.reply_topic, (size_t)b + 1), "topic and reply topic survive the wire"); vp_check(((uint32_t)d.T1 == (uint32_t)h.T1) & ((uint32_t)d.T2 == (uint32_t)h.T2) & ((uint32_t)d.T3 == (uint32_t)h.T3) & ((uint32_t)d.T4 == (uint32_t)h.T4) & ((uint32_t)d.T5 == (uint32_t)h.T5), "header timestamps survive the wire");
  vp_check(rtMessageHeader_IsRequest(&d) == ((h.flags & rtMessageFlags_Request) != 0), "a request is recognised by its flag"); rtMessageHeader_SetIsRequest(&d); vp_check(rtMessageHeader_IsRequest(&d) == 1 && (d.flags & ~rtMessageFlags_Request) == (h.flags & ~rtMessageFlags_Request), "marking a request keeps the other flags"); vp_reach("header"); }
enum { TM = sizeof(((rtMessageHeader*)0)->topic), BIG = 52 + 2 * (TM - 1) };
static void header_any(void) { /* any bytes of the largest header's size */
  static rtMessageHeader d; static const uint32_t ls[] = { 0, 1, TM - 1, TM, 0x80000000u, 0xffffffffu }; uint8_t* buf = malloc(BIG); memset(buf, 0xaa, BIG); for (int i = 0; i < 22; i++) buf[i] = vp_u8("b"); int o = 22; for (int k = 0; k < 2; k++) { uint32_t l = ls[vp_choose(6, "len")]; buf[o] = l >> 24; buf[o + 1] = (uint8_t)(l >> 16); buf[o + 2] = (uint8_t)(l >> 8); buf[o + 3] = (uint8_t)l; o += 4; if (l >= TM) break; for (uint32_t i = 0; i < l; i++) buf[o + i] = vp_u8("t"); o += (int)l; } for (int i = 0; o + i < BIG && i < 24; i++) buf[o + i] = vp_u8("e");
  memset(&d, 0, sizeof d); rtError rc = rtMessageHeader_Decode(&d, buf); if (rc == RT_OK) { vp_check(d.topic_length < TM && d.reply_topic_length < TM, "an accepted header's topics fit"); vp_check(buf[0] == 0xaa && buf[1] == 0xaa, "an accepted header starts with the marker"); vp_reach("bytes accepted"); } else vp_reach("bytes refused"); free(buf); }
static void header_long(void) { /* topic lengths beyond the fields are refused */
  static rtMessageHeader h, d; static uint8_t buf[1024]; rtMessageHeader_Init(&h); strcpy(h.topic, "t"); strcpy(h.reply_topic, "r"); rtMessageHeader_Encode(&h, buf); int which = (int)vp_choose(2, "which"); uint32_t bad = vp_u32("len"); vp_assume(bad >= sizeof h.topic); int o = which ? 27 : 22; buf[o] = bad >> 24; buf[o + 1] = (uint8_t)(bad >> 16); buf[o + 2] = (uint8_t)(bad >> 8); buf[o + 3] = (uint8_t)bad; memset(&d, 0, sizeof d); vp_check(rtMessageHeader_Decode(&d, buf) != RT_OK, "a topic longer than its field is refused");
  rtMessageHeader_Encode(&h, buf); uint8_t x = vp_u8("marker"); int m = (int)vp_choose(4, "where"); int n = h.header_length; int p = m < 2 ? m : n - 4 + m; vp_assume(x != buf[p]); buf[p] = x; vp_check(rtMessageHeader_Decode(&d, buf) != RT_OK, "a header without its markers is refused"); vp_reach("refusals"); }
/* typed fields */
enum { F_STR, F_I32, F_U32, F_I64, F_DBL, F_BYTES, F_MSG, F_N };
struct field { int k, len; uint64_t n; uint8_t b[8]; };
static void mkf(struct field* f, int k) { memset(f, 0, sizeof *f); f->k = k; if (k == F_I32 || k == F_U32) f->n = vp_u32("n"); else if (k == F_I64 || k == F_DBL) f->n = vp_u64("n"); else { f->len = (int)vp_choose(4, "len"); for (int i = 0; i < f->len; i++) { f->b[i] = vp_u8("c"); if (k == F_STR) vp_assume(f->b[i] != 0); } } }
static double dbl(uint64_t n) { double d; memcpy(&d, &n, 8); return d; }
static void put(rbusMessage m, struct field* f) { rtError e = RT_FAIL; switch (f->k) { case F_STR: e = rbusMessage_SetString(m, (char*)f->b); break; case F_I32: case F_U32: e = rbusMessage_SetInt32(m, (int32_t)f->n); break; case F_I64: e = rbusMessage_SetInt64(m, (int64_t)f->n); break; case F_DBL: e = rbusMessage_SetDouble(m, dbl(f->n)); break; case F_BYTES: e = rbusMessage_SetBytes(m, f->b, (uint32_t)f->len); break; case F_MSG: { rbusMessage i; rbusMessage_Init(&i); rbusMessage_SetBytes(i, f->b, (uint32_t)f->len); e = rbusMessage_SetMessage(m, i); rbusMessage_Release(i); break; } } vp_check(e == RT_OK, "every field can be added"); }
static int get(rbusMessage m, struct field* f) { switch (f->k) { case F_STR: { const char* s = 0; return rbusMessage_GetString(m, &s) == RT_OK && s && vp_memeq(s, f->b, (size_t)f->len + 1); } case F_I32: { int32_t x = 0; return rbusMessage_GetInt32(m, &x) == RT_OK && (uint32_t)x == (uint32_t)f->n; } case F_U32: { uint32_t x = 0; return rbusMessage_GetUInt32(m, &x) == RT_OK && x == (uint32_t)f->n; } case F_I64: { int64_t x = 0; return rbusMessage_GetInt64(m, &x) == RT_OK && (uint64_t)x == f->n; } case F_DBL: { double x = 0; if (rbusMessage_GetDouble(m, &x) != RT_OK) return 0; uint64_t u; memcpy(&u, &x, 8); return u == f->n; } case F_BYTES: { const uint8_t* b = 0; uint32_t n = 99; return rbusMessage_GetBytes(m, &b, &n) == RT_OK && n == (uint32_t)f->len && vp_memeq(b, f->b, n); } case F_MSG: { rbusMessage i = NULL; if (rbusMessage_GetMessage(m, &i) != RT_OK) return 0; const uint8_t* b = 0; uint32_t n = 99; int ok = rbusMessage_GetBytes(i, &b, &n) == RT_OK && n == (uint32_t)f->len && vp_memeq(b, f->b, n); ok &= rbusMessage_GetBytes(i, &b, &n) != RT_OK; rbusMessage_Release(i); return ok; } } return 0; }
static void fields(void) { uint64_t base = vp_heap_live(); static struct field f[3], z[3]; int n = (int)vp_param("n", 2), big = (int)vp_param("big", -1), meta = (int)vp_choose(2, "meta"); rbusMessage m, r; rbusMessage_Init(&m); for (int i = 0; i < n; i++) { mkf(&f[i], (int)vp_choose(F_N, "kind")); put(m, &f[i]); }
  if (meta) { mkf(&z[0], F_STR); mkf(&z[1], F_STR); rbusMessage_BeginMetaSectionWrite(m); put(m, &z[0]); put(m, &z[1]); rbusMessage_EndMetaSectionWrite(m); } uint8_t* b; uint32_t len; rbusMessage_ToBytes(m, &b, &len); uint8_t* copy = malloc(len ? len : 1); memcpy(copy, b, len); rbusMessage_FromBytes(&r, copy, len); free(copy); rbusMessage_Release(m);
  int when = meta ? (int)vp_choose((uint32_t)n + 1, "when") : -1; for (int i = 0; i <= n; i++) { if (i == when) { rbusMessage_BeginMetaSectionRead(r); vp_check(get(r, &z[0]) && get(r, &z[1]), "the meta section is found from anywhere in the message"); rbusMessage_EndMetaSectionRead(r); } if (i < n) vp_check(get(r, &f[i]), "fields are read back in order, unchanged"); }
  if (!meta) { int32_t x = 5; const char* s = "k"; vp_check(rbusMessage_GetInt32(r, &x) != RT_OK && x == 5 && rbusMessage_GetString(r, &s) != RT_OK && s[0] == 'k', "reading beyond the last field fails and leaves the target alone"); } rbusMessage_Retain(r); rbusMessage_Release(r); rbusMessage_Release(r); vp_check(vp_heap_live() == base, "messages are freed with their last reference"); (void)big; vp_reach("fields"); }
static void sizes(void) { static const int ls[] = { 0, 30, 31, 32, 254, 255, 256, 300, 8190, 65535, 65536, 70000 }; int l = ls[vp_choose(12, "len")], k = (int)vp_choose(2, "kind"); char* s = malloc((size_t)l + 1); memset(s, 'q', (size_t)l); s[l] = 0; if (l) s[l - 1] = (char)vp_range("c", 1, 255); rbusMessage m, r; rbusMessage_Init(&m); if (k) rbusMessage_SetBytes(m, (uint8_t*)s, (uint32_t)l); else rbusMessage_SetString(m, s); rbusMessage_SetInt32(m, 77); uint8_t* b; uint32_t len; rbusMessage_ToBytes(m, &b, &len); rbusMessage_FromBytes(&r, b, len);
  const char* t = 0; const uint8_t* u = 0; uint32_t n = 0; int32_t x = 0; if (k) vp_check(rbusMessage_GetBytes(r, &u, &n) == RT_OK && n == (uint32_t)l && vp_memeq(u, s, (size_t)l), "byte fields of any length survive"); else vp_check(rbusMessage_GetString(r, &t) == RT_OK && vp_memeq(t, s, (size_t)l + 1), "text fields of any length survive"); vp_check(rbusMessage_GetInt32(r, &x) == RT_OK && x == 77, "the field behind a long one is found"); rbusMessage_Release(r); rbusMessage o, in; rbusMessage_Init(&o); rbusMessage_SetMessage(o, m); rbusMessage_SetInt32(o, 78); rbusMessage_ToBytes(o, &b, &len); rbusMessage_FromBytes(&r, b, len); uint8_t* ib; uint32_t in_n = 0, mn = 0; uint8_t* mb; rbusMessage_ToBytes(m, &mb, &mn); vp_check(rbusMessage_GetMessage(r, &in) == RT_OK, "a nested message of any length can be read"); rbusMessage_ToBytes(in, &ib, &in_n); vp_check(in_n == mn && vp_memeq(ib, mb, mn), "a nested message of any length survives"); vp_check(rbusMessage_GetInt32(r, &x) == RT_OK && x == 78, "the field behind a nested message is found"); rbusMessage_Release(in); rbusMessage_Release(o); rbusMessage_Release(m); rbusMessage_Release(r); free(s); vp_reach("sizes"); }
static void wrong(void) { /* asking for another type */
  static struct field f; mkf(&f, (int)vp_choose(F_N, "kind")); rbusMessage m; rbusMessage_Init(&m); put(m, &f); int want = (int)vp_choose(F_N, "want"); int num = want == F_I32 || want == F_U32 || want == F_I64, isnum = f.k == F_I32 || f.k == F_U32 || f.k == F_I64, bin = want == F_BYTES || want == F_MSG, isbin = f.k == F_BYTES || f.k == F_MSG; vp_assume(want != f.k && !(num && isnum) && !(bin && isbin)); rtError e = RT_OK; const char* s = (char*)&f; int32_t i = 3; uint32_t u = 3; int64_t l = 3; double d = 3; const uint8_t* b = (uint8_t*)&f; rbusMessage q = (rbusMessage)&f;
  switch (want) { case F_STR: e = rbusMessage_GetString(m, &s); break; case F_I32: e = rbusMessage_GetInt32(m, &i); break; case F_U32: e = rbusMessage_GetUInt32(m, &u); break; case F_I64: e = rbusMessage_GetInt64(m, &l); break; case F_DBL: e = rbusMessage_GetDouble(m, &d); break; case F_BYTES: e = rbusMessage_GetBytes(m, &b, &u); break; case F_MSG: e = rbusMessage_GetMessage(m, &q); break; } vp_check(e != RT_OK && s == (char*)&f && i == 3 && u == 3 && l == 3 && d == 3 && b == (uint8_t*)&f && q == (rbusMessage)&f, "a field of another type is refused and the target left alone"); rbusMessage_Release(m); vp_reach("wrong type"); }
static void any(void) { /* bytes from anywhere */
  uint64_t base = vp_heap_live(); uint8_t b[16]; int n = (int)vp_choose((uint32_t)vp_param("n", 5) + 1, "n"); for (int i = 0; i < n; i++) b[i] = vp_u8("b"); rbusMessage m; rbusMessage_FromBytes(&m, b, (uint32_t)n); if (vp_choose(2, "meta")) rbusMessage_BeginMetaSectionRead(m); for (int i = 0; i < (int)vp_param("gets", 1); i++) switch (vp_choose(5, "get")) { case 0: { const char* s = 0; if (rbusMessage_GetString(m, &s) == RT_OK) { size_t l = strlen(s); vp_check(l < (size_t)n, "text read from a message lies inside it"); } break; } case 1: { int32_t x; rbusMessage_GetInt32(m, &x); break; } case 2: { const uint8_t* p = 0; uint32_t l = 0; if (rbusMessage_GetBytes(m, &p, &l) == RT_OK) { vp_check(l < (uint32_t)n, "bytes read from a message lie inside it"); for (uint32_t k = 0; k < l; k++) vp_observe(p[k]); } break; } case 3: { rbusMessage q = NULL; if (rbusMessage_GetMessage(m, &q) == RT_OK) rbusMessage_Release(q); break; } case 4: { double d; rbusMessage_GetDouble(m, &d); break; } } rbusMessage_Release(m); vp_check(vp_heap_live() == base, "reading damaged messages leaks nothing"); vp_reach("any message"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: header(); break; case 1: header_any(); break; case 2: header_long(); break; case 3: fields(); break; case 4: sizes(); break; case 5: wrong(); break; case 6: any(); break; } return 0; }
