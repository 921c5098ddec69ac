/* Model of libmsgpackc's decoder, used by the symbolic executor only (native replay links the real library).
   The packer is inline in msgpack's headers and is executed as it is. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <msgpack.h>
#include "vp.h"
static uint64_t be(const unsigned char* p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = (v << 8) | p[i]; return v; }
static void num_u(msgpack_object* o, uint64_t v) { o->type = MSGPACK_OBJECT_POSITIVE_INTEGER; o->via.u64 = v; }
static void num_i(msgpack_object* o, int64_t v) { o->type = v >= 0 ? MSGPACK_OBJECT_POSITIVE_INTEGER : MSGPACK_OBJECT_NEGATIVE_INTEGER; o->via.i64 = v; }
/* decode one object at *off; 2 done, 0 truncated, -1 bad byte, -2 nested too deep */
static int item(msgpack_object* o, const unsigned char* d, size_t len, size_t* off, int depth) {
  if (*off >= len) return 0; unsigned char b = d[*off]; size_t p = *off + 1; int lb = 0, kind = 0, ext = 0; uint64_t n = 0;
  if (b <= 0x7f) { num_u(o, b); *off = p; return 2; }
  if (b >= 0xe0) { num_i(o, (int8_t)b); *off = p; return 2; }
  if (b >= 0xa0 && b <= 0xbf) { kind = 1; n = b & 0x1f; }
  else if (b >= 0x90 && b <= 0x9f) { kind = 3; n = b & 0x0f; }
  else if (b >= 0x80 && b <= 0x8f) { kind = 4; n = b & 0x0f; }
  else switch (b) {
    case 0xc0: o->type = MSGPACK_OBJECT_NIL; *off = p; return 2;
    case 0xc2: case 0xc3: o->type = MSGPACK_OBJECT_BOOLEAN; o->via.boolean = b == 0xc3; *off = p; return 2;
    case 0xca: { *off = p; if (len - p < 4) return 0; uint32_t v = (uint32_t)be(d + p, 4); float f; memcpy(&f, &v, 4); o->type = MSGPACK_OBJECT_FLOAT32; o->via.f64 = f; *off = p + 4; return 2; }
    case 0xcb: { *off = p; if (len - p < 8) return 0; uint64_t v = be(d + p, 8); double f; memcpy(&f, &v, 8); o->type = MSGPACK_OBJECT_FLOAT64; o->via.f64 = f; *off = p + 8; return 2; }
    case 0xcc: case 0xcd: case 0xce: case 0xcf: { int w = 1 << (b - 0xcc); *off = p; if (len - p < (size_t)w) return 0; num_u(o, be(d + p, w)); *off = p + w; return 2; }
    case 0xd0: *off = p; if (len - p < 1) return 0; num_i(o, (int8_t)d[p]); *off = p + 1; return 2;
    case 0xd1: *off = p; if (len - p < 2) return 0; num_i(o, (int16_t)be(d + p, 2)); *off = p + 2; return 2;
    case 0xd2: *off = p; if (len - p < 4) return 0; num_i(o, (int32_t)be(d + p, 4)); *off = p + 4; return 2;
    case 0xd3: *off = p; if (len - p < 8) return 0; num_i(o, (int64_t)be(d + p, 8)); *off = p + 8; return 2;
    case 0xc4: case 0xc5: case 0xc6: kind = 2; lb = 1 << (b - 0xc4); break;
    case 0xc7: case 0xc8: case 0xc9: kind = 5; lb = 1 << (b - 0xc7); ext = 1; break;
    case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: kind = 5; n = (1u << (b - 0xd4)); ext = 1; break;
    case 0xd9: case 0xda: case 0xdb: kind = 1; lb = 1 << (b - 0xd9); break;
    case 0xdc: case 0xdd: kind = 3; lb = 2 << (b - 0xdc); break;
    case 0xde: case 0xdf: kind = 4; lb = 2 << (b - 0xde); break;
    default: *off = p - 1; return -1; }
  *off = p;
  if (lb) { if (len - p < (size_t)lb) return 0; n = be(d + p, lb); p += lb; *off = p; }
  if (kind == 1 || kind == 2 || kind == 5) {
    if (kind == 5) n += (uint64_t)ext; if (len - p < n) return 0;
    if (kind == 1) { o->type = MSGPACK_OBJECT_STR; o->via.str.size = (uint32_t)n; o->via.str.ptr = (const char*)d + p; }
    else if (kind == 2) { o->type = MSGPACK_OBJECT_BIN; o->via.bin.size = (uint32_t)n; o->via.bin.ptr = (const char*)d + p; }
    else { o->type = MSGPACK_OBJECT_EXT; o->via.ext.type = (int8_t)d[p]; o->via.ext.size = (uint32_t)(n - 1); o->via.ext.ptr = (const char*)d + p + 1; }
    *off = (size_t)(p + n); return 2; }
  if (depth >= 32) return -2; /* containers: rbus never looks inside one, so only the extent is modelled */
  if (kind == 4) n *= 2; for (uint64_t i = 0; i < n; i++) { msgpack_object e; int r = item(&e, d, len, off, depth + 1); if (r != 2) return r; }
  o->type = kind == 3 ? MSGPACK_OBJECT_ARRAY : MSGPACK_OBJECT_MAP; o->via.array.size = (uint32_t)n; o->via.array.ptr = 0; return 2; }
msgpack_unpack_return msgpack_unpack_next(msgpack_unpacked* r, const char* data, size_t len, size_t* off) {
  size_t o = off ? *off : 0; if (len <= o) return MSGPACK_UNPACK_CONTINUE; msgpack_object ob; ob.type = MSGPACK_OBJECT_NIL; ob.via.u64 = 0;
  int e = item(&ob, (const unsigned char*)data, len, &o, 0); if (off) *off = o; if (e < 0) return (msgpack_unpack_return)e; if (e == 0) return MSGPACK_UNPACK_CONTINUE; r->data = ob; return MSGPACK_UNPACK_SUCCESS; }
void msgpack_zone_free(msgpack_zone* z) { (void)z; vp_incomplete("msgpack zone in the model"); }
int msgpack_object_print_buffer(char* b, size_t n, msgpack_object o) { (void)o; if (n) b[0] = 0; return 0; }
bool msgpack_zone_is_empty(msgpack_zone* z) { (void)z; return true; }
