/* Binary encoding of values in a buffer. */
#include "vh_value.h"
#include "rbus_buffer.h"
int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff); void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff);
static void roundtrip(void) { /* several values behind each other, at every alignment around the buffer blocks */
  uint64_t base = vp_heap_live(); int n = (int)vp_param("n", 2), lo = (int)vp_param("padlo", 0), hi = (int)vp_param("padhi", 0); static struct raw r[4]; rbusBuffer_t b; rbusBuffer_Create(&b); static uint8_t pad[200];
  int p = lo + (int)vp_choose((uint32_t)(hi - lo + 1), "pad"); if (p) rbusBuffer_Write(b, pad, p);
  for (int i = 0; i < n; i++) { mk_raw(&r[i], (int)vp_choose(K_N, "kind"), (int)vp_param("slo", 0), (int)vp_param("shi", 2)); rbusValue_t v = rbusValue_Init(0); set_raw(v, &r[i]); rbusValue_Encode(v, b); vp_check(is_raw(v, &r[i]), "encoding leaves the value alone"); rbusValue_Release(v); }
  b->posRead = p;
  for (int i = 0; i < n; i++) { rbusValue_t w = 0; int rc = rbusValue_Decode(&w, b); vp_check(rc >= 0, "what was encoded can be decoded"); vp_check(is_raw(w, &r[i]), "decoding restores type and content, in order"); observe_value(w); rbusValue_Release(w); }
  vp_check(b->posRead == b->posWrite, "decoding consumes exactly what was encoded");
  rbusValue_t x = 0; vp_check(rbusValue_Decode(&x, b) < 0, "decoding past the end is refused");
  rbusBuffer_Destroy(b); vp_check(vp_heap_live() == base, "encoding and decoding free everything"); vp_reach("round trip"); }
static void nulls(void) { rbusBuffer_t b; rbusBuffer_Create(&b); rbusValue_t v = rbusValue_Init(0), w = 0; rbusValue_SetString(v, NULL); rbusValue_Encode(v, b); static struct raw r; mk_raw(&r, K_I32, 0, 0); rbusValue_t i = rbusValue_Init(0); set_raw(i, &r); rbusValue_Encode(i, b); vp_check(rbusValue_Decode(&w, b) >= 0 && rbusValue_GetType(w) == RBUS_STRING && rbusValue_GetString(w, NULL) == NULL, "a NULL string decodes as a NULL string"); rbusValue_Release(w); vp_check(rbusValue_Decode(&w, b) >= 0 && is_raw(w, &r), "a value after a NULL string is intact"); vp_reach("null string"); }
static void any_bytes(void) { /* arbitrary, possibly truncated, bytes */
  uint64_t base = vp_heap_live(); int n = (int)vp_param("n", 8); rbusBuffer_t b; rbusBuffer_Create(&b); static uint8_t d[80]; int pad = (int)vp_param("pad", 0); if (pad) { static uint8_t z[64]; rbusBuffer_Write(b, z, pad); b->posRead = pad; } int len = (int)vp_choose((uint32_t)n + 1, "len"); vp_bytes(d, (size_t)len, "byte"); rbusBuffer_Write(b, d, len); rbusValue_t w = 0; int rc = rbusValue_Decode(&w, b);
  if (rc >= 0) { unsigned type = d[0] | d[1] << 8; vp_check(len >= 4 && rbusValue_GetType(w) == type && type >= RBUS_BOOLEAN && type <= RBUS_BYTES, "only the encodable types are accepted"); vp_check(b->posRead <= b->posWrite, "decoding never consumes more than there is");
    if (type == RBUS_STRING || type == RBUS_BYTES) { int l = -1; rbusValue_GetBytes(w, &l); vp_check(l == (d[2] | d[3] << 8) && 4 + l <= len, "strings and bytes have the length announced"); } rbusValue_Release(w); vp_reach("accepted"); } else vp_reach("refused");
  rbusBuffer_Destroy(b); vp_check(vp_heap_live() == base, "malformed input leaks nothing"); }
static void raw_buffer(void) { /* the buffer itself: bytes come back as written, reads past the end are refused */
  rbusBuffer_t b; rbusBuffer_Create(&b); static uint8_t d[300], o[300]; int tot = 0; for (int i = 0; i < 2; i++) { static const int L[] = { 0, 1, 60, 63, 64, 65, 130 }; int l = L[vp_choose(7, "chunk")]; if (tot + l > 300) vp_end_path(); for (int k = 0; k < l; k++) d[tot + k] = (k == 0 || k == l - 1) ? vp_u8("b") : (uint8_t)(k * 7 + i); rbusBuffer_Write(b, d + tot, l); tot += l; }
  vp_check(b->posWrite == tot && vp_memeq(b->data, d, (size_t)tot), "the buffer holds what was written"); int got = 0; int k = (int)vp_u32("readlen"); vp_assume((k < 0) | (k > tot) | (k == 0) | (k == 1) | (k == 64) | (k == tot) | (k == tot - 1)); int rc = rbusBuffer_Read(b, o, k);
  vp_check((rc == 0) == (k >= 0 && k <= tot), "a read succeeds exactly when the bytes are there"); if (rc == 0) { int kc = (int)vp_concretize((uint64_t)k); vp_check(vp_memeq(o, d, (size_t)kc), "a read returns the bytes written"); got = kc; rc = rbusBuffer_Read(b, o + got, tot - got); vp_check(rc == 0 && vp_memeq(o, d, (size_t)tot), "two reads return consecutive bytes"); vp_check(rbusBuffer_Read(b, o, 1) != 0, "a read past the end is refused"); }
  uint8_t* all = 0; int n = 0; b->posRead = 0; vp_check(rbusBuffer_ReadBytes(b, &all, &n) == 0 && n == tot && vp_memeq(all, d, (size_t)tot), "reading all bytes returns a copy of them"); free(all); rbusBuffer_Destroy(b); vp_reach("buffer"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: roundtrip(); break; case 1: nulls(); break; case 2: any_bytes(); break; case 3: raw_buffer(); break; } return 0; }
