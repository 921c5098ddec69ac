/* Typed values: storing, reading back, copying, replacing, releasing. */
#include "vh_value.h"
static void replace_and_read(void) { /* history of writes of any types on one value */
  uint64_t base = vp_heap_live(); rbusValue_t v = 0; rbusValue_Init(&v);
  vp_check(rbusValue_GetType(v) == RBUS_NONE, "a new value has no type");
  static struct raw r; int n = (int)vp_param("writes", 2), lo = (int)vp_param("lo", 0), hi = (int)vp_param("hi", 3);
  for (int i = 0; i < n; i++) {
    mk_raw(&r, (int)vp_choose(K_N, "kind"), lo, hi); set_raw(v, &r);
    vp_check(is_raw(v, &r), "value reads back with the type and content last written");
    vp_check(others_refuse(v, r.k), "getters of other types refuse and leave the output alone"); }
  observe_value(v); rbusValue_Release(v);
  vp_check(vp_heap_live() == base, "releasing the last reference frees everything"); vp_reach("replaced"); }
static void copying(void) {
  uint64_t base = vp_heap_live(); static struct raw a, b, c; rbusValue_t s = rbusValue_Init(0), d = rbusValue_Init(0);
  int lo = (int)vp_param("lo", 0), hi = (int)vp_param("hi", 3); int k = (int)vp_choose(K_N, "kind");
  mk_raw(&a, k, lo, hi); set_raw(s, &a);
  if (vp_choose(2, "dirty")) { mk_raw(&b, (int)vp_choose(K_N, "kind2"), 2, 2); set_raw(d, &b); }
  rbusValue_Copy(d, s);
  vp_check(is_raw(d, &a), "a copy holds the content of its source"); vp_check(is_raw(s, &a), "copying leaves the source alone");
  vp_check(rbusValue_Compare(s, d) == 0, "a copy compares equal to its source");
  mk_raw(&c, k, 1, 1); set_raw(s, &c);
  vp_check(is_raw(d, &a), "a copy does not change when its source does"); vp_check(is_raw(s, &c), "the source takes a new content after a copy");
  observe_value(d); rbusValue_Release(s); vp_check(is_raw(d, &a), "a copy outlives its source"); rbusValue_Release(d);
  vp_check(vp_heap_live() == base, "copies are freed"); vp_reach("copied"); }
static void nulls(void) { /* NULL contents are legal for strings and bytes */
  uint64_t base = vp_heap_live(); rbusValue_t v = rbusValue_Init(0), w = rbusValue_Init(0); static struct raw a; int pre = (int)vp_choose(3, "pre"); if (pre) { mk_raw(&a, pre == 1 ? K_STR : K_BYTES, 1, 1); set_raw(v, &a); }
  int n = 5; int k = (int)vp_choose(2, "kind"); if (k) rbusValue_SetBytes(v, NULL, 0); else rbusValue_SetString(v, NULL);
  vp_check(rbusValue_GetType(v) == (k ? RBUS_BYTES : RBUS_STRING), "a NULL content keeps its type");
  if (k) vp_check(rbusValue_GetBytes(v, &n) == NULL && n == 0, "NULL bytes read back as NULL of length 0"); else vp_check(rbusValue_GetString(v, NULL) == NULL, "a NULL string reads back as NULL");
  vp_check(rbusValue_GetL(v) == 0 && rbusValue_GetV(v) == NULL, "NULL content has no bytes");
  vp_check(rbusValue_ToString(v, NULL, 0) == NULL, "NULL content has no text");
  rbusValue_Copy(w, v); vp_check(rbusValue_GetType(w) == rbusValue_GetType(v) && rbusValue_GetBytes(w, &n) == NULL, "a copy of a NULL content is NULL"); vp_check(rbusValue_Compare(v, w) == 0, "NULL contents compare equal");
  mk_raw(&a, k ? K_BYTES : K_STR, 0, 2); set_raw(w, &a); vp_check(rbusValue_Compare(v, w) != 0 && rbusValue_Compare(w, v) != 0, "NULL content differs from any content");
  set_raw(v, &a); vp_check(is_raw(v, &a), "a NULL content can be replaced");
  rbusValue_Release(v); rbusValue_Release(w); vp_check(vp_heap_live() == base, "NULL contents are freed"); vp_reach("nulls"); }
static void tlv(void) { /* type-length-value access: what GetT/L/V expose, SetTLV restores */
  uint64_t base = vp_heap_live(); static struct raw a; rbusValue_t s = rbusValue_Init(0), d = rbusValue_Init(0); mk_raw(&a, (int)vp_choose(K_N, "kind"), 0, (int)vp_param("hi", 3)); set_raw(s, &a);
  rbusValue_SetTLV(d, rbusValue_GetType(s), rbusValue_GetL(s), rbusValue_GetV(s));
  vp_check(is_raw(d, &a), "type-length-value transfer preserves the value"); observe_value(d);
  rbusValue_Release(s); rbusValue_Release(d); vp_check(vp_heap_live() == base, "transferred values are freed"); vp_reach("tlv"); }
static void tlv_any(void) { /* any type code and length: never touches memory outside the value */
  static uint8_t buf[80]; vp_bytes(buf, 8, "data"); rbusValue_t v = rbusValue_Init(0); uint32_t type = vp_u32("type"); vp_assume(type != RBUS_STRING && type != RBUS_BYTES && type != RBUS_PROPERTY && type != RBUS_OBJECT); uint32_t len = vp_u32("length"); vp_assume(len <= 80);
  rbusValue_SetTLV(v, type, len, buf); vp_check(rbusValue_GetType(v) == RBUS_NONE || rbusValue_GetL(v) == len, "a value never claims more bytes than it was given"); rbusValue_Release(v); vp_reach("tlv any"); }
static void nested(void) { /* values holding properties and objects keep them alive */
  uint64_t base = vp_heap_live(); rbusValue_t v = rbusValue_Init(0), x = rbusValue_Init(0); static struct raw a; mk_raw(&a, K_I32, 0, 0); set_raw(x, &a);
  rbusProperty_t p = rbusProperty_Init(0, "n", x); rbusObject_t o = rbusObject_Init(0, "o"); rbusObject_SetProperty(o, p); int k = (int)vp_choose(2, "kind");
  if (k) rbusValue_SetProperty(v, p); else rbusValue_SetObject(v, o);
  if (vp_choose(2, "drop")) { rbusProperty_Release(p); rbusObject_Release(o); p = 0; }
  rbusProperty_t q = 0; rbusObject_t ob = 0;
  if (k) vp_check(rbusValue_GetPropertyEx(v, &q) == RBUS_VALUE_ERROR_SUCCESS && q && is_raw(rbusProperty_GetValue(q), &a) && strcmp(rbusProperty_GetName(q), "n") == 0, "a value keeps the property it holds");
  else vp_check(rbusValue_GetObjectEx(v, &ob) == RBUS_VALUE_ERROR_SUCCESS && ob && rbusObject_GetProperty(ob, "n") && is_raw(rbusProperty_GetValue(rbusObject_GetProperty(ob, "n")), &a), "a value keeps the object it holds");
  int w = (int)vp_choose(4, "then"); if (w == 0) rbusValue_SetString(v, "s"); else if (w == 1) rbusValue_SetInt32(v, 1); else if (w == 2) { uint8_t b = 1; rbusValue_SetBytes(v, &b, 1); }
  if (p) { rbusProperty_Release(p); rbusObject_Release(o); }
  rbusValue_Release(v); rbusValue_Release(x); vp_check(vp_heap_live() == base, "nested contents are freed"); vp_reach("nested"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: replace_and_read(); break; case 1: copying(); break; case 2: nulls(); break; case 3: tlv(); break; case 4: tlv_any(); break; case 5: nested(); break; } return 0; }
