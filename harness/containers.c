/* Properties and objects against a plain list of name/value pairs. */
#include "vh_value.h"
static const char* names[] = { "a", "A", "ab" }; enum { MAXE = 6 };
struct ent { int name; uint32_t val; }; static struct ent m[MAXE]; static int nm;
static int find(int n) { for (int i = 0; i < nm; i++) if (m[i].name == n) return i; return -1; }
static int val_is(rbusValue_t v, uint32_t x) { return v && rbusValue_GetType(v) == RBUS_UINT32 && rbusValue_GetUInt32(v) == x; }
static void agrees(rbusObject_t o) { rbusProperty_t p = rbusObject_GetProperties(o); int ok = 1; for (int i = 0; i < nm; i++) { if (!p) { ok = 0; break; } ok &= !strcmp(rbusProperty_GetName(p), names[m[i].name]) && val_is(rbusProperty_GetValue(p), m[i].val); p = rbusProperty_GetNext(p); } vp_check(ok && !p, "an object lists its properties once each, in the order they were added, with their latest values");
  for (int n = 0; n < 3; n++) { int e = find(n); rbusValue_t v = rbusObject_GetValue(o, names[n]); vp_check(e < 0 ? v == NULL : val_is(v, m[e].val), "looking a property up by name finds its value"); uint32_t x = 7; int rc = rbusObject_GetPropertyUInt32(o, names[n], &x); vp_check(e < 0 ? rc == RBUS_VALUE_ERROR_NOT_FOUND && x == 7 : rc == RBUS_VALUE_ERROR_SUCCESS && x == m[e].val, "reading a typed property finds its value"); int32_t y = 9; rc = rbusObject_GetPropertyInt32(o, names[n], &y); vp_check(rc == (e < 0 ? RBUS_VALUE_ERROR_NOT_FOUND : RBUS_VALUE_ERROR_TYPE) && y == 9, "reading a property as another type is refused"); }
  vp_check(rbusProperty_Count(rbusObject_GetProperties(o)) == (uint32_t)nm, "the property count is right"); }
static void object_model(void) { uint64_t base = vp_heap_live(); nm = 0; rbusObject_t o; rbusObject_Init(&o, "obj"); int k = (int)vp_param("ops", 3);
  for (int s = 0; s < k; s++) { int op = (int)vp_choose(7, "op"), n = (int)vp_choose(3, "name"); uint32_t x = vp_u32("val"); int e = find(n); rbusValue_t v = rbusValue_InitUInt32(x);
    switch (op) {
      case 0: rbusObject_SetValue(o, names[n], v); if (e < 0) { m[nm].name = n; m[nm++].val = x; } else m[e].val = x; break;
      case 1: { rbusProperty_t p = rbusProperty_Init(NULL, names[n], v); rbusObject_SetProperty(o, p); rbusProperty_Release(p); if (e < 0) { m[nm].name = n; m[nm++].val = x; } else m[e].val = x; break; }
      case 2: rbusObject_SetPropertyUInt32(o, names[n], x); if (e < 0) { m[nm].name = n; m[nm++].val = x; } else m[e].val = x; break;
      case 3: { rbusProperty_t p = rbusObject_GetProperty(o, names[n]); if (p) { rbusObject_SetProperty(o, p); rbusProperty_SetValue(p, rbusProperty_GetValue(p)); rbusProperty_SetNext(p, rbusProperty_GetNext(p)); } rbusObject_SetProperties(o, rbusObject_GetProperties(o)); break; }
      case 4: { rbusProperty_t p = rbusObject_GetProperty(o, names[n]); vp_check((p != NULL) == (e >= 0), "a property is found exactly when it was added"); if (p) { rbusProperty_SetUInt32(p, x); m[e].val = x; } break; }
      case 5: if (e < 0) { rbusProperty_t p = rbusObject_GetProperties(o); if (p) { rbusProperty_t q = rbusProperty_AppendUInt32(p, names[n], x); vp_check(q && val_is(rbusProperty_GetValue(q), x), "appending returns the new property"); m[nm].name = n; m[nm++].val = x; } } break;
      case 6: if (n == 0) { rbusProperty_t p = rbusProperty_InitUInt32(names[1], x); rbusProperty_AppendUInt32(p, names[0], x + 1); rbusObject_SetProperties(o, p); rbusProperty_Release(p); nm = 2; m[0].name = 1; m[0].val = x; m[1].name = 0; m[1].val = x + 1; } else if (n == 1) { rbusObject_SetProperties(o, NULL); nm = 0; } break; }
    rbusValue_Release(v); agrees(o); }
  vp_check(!strcmp(rbusObject_GetName(o), "obj"), "an object keeps its name"); rbusObject_Release(o); vp_check(vp_heap_live() == base, "containers are freed with their last reference"); vp_reach("object model"); }
static void shared(void) { /* references keep their targets alive, in whatever order they are dropped */
  uint64_t base = vp_heap_live(); uint32_t x = vp_u32("x"); rbusValue_t v = rbusValue_InitUInt32(x); rbusProperty_t p = rbusProperty_Init(NULL, "p", v), q = rbusProperty_Init(NULL, "q", v); rbusProperty_Append(p, q); rbusObject_t o, c, d; rbusObject_Init(&o, "o"); rbusObject_Init(&c, "c"); rbusObject_InitMultiInstance(&d, "d"); rbusObject_SetProperties(o, p); rbusObject_SetChildren(o, c); rbusObject_SetNext(c, d); rbusObject_SetParent(c, o); rbusObject_SetValue(d, "q", v); rbusValue_t ov = rbusValue_InitObject(o), pv = rbusValue_InitProperty(q);
  if (vp_choose(2, "again")) { rbusObject_SetChildren(o, rbusObject_GetChildren(o)); rbusObject_SetNext(c, rbusObject_GetNext(c)); rbusValue_SetObject(ov, rbusValue_GetObject(ov)); rbusValue_SetProperty(pv, rbusValue_GetProperty(pv)); }
  int held = (1 << 8) - 1; void* h[8] = { v, p, q, o, c, d, ov, pv }; int keep = (int)vp_choose(8, "keep"), dir = (int)vp_choose(2, "dir");
  for (int s = 0; s < 8; s++) { int i = dir ? 7 - s : s; if (i == keep) continue; held &= ~(1 << i); if (i == 0 || i >= 6) rbusValue_Release(h[i]); else if (i < 3) rbusProperty_Release(h[i]); else rbusObject_Release(h[i]); }
  switch (keep) { case 0: vp_check(val_is(v, x), "a held value survives its containers"); rbusValue_Release(v); break;
    case 1: vp_check(!strcmp(rbusProperty_GetName(p), "p") && val_is(rbusProperty_GetValue(p), x) && rbusProperty_GetNext(p) == q && val_is(rbusProperty_GetValue(q), x), "a held property survives with what follows it"); rbusProperty_Release(p); break; case 2: vp_check(!strcmp(rbusProperty_GetName(q), "q") && val_is(rbusProperty_GetValue(q), x) && !rbusProperty_GetNext(q), "a held property survives what came before it"); rbusProperty_Release(q); break;
    case 3: case 6: { rbusObject_t t = keep == 3 ? o : rbusValue_GetObject(ov); vp_check(t == o && rbusObject_GetChildren(o) == c && rbusObject_GetNext(c) == d && rbusObject_GetProperties(o) == p && val_is(rbusObject_GetValue(o, "q"), x) && val_is(rbusObject_GetValue(d, "q"), x) && rbusObject_GetType(d) == RBUS_OBJECT_MULTI_INSTANCE, "a held object survives with its properties, children and siblings"); if (keep == 3) rbusObject_Release(o); else rbusValue_Release(ov); break; }
    case 4: vp_check(rbusObject_GetNext(c) == d && !strcmp(rbusObject_GetName(c), "c"), "a held child survives its parent"); rbusObject_Release(c); break; case 5: vp_check(!strcmp(rbusObject_GetName(d), "d") && val_is(rbusObject_GetValue(d, "q"), x), "a held sibling survives"); rbusObject_Release(d); break; case 7: vp_check(rbusValue_GetProperty(pv) == q && val_is(rbusProperty_GetValue(q), x), "a value keeps the property it holds"); rbusValue_Release(pv); break; }
  vp_check(vp_heap_live() == base, "dropping the last reference frees everything"); vp_reach("shared"); }
static rbusObject_t mko(struct ent* e, int n) { rbusObject_t o; rbusObject_Init(&o, "o"); for (int i = 0; i < n; i++) rbusObject_SetPropertyUInt32(o, names[e[i].name], e[i].val); return o; }
static void compare(void) { /* objects are equal exactly when they hold the same properties */
  struct ent a[2], b[2]; int na = (int)vp_choose(3, "na"), nb = (int)vp_choose(3, "nb"); for (int i = 0; i < na; i++) { a[i].name = i ? (a[0].name + 1 + (int)vp_choose(2, "n")) % 3 : (int)vp_choose(3, "n"); a[i].val = vp_u32("v"); } for (int i = 0; i < nb; i++) { b[i].name = i ? (b[0].name + 1 + (int)vp_choose(2, "n")) % 3 : (int)vp_choose(3, "n"); b[i].val = vp_u32("v"); }
  rbusObject_t o = mko(a, na), p = mko(b, nb); int eq = na == nb; for (int i = 0; i < na && eq; i++) { int f = 0; for (int j = 0; j < nb; j++) f |= a[i].name == b[j].name ? a[i].val == b[j].val : 0; eq = f ? eq : 0; }
  vp_check((rbusObject_Compare(o, p, false) == 0) == (eq != 0), "objects compare equal exactly when they hold the same properties"); vp_check(rbusObject_Compare(o, o, true) == 0 && rbusObject_Compare(o, NULL, true) != 0 && rbusObject_Compare(NULL, o, true) != 0, "an object equals itself and differs from none");
  rbusObject_t x = mko(NULL, 0), y = mko(NULL, 0); rbusObject_SetChildren(x, o); rbusObject_SetChildren(y, p); vp_check(rbusObject_Compare(x, y, false) == 0 && (rbusObject_Compare(x, y, true) == 0) == (eq != 0), "recursive comparison includes the children"); if (na && nb) { rbusProperty_t s = rbusObject_GetProperties(o), t = rbusObject_GetProperties(p); vp_check((rbusProperty_Compare(s, t) == 0) == (a[0].name == b[0].name && a[0].val == b[0].val), "properties compare equal exactly when name and value agree"); }
  rbusObject_Release(x); rbusObject_Release(y); rbusObject_Release(o); rbusObject_Release(p); vp_reach("objects compared"); }
static void typed(void) { /* every typed property accessor */
  uint64_t base = vp_heap_live(); static struct raw r, s; rbusObject_t o; rbusObject_Init(&o, NULL); int k = (int)vp_choose(K_N, "kind"); mk_raw(&r, k, 0, 3); mk_raw(&s, k, 0, 3); rbusProperty_t p = NULL, q = NULL, w = NULL; rbusProperty_t first = rbusProperty_InitInt32("first", 1); rbusProperty_t hd = first;
#define TY(K, F, E, ES) case K: p = rbusProperty_Init##F("p", E); q = rbusProperty_Append##F(hd, "q", E); rbusObject_SetProperty##F(o, "w", E); vp_check(is_raw(rbusProperty_GetValue(p), &r) && is_raw(rbusProperty_GetValue(q), &r) && is_raw(rbusObject_GetValue(o, "w"), &r) && rbusProperty_GetNext(first) == q, "a typed property holds what it was given"); rbusProperty_Set##F(p, ES); vp_check(is_raw(rbusProperty_GetValue(p), &s), "a typed property holds what it was given last"); break;
  switch (k) { TY(K_BOOL, Boolean, (bool)r.n, (bool)s.n) TY(K_CHAR, Char, (char)r.n, (char)s.n) TY(K_BYTE, Byte, (unsigned char)r.n, (unsigned char)s.n) TY(K_I8, Int8, (int8_t)r.n, (int8_t)s.n) TY(K_U8, UInt8, (uint8_t)r.n, (uint8_t)s.n) TY(K_I16, Int16, (int16_t)r.n, (int16_t)s.n) TY(K_U16, UInt16, (uint16_t)r.n, (uint16_t)s.n) TY(K_I32, Int32, (int32_t)r.n, (int32_t)s.n) TY(K_U32, UInt32, (uint32_t)r.n, (uint32_t)s.n) TY(K_I64, Int64, (int64_t)r.n, (int64_t)s.n) TY(K_U64, UInt64, r.n, s.n) TY(K_F32, Single, bitsf32(r.n), bitsf32(s.n)) TY(K_F64, Double, bitsf64(r.n), bitsf64(s.n)) TY(K_TIME, Time, &r.t, &s.t) TY(K_STR, String, (const char*)r.b, (const char*)s.b)
    case K_BYTES: p = rbusProperty_InitBytes("p", r.b, r.len); q = rbusProperty_AppendBytes(hd, "q", r.b, r.len); rbusObject_SetPropertyBytes(o, "w", r.b, r.len); vp_check(is_raw(rbusProperty_GetValue(p), &r) && is_raw(rbusProperty_GetValue(q), &r) && is_raw(rbusObject_GetValue(o, "w"), &r), "bytes properties hold what they were given"); rbusProperty_SetBytes(p, s.b, s.len); vp_check(is_raw(rbusProperty_GetValue(p), &s), "bytes properties hold what they were given last"); break; }
  rbusProperty_SetName(p, "renamed"); vp_check(!strcmp(rbusProperty_GetName(p), "renamed"), "a property can be renamed"); rbusObject_SetName(o, "n"); vp_check(!strcmp(rbusObject_GetName(o), "n"), "an object can be renamed"); (void)w;
  rbusProperty_Release(p); rbusProperty_Release(first); rbusObject_Release(o); vp_check(vp_heap_live() == base, "typed properties are freed"); vp_reach("typed"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: object_model(); break; case 1: shared(); break; case 2: compare(); break; case 3: typed(); break; } return 0; }
