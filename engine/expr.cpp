#include "expr.h"
static std::unordered_set<Expr*, KeyHash, KeyEq> g_tab;
static std::unordered_set<VarSet*, VSHash, VSEq> g_vs;
static uint32_t g_next = 1;
std::vector<VarInfo> g_vars;
static std::unordered_map<uint64_t, Expr*> g_varmap;

static const VarSet* internVS(VarSet&& v) { static VarSet* empty = nullptr; if (v.empty()) { if (!empty) empty = new VarSet(); return empty; } auto it = g_vs.find(&v); if (it != g_vs.end()) return *it; VarSet* n = new VarSet(std::move(v)); g_vs.insert(n); return n; }
static const VarSet* unite(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  if (a->size() >= b->size() && std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
  if (b->size() >= a->size() && std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
  VarSet r; r.reserve(a->size() + b->size()); std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r)); return internVS(std::move(r));
}
static Expr* node(uint8_t op, unsigned w, uint64_t val, Expr* a, Expr* b, Expr* c) {
  Expr k; k.op = op; k.w = w; k.val = val; k.a = a; k.b = b; k.c = c;
  auto it = g_tab.find(&k); if (it != g_tab.end()) return *it;
  Expr* e = new Expr(k); e->id = g_next++; e->z = nullptr; e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
  e->hasfp = op >= O_FADD || (a && a->hasfp) || (b && b->hasfp) || (c && c->hasfp);
  uint32_t d = 0; for (Expr* x : {a, b, c}) if (x && x->depth > d) d = x->depth; e->depth = d + 1;
  const VarSet* vs = internVS(VarSet()); for (Expr* x : {a, b, c}) if (x) vs = unite(vs, x->vars); e->vars = vs;
  g_tab.insert(e); return e;
}
Expr* mkConst(uint64_t v, unsigned w) { return node(O_CONST, w, v & maskw(w), 0, 0, 0); }
Expr* mkVar(unsigned slot, unsigned w, bool uninit) {
  uint64_t key = ((uint64_t)slot << 16) | (w << 1) | uninit; auto it = g_varmap.find(key); if (it != g_varmap.end()) return it->second;
  unsigned id = g_vars.size(); Expr* e = node(O_VAR, w, id, 0, 0, 0); e->uninit = uninit; e->vars = internVS(VarSet{id}); g_vars.push_back({e, w, uninit}); g_varmap[key] = e; return e;
}
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->op) {
    case O_CONST: return mkConst(e->val >> lo, w);
    case O_EXTRACT: return mkExtract(e->a, lo + (unsigned)e->val, w);
    case O_CONCAT: { unsigned lw = e->b->w; if (lo + w <= lw) return mkExtract(e->b, lo, w); if (lo >= lw) return mkExtract(e->a, lo - lw, w);
      return mkConcat(mkExtract(e->a, 0, w - (lw - lo)), mkExtract(e->b, lo, lw - lo)); }
    case O_ZEXT: { unsigned iw = e->a->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(e->a, lo, w); return mkZExt(mkExtract(e->a, lo, iw - lo), w); }
    case O_SEXT: { unsigned iw = e->a->w; if (lo + w <= iw) return mkExtract(e->a, lo, w); if (lo < iw) return mkSExt(mkExtract(e->a, lo, iw - lo), w); break; }
    case O_AND: case O_OR: case O_XOR: if (isC(e->b)) return mkBin((Op)e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w)); break;
    case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return mkBin((Op)e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    case O_ITE: if (isC(e->b) || isC(e->c)) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w)); break;
    case O_SHL: if (isC(e->b)) { uint64_t s = e->b->val; if (lo + w <= s) return mkConst(0, w); if (lo >= s) return mkExtract(e->a, lo - s, w); } break;
    case O_LSHR: if (isC(e->b)) { uint64_t s = e->b->val; if (lo + s + w <= e->w) return mkExtract(e->a, lo + s, w); if (lo + s >= e->w) return mkConst(0, w); } break;
    default: break;
  }
  return node(O_EXTRACT, w, lo, e, 0, 0);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w; assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  auto base = [](Expr* e, unsigned& l) -> Expr* { if (e->op == O_EXTRACT) { l = e->val; return e->a; } l = 0; return e; };
  unsigned l1, l2; Expr* b1 = base(hi, l1); Expr* b2 = base(lo, l2);
  if (b1 == b2 && l1 == l2 + lo->w) return mkExtract(b1, l2, w);
  if (lo->op == O_CONCAT) { unsigned l3; Expr* b3 = base(lo->a, l3); if (b3 == b1 && l1 == l3 + lo->a->w) return mkConcat(mkExtract(b1, l3, hi->w + lo->a->w), lo->b); }
  if (hi->op == O_ZEXT && 0) return 0;
  // concat(extract of zext ..., x): top sign/zero bytes
  if (hi->op == O_CONCAT) { Expr* r = mkConcat(hi->b, lo); if (!(r->op == O_CONCAT && r->a == hi->b && r->b == lo)) return mkConcat(hi->a, r); }
  if (hi->op == O_ZEXT) { Expr* r = mkConcat(hi->a, lo); return mkZExt(r, w); }
  return node(O_CONCAT, w, 0, hi, lo, 0);
}
Expr* mkZExt(Expr* e, unsigned w) { if (w == e->w) return e; if (w < e->w) return mkExtract(e, 0, w); if (isC(e)) return mkConst(e->val, w); if (e->op == O_ZEXT) return mkZExt(e->a, w); return node(O_ZEXT, w, 0, e, 0, 0); }
Expr* mkSExt(Expr* e, unsigned w) { if (w == e->w) return e; if (w < e->w) return mkExtract(e, 0, w); if (isC(e)) return mkConst((uint64_t)sx(e->val, e->w), w); if (e->op == O_SEXT) return mkSExt(e->a, w); if (e->op == O_ZEXT) return mkZExt(e->a, w); return node(O_SEXT, w, 0, e, 0, 0); }

static double asF(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromF(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool& ok) { // w = operand width
  ok = true; uint64_t m = maskw(w); a &= m; b &= m;
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: if (!b) { ok = false; return m; } return a / b; case O_UREM: if (!b) { ok = false; return a; } return a % b;
    case O_SDIV: { if (!b) { ok = false; return 0; } int64_t x = sx(a, w), y = sx(b, w); if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { if (!b) { ok = false; return a; } int64_t x = sx(a, w), y = sx(b, w); if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b; case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b; case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
    case O_FADD: return w == 32 ? fromF((float)asF(a, w) + (float)asF(b, w), 32) : fromF(asF(a, w) + asF(b, w), 64);
    case O_FSUB: return w == 32 ? fromF((float)asF(a, w) - (float)asF(b, w), 32) : fromF(asF(a, w) - asF(b, w), 64);
    case O_FMUL: return w == 32 ? fromF((float)asF(a, w) * (float)asF(b, w), 32) : fromF(asF(a, w) * asF(b, w), 64);
    case O_FDIV: return w == 32 ? fromF((float)asF(a, w) / (float)asF(b, w), 32) : fromF(asF(a, w) / asF(b, w), 64);
    case O_FEQ: return asF(a, w) == asF(b, w); case O_FLT: return asF(a, w) < asF(b, w); case O_FLE: return asF(a, w) <= asF(b, w);
    default: fprintf(stderr, "foldBin op %d\n", op); abort();
  }
}
uint64_t foldFUn(Op op, uint64_t a, unsigned aw, unsigned w) {
  switch (op) {
    case O_FISNAN: return std::isnan(asF(a, aw));
    case O_SITOFP: return w == 32 ? fromF((float)sx(a, aw), 32) : fromF((double)sx(a, aw), 64);
    case O_UITOFP: { uint64_t u = a & maskw(aw); return w == 32 ? fromF((float)u, 32) : fromF((double)u, 64); }
    case O_FPTOSI: { double d = asF(a, aw); if (std::isnan(d) || d >= 9.3e18 || d <= -9.3e18) return (1ULL << 63) & maskw(w); return (uint64_t)(int64_t)d & maskw(w); }
    case O_FPTOUI: { double d = asF(a, aw); if (std::isnan(d) || d >= 1.9e19 || d <= -1.0) return 0; return (uint64_t)d & maskw(w); }
    case O_FPEXT: case O_FPTRUNC: return fromF(asF(a, aw), w);
    default: abort();
  }
}
Expr* mkFUn(Op op, Expr* a, unsigned w) { if (isC(a)) return mkConst(foldFUn(op, a->val, a->w, w), w); return node(op, w, 0, a, 0, 0); }
Expr* mkNot(Expr* e) { assert(e->w == 1); return mkBin(O_XOR, e, mkConst(1, 1)); }
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->val ? a : b; if (a == b) return a;
  if (c->op == O_XOR && isC(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) { if (isC(a) && isC(b)) return a->val ? c : mkNot(c); if (isC(a)) return a->val ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b); if (isC(b)) return b->val ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a); }
  return node(O_ITE, a->w, 0, c, a, b);
}
Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w; if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  bool cmp = (op >= O_EQ && op <= O_SLE) || (op >= O_FEQ && op <= O_FLE); unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) { bool ok; uint64_t r = foldBin(op, a->val, b->val, w, ok); if (ok) return mkConst(r, rw); }
  switch (op) { // commutative: constant to the right
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); break; default: break; }
  uint64_t m = maskw(w); bool bc = isC(b), ac = isC(a);
  if (op == O_FEQ || op == O_FLT || op == O_FLE) { // comparisons of converted integers are integer comparisons when the conversion is exact, and always against zero
    auto conv = [&](Expr* e) { return e->op == O_SITOFP || e->op == O_UITOFP; }; unsigned lim = w == 64 ? 53 : 24; Op iop = op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE;
    auto small = [&](Expr* e) -> Expr* { if (conv(e) && e->a->w <= lim) return e->op == O_SITOFP ? mkSExt(e->a, 64) : mkZExt(e->a, 64); if (isC(e)) { double d; if (w == 64) memcpy(&d, &e->val, 8); else { float f; uint32_t u = (uint32_t)e->val; memcpy(&f, &u, 4); d = f; } if (d == d && d > -9007199254740992.0 && d < 9007199254740992.0 && (double)(int64_t)d == d) return mkConst((uint64_t)(int64_t)d, 64); } return nullptr; };
    if (conv(a) || conv(b)) { Expr *x = small(a), *y = small(b); if (x && y) return mkBin(iop, x, y);
      auto zero = [&](Expr* e) { return isC(e) && (e->val & (m >> 1)) == 0; };
      if (conv(a) && zero(b)) { Expr* z = mkConst(0, a->a->w); if (a->op == O_SITOFP) return mkBin(iop, a->a, z); return op == O_FLT ? mkConst(0, 1) : mkBin(O_EQ, a->a, z); }
      if (conv(b) && zero(a)) { Expr* z = mkConst(0, b->a->w); if (b->op == O_SITOFP) return mkBin(iop, z, b->a); return op == O_FEQ ? mkBin(O_EQ, b->a, z) : op == O_FLT ? mkNot(mkBin(O_EQ, b->a, z)) : mkConst(1, 1); } } }
  switch (op) {
    case O_ADD: if (bc && !b->val) return a; if (bc && a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->val + b->val, w)); break;
    case O_SUB: if (bc) return mkBin(O_ADD, a, mkConst(0 - b->val, w)); if (a == b) return mkConst(0, w); break;
    case O_MUL: if (bc && b->val == 1) return a; if (bc && !b->val) return b; break;
    case O_AND: if (bc && !b->val) return b; if (bc && b->val == m) return a; if (a == b) return a;
      if (bc && a->op == O_ZEXT && (b->val & maskw(a->a->w)) == maskw(a->a->w)) return a;
      if (bc && a->op == O_ZEXT) return mkZExt(mkBin(O_AND, a->a, mkConst(b->val, a->a->w)), w);
      if (bc && (b->val & (b->val + 1)) == 0) { unsigned k = 0; while ((b->val >> k) & 1) k++; if (k % 8 == 0) return mkZExt(mkExtract(a, 0, k), w); }
      if (bc && a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->val & b->val, w)); break;
    case O_OR: if (bc && !b->val) return a; if (bc && b->val == m) return b; if (a == b) return a;
      if (a->op == O_ZEXT && b->op == O_SHL && isC(b->b) && b->b->val >= a->a->w && b->a->op == O_ZEXT && 0) break; break;
    case O_XOR: if (bc && !b->val) return a; if (a == b) return mkConst(0, w);
      if (bc && a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->val ^ b->val, w));
      if (w == 1 && bc) { // push negation
        if (a->op == O_ULT) return mkBin(O_ULE, a->b, a->a); if (a->op == O_ULE) return mkBin(O_ULT, a->b, a->a);
        if (a->op == O_SLT) return mkBin(O_SLE, a->b, a->a); if (a->op == O_SLE) return mkBin(O_SLT, a->b, a->a); } break;
    case O_SHL: if (bc && !b->val) return a; if (bc && b->val >= w) return mkConst(0, w); break;
    case O_LSHR: if (bc && !b->val) return a; if (bc && b->val >= w) return mkConst(0, w); if (bc) return mkZExt(mkExtract(a, b->val, w - b->val), w); break;
    case O_ASHR: if (bc && !b->val) return a; if (bc && b->val < w) return mkSExt(mkExtract(a, b->val, w - b->val), w); break;
    case O_EQ: if (a == b) return mkConst(1, 1);
      if (w == 1 && bc) return b->val ? a : mkNot(a);
      if (bc) { if (a->op == O_ZEXT) { if (b->val >> a->a->w) return mkConst(0, 1); return mkBin(O_EQ, a->a, mkConst(b->val, a->a->w)); }
        if (a->op == O_SEXT) { uint64_t t = mkExtract(b, 0, a->a->w)->val; if ((uint64_t)sx(t, a->a->w) == (uint64_t)sx(b->val, w)) return mkBin(O_EQ, a->a, mkConst(t, a->a->w)); return mkConst(0, 1); }
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_EQ, a->a, mkConst(b->val - a->b->val, w));
        if (a->op == O_XOR && isC(a->b)) return mkBin(O_EQ, a->a, mkConst(b->val ^ a->b->val, w));
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) { bool x = a->b->val == b->val, y = a->c->val == b->val; return x ? (y ? mkConst(1, 1) : a->a) : (y ? mkNot(a->a) : mkConst(0, 1)); }
        if (a->op == O_ITE && isC(a->b)) { if (a->b->val == b->val) return mkBin(O_OR, a->a, mkBin(O_EQ, a->c, b)); return mkBin(O_AND, mkNot(a->a), mkBin(O_EQ, a->c, b)); }
        if (a->op == O_ITE && isC(a->c)) { if (a->c->val == b->val) return mkBin(O_OR, mkNot(a->a), mkBin(O_EQ, a->b, b)); return mkBin(O_AND, a->a, mkBin(O_EQ, a->b, b)); } }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(O_EQ, a->a, b->a); break;
    case O_ULT: if (a == b) return mkConst(0, 1); if (bc && !b->val) return mkConst(0, 1); if (bc && b->val == 1) return mkBin(O_EQ, a, mkConst(0, w)); if (ac && a->val == m) return mkConst(0, 1);
      if (bc && a->op == O_ZEXT) { if (b->val > maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULT, a->a, mkConst(b->val, a->a->w)); }
      if (ac && b->op == O_ZEXT) { if (a->val >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULT, mkConst(a->val, b->a->w), b->a); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULT, a->a, b->a); break;
    case O_ULE: if (a == b) return mkConst(1, 1); if (bc && b->val == m) return mkConst(1, 1); if (ac && !a->val) return mkConst(1, 1);
      if (bc && a->op == O_ZEXT) { if (b->val >= maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULE, a->a, mkConst(b->val, a->a->w)); }
      if (ac && b->op == O_ZEXT) { if (a->val > maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULE, mkConst(a->val, b->a->w), b->a); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkBin(O_ULE, a->a, b->a); break;
    case O_SLT: if (a == b) return mkConst(0, 1);
      if (bc && a->op == O_ZEXT) { int64_t s = sx(b->val, w); if (s <= 0) return mkConst(0, 1); return mkBin(O_ULT, a, b); }
      if (ac && b->op == O_ZEXT) { int64_t s = sx(a->val, w); if (s < 0) return mkConst(1, 1); return mkBin(O_ULT, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULT, a, b); 
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(O_SLT, a->a, b->a); break;
    case O_SLE: if (a == b) return mkConst(1, 1);
      if (bc && a->op == O_ZEXT) { int64_t s = sx(b->val, w); if (s < 0) return mkConst(0, 1); return mkBin(O_ULE, a, b); }
      if (ac && b->op == O_ZEXT) { int64_t s = sx(a->val, w); if (s <= 0) return mkConst(1, 1); return mkBin(O_ULE, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULE, a, b); 
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(O_SLE, a->a, b->a); break;
    default: break;
  }
  (void)ac;
  return node(op, rw, 0, a, b, 0);
}
std::string exprStr(Expr* e, int lim) {
  static const char* n[] = {"c","v","ext","cat","zx","sx","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>","a>>","=","u<","u<=","s<","s<=","ite","f+","f-","f*","f/","f=","f<","f<=","nan","si2f","ui2f","f2si","f2ui","fext","ftr"};
  if (lim <= 0) return "..."; if (e->op == O_CONST) return std::to_string(e->val); if (e->op == O_VAR) return "v" + std::to_string(e->val);
  std::string s = "(" + std::string(n[e->op]); if (e->op == O_EXTRACT) s += "@" + std::to_string(e->val) + ":" + std::to_string(e->w); for (Expr* x : {e->a, e->b, e->c}) if (x) { s += " " + exprStr(x, lim - (int)s.size()); } return s + ")";
}
