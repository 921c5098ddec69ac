#include "solver.h"
#include <chrono>
#include <unistd.h>
SolverStats g_ss; unsigned g_query_timeout_ms = 20000;
static Z3_context ctx() { static Z3_context c = nullptr; if (!c) { Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context_rc(cfg); Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); fflush(0); _exit(3); }); Z3_del_config(cfg); } return c; }

static std::unordered_map<Expr*, uint64_t> memo; static uint32_t memoDepth = 0;
static uint64_t ev(Expr* e, const Model& m) {
  switch (e->op) { case O_CONST: return e->val; case O_VAR: return e->val < m.size() ? m[e->val] & maskw(e->w) : 0; default: break; }
  bool useMemo = e->depth > 6; if (useMemo) { auto it = memo.find(e); if (it != memo.end()) return it->second; }
  uint64_t r;
  switch (e->op) {
    case O_EXTRACT: r = (ev(e->a, m) >> e->val) & maskw(e->w); break;
    case O_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case O_ZEXT: r = ev(e->a, m); break;
    case O_SEXT: r = (uint64_t)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case O_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case O_FISNAN: case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI: case O_FPEXT: case O_FPTRUNC: r = foldFUn((Op)e->op, ev(e->a, m), e->a->w, e->w); break;
    default: { bool ok; uint64_t x = ev(e->a, m), y = ev(e->b, m); r = foldBin((Op)e->op, x, y, e->a->w, ok) & maskw(e->w);
      if (!ok) { // SMT-LIB division by zero semantics
        if (e->op == O_SDIV) r = (sx(x, e->w) < 0 ? 1 : maskw(e->w)); } }
  }
  if (useMemo) memo[e] = r; return r;
}
uint64_t evalExpr(Expr* e, const Model& m) { memo.clear(); return ev(e, m); }

#define KK(f) [&](auto... a) { return K(f(a...)); }
static Z3_ast K(Z3_ast a) { Z3_inc_ref(ctx(), a); return a; }
static Z3_ast Z(Expr* e);
static Z3_sort bvs(unsigned w) { static Z3_sort t[65]; if (!t[w]) { t[w] = Z3_mk_bv_sort(ctx(), w); Z3_inc_ref(ctx(), Z3_sort_to_ast(ctx(), t[w])); } return t[w]; }
static Z3_sort fps(unsigned w) { static Z3_sort s32, s64; if (!s32) { s32 = Z3_mk_fpa_sort_32(ctx()); Z3_inc_ref(ctx(), Z3_sort_to_ast(ctx(), s32)); s64 = Z3_mk_fpa_sort_64(ctx()); Z3_inc_ref(ctx(), Z3_sort_to_ast(ctx(), s64)); } return w == 32 ? s32 : s64; }
static Z3_ast fp(Expr* e) { Z3_ast z = Z(e); return KK(Z3_mk_fpa_to_fp_bv)(ctx(), z, fps(e->w)); }
static Z3_ast bool2bv(Z3_ast b) { return KK(Z3_mk_ite)(ctx(), b, KK(Z3_mk_unsigned_int64)(ctx(), 1, bvs(1)), KK(Z3_mk_unsigned_int64)(ctx(), 0, bvs(1))); }
static Z3_ast B0(Expr* e);
static std::unordered_map<Expr*, Z3_ast> bmemo;
static Z3_ast B(Expr* e) { auto it = bmemo.find(e); if (it != bmemo.end()) return it->second; Z3_ast r = B0(e); bmemo[e] = r; return r; }
static Z3_ast B0(Expr* e) { // boolean form of a width-1 expr
  Z3_context c = ctx();
  switch (e->op) {
    case O_EQ: return KK(Z3_mk_eq)(c, Z(e->a), Z(e->b)); case O_ULT: return KK(Z3_mk_bvult)(c, Z(e->a), Z(e->b)); case O_ULE: return KK(Z3_mk_bvule)(c, Z(e->a), Z(e->b));
    case O_SLT: return KK(Z3_mk_bvslt)(c, Z(e->a), Z(e->b)); case O_SLE: return KK(Z3_mk_bvsle)(c, Z(e->a), Z(e->b));
    case O_FEQ: return KK(Z3_mk_fpa_eq)(c, fp(e->a), fp(e->b)); case O_FLT: return KK(Z3_mk_fpa_lt)(c, fp(e->a), fp(e->b)); case O_FLE: return KK(Z3_mk_fpa_leq)(c, fp(e->a), fp(e->b));
    case O_FISNAN: return KK(Z3_mk_fpa_is_nan)(c, fp(e->a));
    case O_AND: if (e->w == 1) { Z3_ast x[2] = {B(e->a), B(e->b)}; return KK(Z3_mk_and)(c, 2, x); } break;
    case O_OR: if (e->w == 1) { Z3_ast x[2] = {B(e->a), B(e->b)}; return KK(Z3_mk_or)(c, 2, x); } break;
    case O_XOR: if (e->w == 1 && isC(e->b)) return e->b->val ? KK(Z3_mk_not)(c, B(e->a)) : B(e->a); break;
    case O_CONST: return e->val ? KK(Z3_mk_true)(c) : KK(Z3_mk_false)(c);
    default: break; }
  return KK(Z3_mk_eq)(c, Z(e), KK(Z3_mk_unsigned_int64)(c, 1, bvs(1)));
}
static Z3_ast Z(Expr* e) {
  if (e->z) return (Z3_ast)e->z; Z3_context c = ctx(); Z3_ast r; static Z3_ast rne = 0, rtz = 0; if (!rne) { rne = KK(Z3_mk_fpa_rne)(c); Z3_inc_ref(c, rne); rtz = KK(Z3_mk_fpa_rtz)(c); Z3_inc_ref(c, rtz); }
  switch (e->op) {
    case O_CONST: r = KK(Z3_mk_unsigned_int64)(c, e->val, bvs(e->w)); break;
    case O_VAR: { char n[32]; snprintf(n, 32, "v%lu", (unsigned long)e->val); r = KK(Z3_mk_const)(c, Z3_mk_string_symbol(c, n), bvs(e->w)); break; }
    case O_EXTRACT: r = KK(Z3_mk_extract)(c, e->val + e->w - 1, e->val, Z(e->a)); break;
    case O_CONCAT: r = KK(Z3_mk_concat)(c, Z(e->a), Z(e->b)); break;
    case O_ZEXT: r = KK(Z3_mk_zero_ext)(c, e->w - e->a->w, Z(e->a)); break;
    case O_SEXT: r = KK(Z3_mk_sign_ext)(c, e->w - e->a->w, Z(e->a)); break;
    case O_ADD: r = KK(Z3_mk_bvadd)(c, Z(e->a), Z(e->b)); break; case O_SUB: r = KK(Z3_mk_bvsub)(c, Z(e->a), Z(e->b)); break; case O_MUL: r = KK(Z3_mk_bvmul)(c, Z(e->a), Z(e->b)); break;
    case O_UDIV: r = KK(Z3_mk_bvudiv)(c, Z(e->a), Z(e->b)); break; case O_SDIV: r = KK(Z3_mk_bvsdiv)(c, Z(e->a), Z(e->b)); break; case O_UREM: r = KK(Z3_mk_bvurem)(c, Z(e->a), Z(e->b)); break; case O_SREM: r = KK(Z3_mk_bvsrem)(c, Z(e->a), Z(e->b)); break;
    case O_AND: r = KK(Z3_mk_bvand)(c, Z(e->a), Z(e->b)); break; case O_OR: r = KK(Z3_mk_bvor)(c, Z(e->a), Z(e->b)); break; case O_XOR: r = KK(Z3_mk_bvxor)(c, Z(e->a), Z(e->b)); break;
    case O_SHL: r = KK(Z3_mk_bvshl)(c, Z(e->a), Z(e->b)); break; case O_LSHR: r = KK(Z3_mk_bvlshr)(c, Z(e->a), Z(e->b)); break; case O_ASHR: r = KK(Z3_mk_bvashr)(c, Z(e->a), Z(e->b)); break;
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FEQ: case O_FLT: case O_FLE: case O_FISNAN: r = bool2bv(B(e)); break;
    case O_ITE: r = KK(Z3_mk_ite)(c, B(e->a), Z(e->b), Z(e->c)); break;
    case O_FADD: r = KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_add)(c, rne, fp(e->a), fp(e->b))); break; case O_FSUB: r = KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_sub)(c, rne, fp(e->a), fp(e->b))); break;
    case O_FMUL: r = KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_mul)(c, rne, fp(e->a), fp(e->b))); break; case O_FDIV: r = KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_div)(c, rne, fp(e->a), fp(e->b))); break;
    case O_SITOFP: r = KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_to_fp_signed)(c, rne, Z(e->a), fps(e->w))); break; case O_UITOFP: r = KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_to_fp_unsigned)(c, rne, Z(e->a), fps(e->w))); break;
    case O_FPTOSI: r = KK(Z3_mk_fpa_to_sbv)(c, rtz, fp(e->a), e->w); break; case O_FPTOUI: r = KK(Z3_mk_fpa_to_ubv)(c, rtz, fp(e->a), e->w); break;
    case O_FPEXT: case O_FPTRUNC: { // a NaN keeps sign and leading payload bits and becomes quiet, as the processor does it
      Z3_ast x = Z(e->a), f; bool up = e->w == 64; unsigned top = up ? 31 : 63;
      f = KK(Z3_mk_bvor)(c, up ? KK(Z3_mk_extract)(c, 22, 0, x) : KK(Z3_mk_extract)(c, 51, 29, x), Z3_mk_unsigned_int64(c, 0x400000, Z3_mk_bv_sort(c, 23)));
      if (up) f = KK(Z3_mk_concat)(c, f, Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 29)));
      unsigned eb = up ? 11 : 8; f = KK(Z3_mk_concat)(c, Z3_mk_unsigned_int64(c, up ? 0x7ff : 0xff, Z3_mk_bv_sort(c, eb)), f);
      f = KK(Z3_mk_concat)(c, KK(Z3_mk_extract)(c, top, top, x), f);
      r = KK(Z3_mk_ite)(c, KK(Z3_mk_fpa_is_nan)(c, fp(e->a)), f, KK(Z3_mk_fpa_to_ieee_bv)(c, KK(Z3_mk_fpa_to_fp_float)(c, rne, fp(e->a), fps(e->w)))); break; }
    default: abort();
  }
  Z3_inc_ref(c, r); e->z = r; return r;
}

struct CacheEnt { int res; std::vector<uint64_t> vals; };
static std::unordered_map<std::string, CacheEnt> g_cache;
static void ser(Expr* e, std::string& s, std::unordered_map<Expr*, uint32_t>& seen, std::vector<uint32_t>& order) {
  auto it = seen.find(e); if (it != seen.end()) { s.push_back((char)0xFF); s.append((char*)&it->second, 4); return; }
  s.push_back((char)e->op); s.push_back((char)e->w);
  if (e->op == O_CONST) { s.append((char*)&e->val, 8); return; }
  uint32_t n = seen.size(); seen[e] = n;
  if (e->op == O_VAR) { order.push_back(e->val); return; }
  if (e->op == O_EXTRACT) s.push_back((char)e->val);
  for (Expr* x : {e->a, e->b, e->c}) if (x) ser(x, s, seen, order);
}
int solveSat(const std::vector<Expr*>& pc, Expr* cond, Model& hint) {
  g_ss.queries++;
  if (isC(cond)) { return cond->val ? 1 : 0; }
  // independence slice
  std::vector<Expr*> sl{cond}; VarSet vars = *cond->vars; std::vector<char> used(pc.size(), 0); bool ch = true;
  std::vector<char> inset(g_vars.size() + 1, 0); for (auto v : vars) inset[v] = 1;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (auto v : *pc[i]->vars) if (inset[v]) { hit = true; break; } if (hit) { used[i] = 1; ch = true; sl.push_back(pc[i]); for (auto v : *pc[i]->vars) inset[v] = 1; } } }
  { // quick: does the hint already satisfy? (pc holds under hint by invariant)
    if (evalExpr(cond, hint)) { g_ss.cachehits++; return 1; } }
  std::string key; std::unordered_map<Expr*, uint32_t> seen; std::vector<uint32_t> order;
  for (Expr* e : sl) { ser(e, key, seen, order); key.push_back((char)0xFE); }
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_ss.cachehits++; if (it->second.res == 1) { if (hint.size() < g_vars.size()) hint.resize(g_vars.size()); for (size_t i = 0; i < order.size(); i++) hint[order[i]] = it->second.vals[i]; } return it->second.res; }
  auto t0 = std::chrono::steady_clock::now(); Z3_context c = ctx(); bool hasfp = false; for (auto e : sl) hasfp |= e->hasfp;
  int res = -1; CacheEnt ce;
  for (int attempt = 0; attempt < 2 && res < 0; attempt++) {
    static Z3_solver s1 = 0, s2 = 0; Z3_solver s;
    if (attempt == 0 && !hasfp) { if (!s1) { s1 = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s1); } s = s1; }
    else { if (s2) Z3_solver_dec_ref(c, s2); s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, hasfp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(c, s2); s = s2; attempt = 1; }
    Z3_solver_reset(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), attempt == 0 ? 3000 : g_query_timeout_ms); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
    for (Expr* e : sl) Z3_solver_assert(c, s, B(e));
    g_ss.z3calls++; Z3_lbool r = Z3_solver_check(c, s);
    if (r == Z3_L_TRUE) { res = 1; Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      if (hint.size() < g_vars.size()) hint.resize(g_vars.size());
      for (auto v : order) { Z3_ast out; uint64_t x = 0; if (Z3_model_eval(c, m, Z(g_vars[v].e), true, &out)) { Z3_get_numeral_uint64(c, out, &x); } hint[v] = x; ce.vals.push_back(x); }
      Z3_model_dec_ref(c, m);
      bool ok = true; for (Expr* e : sl) if (!evalExpr(e, hint)) { ok = false; if (!e->hasfp) { fprintf(stderr, "MODEL MISMATCH %s\n", exprStr(e, 400).c_str()); } }
      if (!ok) { if (hasfp) res = -1; else { fflush(0); _exit(3); } }
    } else if (r == Z3_L_FALSE) res = 0;
  }
  if (getenv("VP_SLOW")) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (dt > atof(getenv("VP_SLOW"))) { fprintf(stderr, "SLOW %.3f res %d\n", dt, res); for (Expr* e : sl) fprintf(stderr, "  %s\n", Z3_ast_to_string(c, B(e))); } }
  g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (res == 1) g_ss.sat++; else if (res == 0) g_ss.unsat++; else g_ss.unknown++;
  ce.res = res; if (key.size() < 20000) g_cache[key] = ce; return res;
}
