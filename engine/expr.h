// Hash-consed bit-vector / IEEE-float expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

enum Op : uint8_t { O_CONST, O_VAR, O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FISNAN, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC };

typedef std::vector<uint32_t> VarSet; // sorted, interned

struct Expr { uint8_t op, w; bool uninit, hasfp; uint32_t id, depth; uint64_t val; Expr *a, *b, *c; const VarSet* vars; void* z; };

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct KeyHash { size_t operator()(const Expr* e) const { uint64_t h = e->op * 0x9E3779B97F4A7C15ULL ^ e->w; auto mix=[&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ULL + (h<<6) + (h>>2); }; mix(e->val); mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->c); return h; } };
struct KeyEq { bool operator()(const Expr* x, const Expr* y) const { return x->op==y->op && x->w==y->w && x->val==y->val && x->a==y->a && x->b==y->b && x->c==y->c; } };
struct VSHash { size_t operator()(const VarSet* v) const { uint64_t h=1469598103934665603ULL; for (auto x: *v) { h ^= x; h *= 1099511628211ULL; } return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return *a==*b; } };

struct VarInfo { Expr* e; unsigned w; bool uninit; };
extern std::vector<VarInfo> g_vars;

Expr* mkConst(uint64_t v, unsigned w);
Expr* mkVar(unsigned slot, unsigned w, bool uninit); // interned by (slot,w,uninit)
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* e); // boolean (w==1)
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkFUn(Op op, Expr* a, unsigned w);
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool& ok);
uint64_t foldFUn(Op op, uint64_t a, unsigned aw, unsigned w);
static inline bool isC(Expr* e) { return e->op == O_CONST; }
std::string exprStr(Expr* e, int lim = 200);
