// vpse: a forking symbolic executor for LLVM IR. Every branch, address and size that depends on a symbolic input is decided by Z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::set;

// ---------------------------------------------------------------- values and memory
struct Val { uint64_t c; Expr* e; };
static inline Val VC(uint64_t c) { return {c, nullptr}; }
enum OK : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_ALLOCD };
struct Obj { int rc; uint32_t size; uint8_t kind; bool ro; vector<uint8_t> d; vector<Expr*> s; vector<uint8_t> in; uint32_t site; };
struct Slot { Obj* o; uint16_t gen; uint8_t state; uint8_t kind; uint32_t site; }; // state 0 never,1 live,2 freed
static const int CH = 128;
struct Chunk { int rc; Slot s[CH]; };
// address layout: [47..24]=id, [23..0]=offset; gen in [62..48] for stack ids only
static inline uint32_t a_id(uint64_t a) { return (a >> 24) & 0xFFFFFF; }
static inline uint32_t a_off(uint64_t a) { return a & 0xFFFFFF; }
static inline uint16_t a_gen(uint64_t a) { return (a >> 48) & 0x7FFF; }
static const uint32_t OFFBASE = 0x1000; // objects start at offset 0x1000 in their slot so small negative indices stay in the slot
struct Memory {
  vector<Chunk*> ch; uint32_t next = 1; vector<uint32_t> freeIds; // recycled stack ids
  Memory() {}
  Memory(const Memory& m) : ch(m.ch), next(m.next), freeIds(m.freeIds) { for (auto c : ch) c->rc++; }
  ~Memory() { for (auto c : ch) drop(c); }
  static void drop(Chunk* c) { if (--c->rc == 0) { for (auto& s : c->s) if (s.o && --s.o->rc == 0) delete s.o; delete c; } }
  const Slot* slot(uint32_t id) const { uint32_t k = id / CH; return k < ch.size() ? &ch[k]->s[id % CH] : nullptr; }
  Slot* wslot(uint32_t id) { uint32_t k = id / CH; while (ch.size() <= k) { Chunk* c = new Chunk(); memset((void*)c->s, 0, sizeof c->s); c->rc = 1; ch.push_back(c); }
    if (ch[k]->rc > 1) { Chunk* n = new Chunk(*ch[k]); n->rc = 1; for (auto& s : n->s) if (s.o) s.o->rc++; ch[k]->rc--; ch[k] = n; } return &ch[k]->s[id % CH]; }
  Obj* wobj(uint32_t id) { Slot* s = wslot(id); if (s->o->rc > 1) { Obj* n = new Obj(*s->o); n->rc = 1; s->o->rc--; s->o = n; } return s->o; }
};

struct Opnd { bool reg; uint32_t r; uint64_t c; };
struct PI { unsigned op; int dst; uint16_t w, w2; vector<Opnd> ops; const Instruction* I; int64_t goff; vector<int64_t> strides; uint32_t t0, t1; Function* callee; int bi; uint64_t nexec; bool agg; };
struct PF { Function* F; vector<PI> code; vector<uint32_t> bstart; std::unordered_map<const BasicBlock*, uint32_t> bidx; unsigned nregs, nargs; bool repo; uint64_t calls; };
struct Frame { PF* f; uint32_t pc; uint32_t prevb; vector<Val> regs; vector<uint32_t> allocas; uint64_t va; };
struct Thread { vector<Frame> st; bool done; };
struct Input { string name; unsigned w; Expr* e; uint64_t c; char kind; }; // kind i=input c=choice u=uninit
struct Obs { Val v; unsigned w; };
struct State {
  Memory mem; vector<Thread> th; int cur = 0; vector<Expr*> pc; Model model; vector<char> fixed; vector<Input> in; vector<Obs> obs; uint64_t steps = 0; uint32_t conc = 0; uint64_t heapLive = 0; uint64_t decisions = 0; vector<string> reach; bool nouninit = false; bool didCheck=false;
};

static Module* M; static const DataLayout* DL; static std::unordered_map<Function*, PF*> pfs; static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::unordered_map<uint32_t, Function*> funcOfId;
static vector<State*> work; static State* S; static string g_repo = "/repo/"; 
static double g_budget = 1e9; static uint64_t g_maxsteps = 40000000; static unsigned g_maxerr = 10; static unsigned g_concmax = 600; static size_t g_memMB = 6000;
static uint64_t n_paths = 0, n_pruned = 0, n_forks = 0, n_steps = 0, n_errs = 0, n_exitpaths = 0; static set<string> incomplete; static map<string, uint64_t> checksSeen, reachSeen; static map<string, string> params; static map<string, uint64_t> choiceSplits;
static string g_samples; static int n_samples = 0, g_maxsamples = 40; static bool verbose = false;
struct ErrRec { string kind, label, func, loc, stack, inputs; }; static vector<ErrRec> g_errs; static set<string> errKeys;
static std::chrono::steady_clock::time_point T0; static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct PathEnd {}; // thrown to end the current path

static string jstr(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string locOf(const Instruction* I) { if (!I) return "?"; if (const DebugLoc& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d.getScope()); string f = sc->getFilename().str(); if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f; return f + ":" + std::to_string(d.getLine()); } return "?"; }
static string funcLoc() { auto& st = S->th[S->cur].st; return st.empty() ? "?" : st.back().f->F->getName().str(); }
static string backtrace(State* s) { string r; auto& st = s->th[s->cur].st; for (int i = (int)st.size() - 1; i >= 0; i--) { auto& f = st[i]; uint32_t pc = f.pc; if (i != (int)st.size() - 1 && pc) pc--; string l = pc < f.f->code.size() ? locOf(f.f->code[pc].I) : "?"; r += (r.empty() ? "" : " <- ") + f.f->F->getName().str() + "@" + l; if (st.size() - i > 14) break; } return r; }
static string inputsJson(State* s) { string r = "["; bool first = true; for (auto& i : s->in) { uint64_t v = i.e ? evalExpr(i.e, s->model) : i.c; if (i.kind == 'u') continue; if (!first) r += ","; first = false; char b[64]; snprintf(b, 64, ",%u,%lu]", i.w, (unsigned long)v); r += "[" + jstr(i.name) + b; } return r + "]"; }
static void endPath() { throw PathEnd(); }
[[noreturn]] static void errorOut(const string& kind, const string& label) {
  string fn = funcLoc(), loc = "?"; auto& st = S->th[S->cur].st; // innermost frame in repo code for location
  string rf, rl; for (int i = (int)st.size() - 1; i >= 0; i--) if (st[i].f->repo) { uint32_t pc = st[i].pc; if (i != (int)st.size() - 1 && pc) pc--; rf = st[i].f->F->getName().str(); rl = locOf(st[i].f->code[std::min<size_t>(pc, st[i].f->code.size() - 1)].I); break; }
  if (!rf.empty() && kind != "check") { fn = rf; loc = rl; } else if (!st.empty()) loc = locOf(st.back().f->code[std::min<size_t>(st.back().pc, st.back().f->code.size() - 1)].I);
  string key = kind + "|" + label + "|" + fn; n_errs++;
  if (errKeys.insert(key + loc).second && g_errs.size() < 200) g_errs.push_back({kind, label, fn, loc, backtrace(S), inputsJson(S)});
  throw PathEnd();
}
static void inc(const string& why) { incomplete.insert(why); }

// ---------------------------------------------------------------- constraints
static void markFixed(Expr* e) {
  if (e->op != O_EQ || !isC(e->b)) return; Expr* x = e->a; while (x->op == O_ZEXT || x->op == O_SEXT || (x->op == O_ADD && isC(x->b)) || (x->op == O_XOR && isC(x->b))) x = x->a;
  auto fix = [&](Expr* v) { if (v->op == O_VAR) { if (S->fixed.size() <= v->val) S->fixed.resize(v->val + 1, 0); S->fixed[v->val] = 1; } };
  if (x->op == O_CONCAT) { // all leaf vars fixed
    vector<Expr*> w{x}; while (!w.empty()) { Expr* y = w.back(); w.pop_back(); if (y->op == O_CONCAT) { w.push_back(y->a); w.push_back(y->b); } else if (y->op == O_ZEXT || y->op == O_SEXT) w.push_back(y->a); else fix(y); } return; }
  fix(x);
}
static void addC(Expr* e) { if (isC(e)) { if (!e->val) { fprintf(stderr, "addC false\n"); abort(); } return; } if (e->op == O_AND && e->w == 1) { addC(e->a); addC(e->b); return; } S->pc.push_back(e); markFixed(e); }
static inline Val norm(Expr* e) {
  if (isC(e)) return VC(e->val); if (!S->fixed.empty()) { for (auto v : *e->vars) if (v >= S->fixed.size() || !S->fixed[v]) return {0, e}; return VC(evalExpr(e, S->model)); } return {0, e};
}
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static int query(Expr* cond, Model& m) { int r = solveSat(S->pc, cond, m); if (r < 0) inc("solver-unknown"); return r; }
static State* forkState() { n_forks++; State* n = new State(*S); work.push_back(n); return n; }
static Model emptyModel;
// decide a boolean: returns the truth value taken by the current state, forking a sibling (that re-executes) for the other.
// rewind: the sibling's pc must point to the instruction being executed (it does: pc is advanced only after execution)
static void checkUninit(Expr* c, bool b) {
  if (!c->uninit || S->nouninit) return;
  // does the outcome depend on uninitialised memory alone?
  Model m = S->model; vector<Expr*> save = S->pc; Expr* k = b ? mkNot(c) : c;
  for (auto v : *c->vars) if (!g_vars[v].uninit) { uint64_t x = v < m.size() ? m[v] : 0; k = mkBin(O_AND, k, mkBin(O_EQ, g_vars[v].e, mkConst(x, g_vars[v].w))); }
  if (query(k, m) == 1) errorOut("uninit", "decision depends on uninitialised memory");
}
static bool decide(Expr* c) {
  Val v = norm(c); if (!v.e) return v.c; c = v.e; bool b = evalExpr(c, S->model); checkUninit(c, b);
  Expr* other = b ? mkNot(c) : c; Model m = S->model; int r = query(other, m);
  if (r == 1) { S->decisions++; State* n = forkState(); std::swap(S, n); addC(other); S->model = m; S->conc = 0; std::swap(S, n); addC(b ? c : mkNot(c)); }
  else if (r < 0) { addC(b ? c : mkNot(c)); }
  return b;
}
static uint64_t concretize(Val v, unsigned w, const char* why) {
  if (!v.e) return v.c; Val nv = norm(v.e); if (!nv.e) return nv.c; Expr* e = nv.e; uint64_t x = evalExpr(e, S->model); Expr* eq = mkBin(O_EQ, e, mkConst(x, w)); if (e->uninit) checkUninit(eq, true);
  Model m = S->model; int r = query(mkNot(eq), m);
  if (r == 1) { if (S->conc >= g_concmax) inc(string("concretization limit (") + why + ") in " + funcLoc()); else { State* n = forkState(); n->conc = S->conc + 1; std::swap(S, n); addC(mkNot(eq)); S->model = m; std::swap(S, n); } addC(eq); }
  S->conc = 0; return x;
}

// ---------------------------------------------------------------- memory access
static uint64_t allocObj(Memory& m, uint32_t size, uint8_t kind, bool init, uint32_t site = 0) {
  uint32_t id; if (kind == K_STACK && !m.freeIds.empty()) { id = m.freeIds.back(); m.freeIds.pop_back(); } else id = m.next++;
  if (id >= 0xFFFFFF) { fprintf(stderr, "out of object ids\n"); _exit(3); }
  Slot* s = m.wslot(id); if (kind == K_STACK) s->gen = (s->gen + 1) & 0x7FFF; else s->gen = 0;
  Obj* o = new Obj(); o->rc = 1; o->size = size; o->kind = kind; o->ro = false; o->d.assign(size, init ? 0 : 0xAA); if (!init) o->in.assign(size, 0); o->site = site; s->o = o; s->state = 1; s->kind = kind; s->site = site;
  return ((uint64_t)s->gen << 48) | ((uint64_t)id << 24) | OFFBASE;
}
static void killObj(Memory& m, uint32_t id, bool recycle) { Slot* s = m.wslot(id); if (s->o && --s->o->rc == 0) delete s->o; s->o = nullptr; s->state = 2; if (recycle) m.freeIds.push_back(id); }
static const Obj* findObj(uint64_t addr, string* why = nullptr) {
  if (addr < 0x1000000) { if (why) *why = addr < 4096 ? "null pointer dereference" : "wild pointer dereference"; return nullptr; }
  const Slot* s = S->mem.slot(a_id(addr)); if (!s || s->state == 0 || (addr >> 63)) { if (why) *why = "wild pointer dereference"; return nullptr; }
  if (s->state == 2 || s->gen != a_gen(addr)) { if (why) *why = s->kind == K_HEAP ? "use after free" : "use of dead stack object"; return nullptr; }
  return s->o;
}
static const Obj* checkAcc(uint64_t addr, uint64_t n, bool write, bool raise = true) {
  string why; const Obj* o = findObj(addr, &why); if (o) { uint64_t off = (uint64_t)a_off(addr) - OFFBASE; if (a_off(addr) < OFFBASE || off + n > o->size) { why = write ? "out-of-bounds write" : "out-of-bounds read"; o = nullptr; } else if (o->kind == K_FUNC) { why = "access to function"; o = nullptr; } else if (write && o->ro) { why = "write to read-only memory"; o = nullptr; } }
  if (!o && raise) errorOut("memory", why); return o;
}
static Expr* rdByteE(uint32_t id, uint32_t off) { // symbolic read of byte
  const Obj* o = S->mem.slot(id)->o; if (!o->in.empty() && !o->in[off]) { unsigned k = S->in.size(); Expr* v = mkVar(k, 8, true); S->in.push_back({"uninit", 8, v, 0, 'u'}); Obj* w = S->mem.wobj(id); if (w->s.empty()) w->s.assign(w->size, nullptr); w->s[off] = v; w->in[off] = 1; return v; }
  if (!o->s.empty() && o->s[off]) return o->s[off]; return mkConst(o->d[off], 8);
}
static Val rdObj(uint32_t id, uint32_t off, unsigned bytes, unsigned w) {
  const Obj* o = S->mem.slot(id)->o; bool conc = true;
  if (!o->in.empty()) for (unsigned i = 0; i < bytes; i++) if (!o->in[off + i]) { conc = false; break; }
  if (conc && !o->s.empty()) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc) { uint64_t v = 0; memcpy(&v, &o->d[off], bytes); return VC(v & maskw(w)); }
  Expr* e = nullptr; for (unsigned i = 0; i < bytes; i++) { Expr* b = rdByteE(id, off + i); e = e ? mkConcat(b, e) : b; }
  if (w < e->w) e = mkExtract(e, 0, w); return norm(e);
}
static void wrObj(uint32_t id, uint32_t off, unsigned bytes, Val v, unsigned w) {
  Obj* o = S->mem.wobj(id); if (!o->in.empty()) for (unsigned i = 0; i < bytes; i++) o->in[off + i] = 1;
  if (!v.e) { memcpy(&o->d[off], &v.c, bytes); if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr; return; }
  Expr* e = v.e; if (e->w < bytes * 8) e = mkZExt(e, bytes * 8); if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (unsigned i = 0; i < bytes; i++) { Expr* b = mkExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = b->val; o->s[off + i] = nullptr; } else o->s[off + i] = b; } (void)w;
}
// symbolic address: make sure the access stays in one object; returns base-relative info
static uint64_t resolveAddr(Val& a, uint64_t n, bool write, const Obj*& o) {
  uint64_t x = a.e ? evalExpr(a.e, S->model) : a.c; o = checkAcc(x, n, write); if (!a.e) return x;
  Val nv = norm(a.e); if (!nv.e) { a = nv; return nv.c; }
  uint64_t base = x - (a_off(x) - OFFBASE); Expr* off = mkBin(O_SUB, a.e, mkConst(base, 64)); Expr* inb = mkBin(O_ULE, off, mkConst(o->size - n, 64));
  Model m = S->model; int r = query(mkNot(inb), m);
  if (r == 1) { State* q = forkState(); std::swap(S, q); addC(mkNot(inb)); S->model = m; std::swap(S, q); addC(inb); }
  return x;
}
static Val memLoad(Val a, unsigned bytes, unsigned w) {
  const Obj* o; uint64_t x = resolveAddr(a, bytes, false, o);
  if (a.e && o->size <= 1100) {
    uint32_t id = a_id(x); uint64_t base = x - (a_off(x) - OFFBASE); Expr* off = mkBin(O_SUB, a.e, mkConst(base, 64)); unsigned step = 1; uint32_t o0 = (x - base) % bytes;
    if (bytes > 1) { Model m = S->model; if (query(mkNot(mkBin(O_EQ, mkBin(O_AND, off, mkConst(bytes - 1, 64)), mkConst(o0, 64))), m) == 0) step = bytes; else o0 = 0; }
    uint32_t size = o->size; vector<std::pair<uint64_t, Expr*>> vals; bool hasUninit = false; if (!o->in.empty()) for (auto b : o->in) if (!b) hasUninit = true;
    if (!hasUninit) {
      for (uint32_t k = o0; k + bytes <= size; k += step) { Val v = rdObj(id, k, bytes, w); vals.push_back({k, X(v, w)}); }
      // build from the most common value as default
      std::unordered_map<Expr*, int> cnt; Expr* best = nullptr; for (auto& p : vals) if (!best || ++cnt[p.second] > cnt[best]) best = p.second;
      std::unordered_map<Expr*, Expr*> cond; vector<Expr*> ord; size_t i = 0;
      while (i < vals.size()) { size_t j = i; while (j + 1 < vals.size() && vals[j + 1].second == vals[i].second) j++; if (vals[i].second != best) { Expr* c; if (i == j) c = mkBin(O_EQ, off, mkConst(vals[i].first, 64)); else c = mkBin(O_AND, mkBin(O_ULE, mkConst(vals[i].first, 64), off), mkBin(O_ULE, off, mkConst(vals[j].first, 64))); auto it = cond.find(vals[i].second); if (it == cond.end()) { cond[vals[i].second] = c; ord.push_back(vals[i].second); } else it->second = mkBin(O_OR, it->second, c); } i = j + 1; }
      Expr* r = best; for (auto v : ord) r = mkIte(cond[v], v, r); return norm(r);
    }
  }
  if (a.e) { x = concretize(a, 64, "load address"); checkAcc(x, bytes, false); }
  return rdObj(a_id(x), a_off(x) - OFFBASE, bytes, w);
}
static void memStore(Val a, Val v, unsigned bytes, unsigned w) {
  const Obj* o; uint64_t x = resolveAddr(a, bytes, true, o); if (a.e) { x = concretize(a, 64, "store address"); checkAcc(x, bytes, true); }
  wrObj(a_id(x), a_off(x) - OFFBASE, bytes, v, w);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; checkAcc(s, n, false); checkAcc(d, n, true); uint32_t si = a_id(s), di = a_id(d), so = a_off(s) - OFFBASE, dof = a_off(d) - OFFBASE; Obj* D = S->mem.wobj(di); const Obj* O = S->mem.slot(si)->o;
  vector<uint8_t> tb(O->d.begin() + so, O->d.begin() + so + n); vector<uint8_t> ti; if (!O->in.empty()) ti.assign(O->in.begin() + so, O->in.begin() + so + n); vector<Expr*> ts; if (!O->s.empty()) ts.assign(O->s.begin() + so, O->s.begin() + so + n);
  bool anyUn = false; for (auto b : ti) if (!b) anyUn = true; if (anyUn && D->in.empty()) D->in.assign(D->size, 1);
  memcpy(&D->d[dof], tb.data(), n); if (!D->in.empty()) for (uint64_t i = 0; i < n; i++) D->in[dof + i] = ti.empty() ? 1 : ti[i];
  bool anyS = false; for (auto e : ts) if (e) anyS = true; if (anyS && D->s.empty()) D->s.assign(D->size, nullptr); if (!D->s.empty()) for (uint64_t i = 0; i < n; i++) D->s[dof + i] = anyS ? ts[i] : nullptr;
}
static string readCStr(uint64_t a) { string r; for (int i = 0; i < 4096; i++) { const Obj* o = checkAcc(a + i, 1, false); (void)o; Val v = rdObj(a_id(a + i), a_off(a + i) - OFFBASE, 1, 8); uint64_t c = v.e ? evalExpr(v.e, S->model) : v.c; if (!c) break; r += (char)c; } return r; }

// ---------------------------------------------------------------- constants
static unsigned typeW(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static uint64_t constVal(const Constant* C);
static uint64_t gepConst(const GEPOperator* G) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "non-const gep\n"); _exit(3); } return constVal(cast<Constant>(G->getPointerOperand())) + off.getSExtValue(); }
static uint64_t globalAddr(const GlobalValue* g) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; if (auto* A = dyn_cast<GlobalAlias>(g)) return constVal(A->getAliasee()); fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); return 0x0ULL; }
static uint64_t constVal(const Constant* C) {
  if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) { return I->getValue().trunc(64).getZExtValue(); } return I->getZExtValue(); }
  if (auto* F = dyn_cast<ConstantFP>(C)) { if (!F->getType()->isFloatTy() && !F->getType()->isDoubleTy()) return 0; return F->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto* G = dyn_cast<GlobalValue>(C)) return globalAddr(G);
  if (auto* E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(E));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(E->getOperand(0));
      case Instruction::Trunc: return constVal(E->getOperand(0)) & maskw(typeW(E->getType()));
      case Instruction::Add: return constVal(E->getOperand(0)) + constVal(E->getOperand(1)); case Instruction::Sub: return constVal(E->getOperand(0)) - constVal(E->getOperand(1));
      default: break; } }
  string s; raw_string_ostream o(s); C->print(o); fprintf(stderr, "unsupported constant %s\n", s.c_str()); _exit(3);
}
static Val constAgg(const Constant* C) { // register aggregate
  auto* v = new vector<Val>(); unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
  for (unsigned i = 0; i < n; i++) { Constant* e = C->getAggregateElement(i); v->push_back(e->getType()->isAggregateType() ? constAgg(e) : VC(constVal(e))); } return VC((uint64_t)v);
}
static void initMem(Obj* o, uint64_t off, const Constant* C) {
  Type* t = C->getType(); if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = DL->getTypeAllocSize(D->getElementType()); for (unsigned i = 0; i < D->getNumElements(); i++) { uint64_t v = constVal(D->getElementAsConstant(i)); memcpy(&o->d[off + i * es], &v, es); } return; }
  if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initMem(o, off + i * es, A->getOperand(i)); return; }
  if (auto* A = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(A->getType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initMem(o, off + L->getElementOffset(i), A->getOperand(i)); return; }
  uint64_t n = DL->getTypeStoreSize(t), v = constVal(C); if (n > 8) { return; } memcpy(&o->d[off], &v, n);
}

// ---------------------------------------------------------------- compilation
enum { B_NONE = 0, B_MALLOC, B_CALLOC, B_FREE, B_REALLOC, B_MEMCPY, B_MEMSET, B_STRCMP, B_STRNCMP, B_MEMCMP, B_STRCASECMP, B_STRNCASECMP, B_ABORT, B_ASSERTFAIL, B_EXIT,
  B_VPIN, B_FPCLASS, B_ASSUME, B_CHECK, B_REACH, B_OBSERVE, B_CHOOSE, B_CONC, B_PARAM, B_HEAPLIVE, B_SPAWN, B_SWITCH, B_SELF, B_FMTD, B_NOUNINIT, B_ISSYM, B_ERROR, B_VASTART, B_VAEND, B_VACOPY, B_NOP, B_EXPECT, B_OVF, B_BSWAP, B_CTLZ, B_CTTZ, B_CTPOP, B_ABS, B_MINMAX, B_FABS, B_TRAP, B_STACKSAVE, B_OBJSIZE, B_TLS, B_DEBUG, B_ISVALID, B_FSHL, B_INCOMPLETE, B_ENDPATH, B_UNKNOWN };
static const map<string, int> builtins = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_REALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
  {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"memcmp", B_MEMCMP}, {"strcasecmp", B_STRCASECMP}, {"strncasecmp", B_STRNCASECMP}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT},
  {"vp_input", B_VPIN}, {"vp_assume", B_ASSUME}, {"vp_check_", B_CHECK}, {"vp_reach", B_REACH}, {"vp_observe", B_OBSERVE}, {"vp_choose", B_CHOOSE}, {"vp_concretize", B_CONC}, {"vp_param", B_PARAM}, {"vp_heap_live", B_HEAPLIVE},
  {"vp_thread_spawn", B_SPAWN}, {"vp_thread_switch", B_SWITCH}, {"vp_thread_self", B_SELF}, {"vp_fmt_double", B_FMTD}, {"vp_no_uninit", B_NOUNINIT}, {"vp_is_symbolic", B_ISSYM}, {"vp_error", B_ERROR}, {"vp_debug", B_DEBUG}, {"vp_valid_", B_ISVALID}, {"vp_incomplete", B_INCOMPLETE}, {"vp_end_path", B_ENDPATH} };
static int intrinsicBi(Function* F) {
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::vastart: return B_VASTART; case Intrinsic::vaend: return B_VAEND; case Intrinsic::vacopy: return B_VACOPY;
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::prefetch: return B_NOP;
    case Intrinsic::expect: case Intrinsic::ptr_annotation: return B_EXPECT; case Intrinsic::stacksave: return B_STACKSAVE;
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: return B_OVF;
    case Intrinsic::bswap: return B_BSWAP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::abs: return B_ABS;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: return B_MINMAX; case Intrinsic::fabs: return B_FABS; case Intrinsic::is_fpclass: return B_FPCLASS; case Intrinsic::trap: return B_TRAP; case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::threadlocal_address: return B_TLS; case Intrinsic::fshl: case Intrinsic::fshr: return B_FSHL;
    default: return B_UNKNOWN; }
}
static PF* compile(Function* F) {
  auto it = pfs.find(F); if (it != pfs.end()) return it->second; PF* p = new PF(); pfs[F] = p; p->F = F; p->calls = 0; p->repo = false;
  if (auto* sp = F->getSubprogram()) { string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; p->repo = f.compare(0, g_repo.size(), g_repo) == 0; }
  std::unordered_map<const Value*, uint32_t> reg; unsigned n = 0; for (auto& a : F->args()) reg[&a] = n++; p->nargs = n; unsigned k = 0, bi = 0;
  for (auto& B : *F) { p->bidx[&B] = bi++; p->bstart.push_back(k); for (auto& I : B) { if (!I.getType()->isVoidTy()) reg[&I] = n++; k++; } } p->nregs = n; p->code.reserve(k);
  auto op = [&](const Value* v) -> Opnd { auto r = reg.find(v); if (r != reg.end()) return {true, r->second, 0}; if (auto* c = dyn_cast<Constant>(v)) { if (c->getType()->isAggregateType()) return {false, 0, constAgg(c).c}; return {false, 0, constVal(c)}; } if (isa<MetadataAsValue>(v)) return {false, 0, 0}; if (isa<BasicBlock>(v)) return {false, 0, 0}; return {false, 0, 0}; };
  for (auto& B : *F) for (auto& I : B) {
    PI q; q.op = I.getOpcode(); q.dst = I.getType()->isVoidTy() ? -1 : (int)reg[&I]; q.w = typeW(I.getType()); q.w2 = I.getNumOperands() ? typeW(I.getOperand(0)->getType()) : 0; q.I = &I; q.goff = 0; q.callee = nullptr; q.bi = 0; q.nexec = 0; q.t0 = q.t1 = 0; q.agg = I.getType()->isAggregateType();
    switch (I.getOpcode()) {
      case Instruction::GetElementPtr: { auto* G = cast<GetElementPtrInst>(&I); q.ops.push_back(op(G->getPointerOperand()));
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value* v = gi.getOperand(); if (StructType* st = gi.getStructTypeOrNull()) q.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); else { int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(v)) q.goff += ci->getSExtValue() * sz; else { q.ops.push_back(op(v)); q.strides.push_back(sz); q.strides.push_back(typeW(v->getType())); } } } break; }
      case Instruction::Switch: q.bi = p->bidx[&B]; for (auto& o : I.operands()) q.ops.push_back(op(o.get())); break;
      case Instruction::Br: { q.bi = p->bidx[&B]; auto* b = cast<BranchInst>(&I); if (b->isConditional()) { q.ops.push_back(op(b->getCondition())); q.t0 = p->bidx[b->getSuccessor(0)]; q.t1 = p->bidx[b->getSuccessor(1)]; } else q.t0 = p->bidx[b->getSuccessor(0)]; break; }
      case Instruction::PHI: { auto* ph = cast<PHINode>(&I); for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { q.ops.push_back(op(ph->getIncomingValue(i))); q.strides.push_back(p->bidx[ph->getIncomingBlock(i)]); } break; }
      case Instruction::Call: { auto* c = cast<CallInst>(&I); for (auto& a : c->args()) q.ops.push_back(op(a.get())); Value* cv = c->getCalledOperand()->stripPointerCasts(); Function* f = dyn_cast<Function>(cv); if (!f) if (auto* ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliaseeObject());
        if (f) { q.callee = f; if (f->isIntrinsic()) { q.bi = intrinsicBi(f); if (q.bi == B_UNKNOWN) q.callee = f; } else { auto bit = builtins.find(f->getName().str()); if (bit != builtins.end()) q.bi = bit->second; else if (f->isDeclaration()) q.bi = B_UNKNOWN; } } else q.ops.push_back(op(c->getCalledOperand())); break; }
      default: for (auto& o : I.operands()) q.ops.push_back(op(o.get())); }
    p->code.push_back(std::move(q)); }
  return p;
}
static inline Val R(Frame& f, const Opnd& o) { return o.reg ? f.regs[o.r] : VC(o.c); }
static void jumpTo(Frame& f, uint32_t from, uint32_t to) {
  PF* p = f.f; uint32_t pc = p->bstart[to]; if (p->code[pc].op == Instruction::PHI) { vector<std::pair<int, Val>> tmp; while (p->code[pc].op == Instruction::PHI) { PI& q = p->code[pc]; bool ok = false; for (size_t i = 0; i < q.ops.size(); i++) if ((uint32_t)q.strides[i] == from) { tmp.push_back({q.dst, R(f, q.ops[i])}); ok = true; break; } if (!ok) abort(); pc++; } for (auto& t : tmp) f.regs[t.first] = t.second; }
  f.pc = pc;
}
static void pushFrame(Function* F, const vector<Val>& args, uint64_t va) {
  if (F->isDeclaration()) { inc("call to function without a body: " + F->getName().str()); endPath(); }
  auto& st = S->th[S->cur].st; if (st.size() > 900) errorOut("recursion", "call depth exceeds 900"); PF* p = compile(F); p->calls++; Frame fr; fr.f = p; fr.pc = 0; fr.prevb = 0; fr.regs.assign(p->nregs, VC(0)); for (unsigned i = 0; i < p->nargs && i < args.size(); i++) fr.regs[i] = args[i]; fr.va = va;
  for (unsigned i = 0; i < p->nargs; i++) if (F->hasParamAttribute(i, Attribute::ByVal)) { uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t a = allocObj(S->mem, sz, K_STACK, false); fr.allocas.push_back(a_id(a)); memCopy(a, fr.regs[i].c, sz); fr.regs[i] = VC(a); }
  st.push_back(std::move(fr)); jumpTo(st.back(), 0, 0);
}
static Val symBin(Op op, Val a, Val b, unsigned w) { return norm(mkBin(op, X(a, w), X(b, w))); }
static Val loadTyped(Val a, Type* t) {
  if (t->isStructTy()) { auto* L = DL->getStructLayout(cast<StructType>(t)); auto* v = new vector<Val>(); for (unsigned i = 0; i < t->getStructNumElements(); i++) v->push_back(loadTyped(VC(a.c + L->getElementOffset(i)), t->getStructElementType(i))); return VC((uint64_t)v); }
  if (t->isArrayTy()) { auto* v = new vector<Val>(); uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) v->push_back(loadTyped(VC(a.c + i * es), t->getArrayElementType())); return VC((uint64_t)v); }
  unsigned w = typeW(t); if (!w || w > 64) { inc("unsupported type in load"); endPath(); } return memLoad(a, DL->getTypeStoreSize(t), w);
}
static void storeTyped(Val a, Val v, Type* t) {
  if (t->isStructTy()) { auto* L = DL->getStructLayout(cast<StructType>(t)); auto* p = (vector<Val>*)v.c; for (unsigned i = 0; i < t->getStructNumElements(); i++) storeTyped(VC(a.c + L->getElementOffset(i)), (*p)[i], t->getStructElementType(i)); return; }
  if (t->isArrayTy()) { auto* p = (vector<Val>*)v.c; uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeTyped(VC(a.c + i * es), (*p)[i], t->getArrayElementType()); return; }
  unsigned w = typeW(t); if (!w || w > 64) { inc("unsupported type in store"); endPath(); } memStore(a, v, DL->getTypeStoreSize(t), w);
}
static Expr* lowerE(Expr* c) { Expr* up = mkBin(O_AND, mkBin(O_ULE, mkConst('A', 8), c), mkBin(O_ULE, c, mkConst('Z', 8))); return mkIte(up, mkBin(O_ADD, c, mkConst(32, 8)), c); }
static Val doStrcmp(uint64_t a, uint64_t b, uint64_t n, bool nul, bool fold) {
  // summarised comparison: nested if-then-else over the byte pairs; an access past an object is reported if it is reachable
  vector<Expr*> A, Bv; Expr* reachC = mkConst(1, 1);
  for (uint64_t i = 0; i < n; i++) {
    for (int side = 0; side < 2; side++) { uint64_t x = (side ? b : a) + i; const Obj* o = checkAcc(x, 1, false, false); if (!o) { Val rv = norm(reachC); bool r = rv.e ? decide(rv.e) : rv.c; if (r) checkAcc(x, 1, false); goto done; } }
    { Expr* ca = X(rdObj(a_id(a + i), a_off(a + i) - OFFBASE, 1, 8), 8); Expr* cb = X(rdObj(a_id(b + i), a_off(b + i) - OFFBASE, 1, 8), 8); if (fold) { ca = lowerE(ca); cb = lowerE(cb); } A.push_back(ca); Bv.push_back(cb);
      Expr* cont = mkBin(O_EQ, ca, cb); if (nul) cont = mkBin(O_AND, cont, mkNot(mkBin(O_EQ, ca, mkConst(0, 8)))); Val cv = norm(cont); cont = X(cv, 1); if (isC(cont) && !cont->val) break; reachC = mkBin(O_AND, reachC, cont); }
  }
done:
  Expr* r = mkConst(0, 32);
  for (int i = (int)A.size() - 1; i >= 0; i--) { Expr* eq = mkBin(O_EQ, A[i], Bv[i]); Expr* diff = mkIte(mkBin(O_ULT, A[i], Bv[i]), mkConst(0xFFFFFFFF, 32), mkConst(1, 32)); Expr* same = r; if (nul) same = mkIte(mkBin(O_EQ, A[i], mkConst(0, 8)), mkConst(0, 32), r); r = mkIte(eq, same, diff); }
  return norm(r);
}
static void ret(Frame& f, PI& q, Val v) { if (q.dst >= 0) f.regs[q.dst] = v; }
static uint64_t heapAlloc(uint64_t n, bool zero) { if (n > (8u << 20)) return 0; S->heapLive++; return allocObj(S->mem, n, K_HEAP, zero); }
static void heapFree(uint64_t a) {
  if (!a) return; const Slot* s = S->mem.slot(a_id(a)); if (a < 0x1000000 || !s || s->state == 0) errorOut("memory", "free of wild pointer"); if (s->kind != K_HEAP) errorOut("memory", "free of non-heap memory"); if (s->state == 2) errorOut("memory", "double free"); if (a_off(a) != OFFBASE) errorOut("memory", "free of interior pointer"); killObj(S->mem, a_id(a), false); S->heapLive--; }
static Val newInput(const string& name, unsigned w) { unsigned k = S->in.size(); Expr* v = mkVar(k, w, false); S->in.push_back({name, w, v, 0, 'i'}); if (S->model.size() <= v->val) S->model.resize(v->val + 1, 0); S->model[v->val] = 0; return {0, v}; }

// execute one builtin; returns true if the frame must not advance (control moved)
static bool doBuiltin(Frame& f, PI& q) {
  auto A = [&](int i) { return R(f, q.ops[i]); }; auto AC = [&](int i, const char* why) { return concretize(R(f, q.ops[i]), 64, why); };
  switch (q.bi) {
    case B_NOP: case B_VAEND: return false;
    case B_MALLOC: { uint64_t n = AC(0, "malloc size"); ret(f, q, VC(heapAlloc(n, false))); return false; }
    case B_CALLOC: { uint64_t n = AC(0, "calloc"), m = AC(1, "calloc"); if (m && n > (8u << 20) / m) { ret(f, q, VC(0)); return false; } ret(f, q, VC(heapAlloc(n * m, true))); return false; }
    case B_FREE: { uint64_t a = AC(0, "free"); heapFree(a); return false; }
    case B_REALLOC: { uint64_t a = AC(0, "realloc"), n = AC(1, "realloc size"); uint64_t nn = heapAlloc(n, false); if (nn && a) { const Obj* o = findObj(a); if (!o || a_off(a) != OFFBASE || o->kind != K_HEAP) errorOut("memory", "realloc of invalid pointer"); memCopy(nn, a, std::min<uint64_t>(o->size, n)); heapFree(a); } ret(f, q, VC(nn)); return false; }
    case B_MEMCPY: { Val d = A(0), s = A(1), n = A(2); 
      if (n.e) { Val nv = norm(n.e); n = nv; }
      if (n.e) { // can the length run past either object?
        uint64_t dd = concretize(d, 64, "memcpy dst"), ss = concretize(s, 64, "memcpy src"); uint64_t lim = ~0ULL; for (uint64_t x : {dd, ss}) { const Obj* o = findObj(x); uint64_t rem = 0; if (o && a_off(x) >= OFFBASE && a_off(x) - OFFBASE <= o->size) rem = o->size - (a_off(x) - OFFBASE); lim = std::min(lim, rem); }
        if (!decide(mkBin(O_ULE, X(n, 64), mkConst(lim, 64)))) { errorOut("memory", "memory copy runs past the object"); } }
      uint64_t nn = concretize(n, 64, "memcpy length"), dd = concretize(d, 64, "memcpy dst"), ss = concretize(s, 64, "memcpy src"); memCopy(dd, ss, nn); ret(f, q, d); return false; }
    case B_MEMSET: { Val d = A(0), c = A(1), n = A(2); if (n.e) n = norm(n.e); if (n.e) { uint64_t x = concretize(d, 64, "memset dst"); const Obj* o = findObj(x); uint64_t rem = 0; if (o && a_off(x) >= OFFBASE && a_off(x) - OFFBASE <= o->size) rem = o->size - (a_off(x) - OFFBASE); if (!decide(mkBin(O_ULE, X(n, 64), mkConst(rem, 64)))) errorOut("memory", "memset runs past the object"); }
      uint64_t dd = concretize(d, 64, "memset dst"), nn = concretize(n, 64, "memset length"); Val cb = c.e ? norm(mkExtract(c.e, 0, 8)) : VC(c.c & 0xFF); if (nn) { checkAcc(dd, nn, true); for (uint64_t i = 0; i < nn; i++) wrObj(a_id(dd), a_off(dd) - OFFBASE + i, 1, cb, 8); } ret(f, q, VC(dd)); return false; }
    case B_STRCMP: { uint64_t a = AC(0, "strcmp"), b = AC(1, "strcmp"); ret(f, q, doStrcmp(a, b, 1 << 20, true, false)); return false; }
    case B_STRNCMP: { uint64_t a = AC(0, "strncmp"), b = AC(1, "strncmp"), n = AC(2, "strncmp n"); ret(f, q, doStrcmp(a, b, n, true, false)); return false; }
    case B_MEMCMP: { uint64_t a = AC(0, "memcmp"), b = AC(1, "memcmp"), n = AC(2, "memcmp n"); ret(f, q, doStrcmp(a, b, n, false, false)); return false; }
    case B_STRCASECMP: { uint64_t a = AC(0, "strcmp"), b = AC(1, "strcmp"); ret(f, q, doStrcmp(a, b, 1 << 20, true, true)); return false; }
    case B_STRNCASECMP: { uint64_t a = AC(0, "strncmp"), b = AC(1, "strncmp"), n = AC(2, "strncmp n"); ret(f, q, doStrcmp(a, b, n, true, true)); return false; }
    case B_ABORT: case B_TRAP: errorOut("abort", "abort() called");
    case B_ASSERTFAIL: errorOut("assert", "assertion failed: " + readCStr(AC(0, "assert")));
    case B_EXIT: errorOut("exit", "process exit called");
    case B_ERROR: errorOut("check", readCStr(AC(0, "error")));
    case B_INCOMPLETE: inc(readCStr(AC(0, "inc"))); endPath(); return false;
    case B_ENDPATH: throw PathEnd();
    case B_VPIN: { uint64_t nm = AC(0, "name"); unsigned bits = AC(1, "bits"); Val v = newInput(readCStr(nm), bits); ret(f, q, norm(mkZExt(v.e, 64))); return false; }
    case B_CHOOSE: { uint64_t n = AC(0, "choose"); uint64_t nm = AC(1, "name"); unsigned k = S->in.size(); string name = readCStr(nm);
      // forks all alternatives; each is an enumerated symbolic choice
      S->in.push_back({name, 32, nullptr, 0, 'c'}); for (uint64_t i = n; i-- > 1;) { State* c = forkState(); c->in[k].c = i; Frame& cf = c->th[c->cur].st.back(); if (q.dst >= 0) cf.regs[q.dst] = VC(i); cf.pc++; } ret(f, q, VC(0)); return false; }
    case B_CONC: { uint64_t v = concretize(A(0), 64, "vp_concretize"); ret(f, q, VC(v)); return false; }
    case B_ASSUME: { Val c = A(0); if (c.e) c = norm(c.e); if (c.e) { Expr* b = mkNot(mkBin(O_EQ, c.e, mkConst(0, c.e->w))); Val nb = norm(b); if (!nb.e) { if (!nb.c) { n_pruned++; S->didCheck = false; throw 1; } return false; } b = nb.e; if (!evalExpr(b, S->model)) { Model m = S->model; int r = query(b, m); if (r != 1) { n_pruned++; throw 1; } S->model = m; } addC(b); } else if (!(c.c)) { n_pruned++; throw 1; } return false; }
    case B_CHECK: { string lab = readCStr(AC(1, "label")); if (!checksSeen[lab]++ ) {} Val c = A(0); if (c.e) c = norm(c.e); if (c.e) { Expr* b = mkNot(mkBin(O_EQ, c.e, mkConst(0, c.e->w))); Val nb = norm(b); bool t = nb.e ? decide(nb.e) : nb.c; if (!t) errorOut("check", lab); } else if (!(c.c & 0xFFFFFFFF)) errorOut("check", lab); return false; }
    case B_REACH: { string lab = readCStr(AC(0, "label")); S->reach.push_back(lab); reachSeen[lab]++; return false; }
    case B_OBSERVE: { S->obs.push_back({A(0), 64}); return false; }
    case B_PARAM: { string n = readCStr(AC(0, "param")); uint64_t def = AC(1, "param"); auto it = params.find(n); ret(f, q, VC(it == params.end() ? def : strtoull(it->second.c_str(), 0, 0))); return false; }
    case B_HEAPLIVE: ret(f, q, VC(S->heapLive)); return false;
    case B_NOUNINIT: S->nouninit = AC(0, "x") != 0; return false;
    case B_ISSYM: { Val v = A(0); if (v.e) v = norm(v.e); ret(f, q, VC(v.e != nullptr)); return false; }
    case B_ISVALID: { uint64_t a = AC(0, "valid"), n = AC(1, "valid"); ret(f, q, VC(checkAcc(a, n, false, false) != nullptr)); return false; }
    case B_DEBUG: { string s = readCStr(AC(0, "dbg")); Val v = A(1); fprintf(stderr, "[vp_debug] %s %s\n", s.c_str(), v.e ? exprStr(v.e, 600).c_str() : std::to_string(v.c).c_str()); return false; }
    case B_SPAWN: { uint64_t fn = AC(0, "fn"); Val arg = A(1); auto it = funcOfId.find(a_id(fn)); if (it == funcOfId.end()) errorOut("memory", "thread entry is not a function"); int me = S->cur; f.pc++; ret(f, q, VC(S->th.size())); S->th.push_back({}); S->cur = S->th.size() - 1; pushFrame(it->second, {arg}, 0); S->cur = me; return true; }
    case B_SWITCH: { uint64_t t = AC(0, "tid"); if (t >= S->th.size()) errorOut("check", "switch to bad thread"); f.pc++; S->cur = t; return true; }
    case B_SELF: ret(f, q, VC(S->cur)); return false;
    case B_FMTD: { // vp_fmt_double(buf, cap, fmt, width, prec, double) -> length
      uint64_t buf = AC(0, "fmt"), cap = AC(1, "fmt"); string fm = readCStr(AC(2, "fmt")); int wd = (int)AC(3, "fmt"), pr = (int)AC(4, "fmt"); Val dv = A(5); if (dv.e) dv = norm(dv.e); if (dv.e) { inc("formatting of a symbolic floating-point value"); dv = VC(evalExpr(dv.e, S->model)); } double d; memcpy(&d, &dv.c, 8); char tmp[512]; int n; if (wd >= 0 && pr >= 0) n = snprintf(tmp, 512, fm.c_str(), wd, pr, d); else if (wd >= 0) n = snprintf(tmp, 512, fm.c_str(), wd, d); else if (pr >= 0) n = snprintf(tmp, 512, fm.c_str(), pr, d); else n = snprintf(tmp, 512, fm.c_str(), d);
      for (int i = 0; i <= n && i < (int)cap; i++) memStore(VC(buf + i), VC((uint8_t)tmp[i]), 1, 8); ret(f, q, VC(n)); return false; }
    case B_VASTART: { uint64_t l = AC(0, "va"); memStore(VC(l), VC(48), 4, 32); memStore(VC(l + 4), VC(304), 4, 32); memStore(VC(l + 8), VC(f.va), 8, 64); memStore(VC(l + 16), VC(0), 8, 64); return false; }
    case B_VACOPY: { uint64_t d = AC(0, "va"), s = AC(1, "va"); memCopy(d, s, 24); return false; }
    case B_EXPECT: ret(f, q, A(0)); return false; case B_TLS: ret(f, q, A(0)); return false; case B_STACKSAVE: ret(f, q, VC(0)); return false;
    case B_OBJSIZE: ret(f, q, VC(~0ULL & maskw(q.w))); return false;
    case B_OVF: { unsigned w = q.w2; Val a = A(0), b = A(1); auto id = cast<IntrinsicInst>(q.I)->getIntrinsicID(); if (w > 32 && (a.e || b.e) && (id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow)) { inc("symbolic 64-bit multiplication overflow test"); endPath(); }
      auto* v = new vector<Val>(); if (!a.e && !b.e) { bool o = false; uint64_t r = 0; int64_t sr; uint64_t ur; if (w == 64) switch (id) { case Intrinsic::sadd_with_overflow: o = __builtin_add_overflow((int64_t)a.c, (int64_t)b.c, &sr); r = sr; break; case Intrinsic::ssub_with_overflow: o = __builtin_sub_overflow((int64_t)a.c, (int64_t)b.c, &sr); r = sr; break; case Intrinsic::smul_with_overflow: o = __builtin_mul_overflow((int64_t)a.c, (int64_t)b.c, &sr); r = sr; break; case Intrinsic::uadd_with_overflow: o = __builtin_add_overflow(a.c, b.c, &ur); r = ur; break; case Intrinsic::usub_with_overflow: o = __builtin_sub_overflow(a.c, b.c, &ur); r = ur; break; default: o = __builtin_mul_overflow(a.c, b.c, &ur); r = ur; }
        else { bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; __int128 x = sg ? (__int128)sx(a.c, w) : (__int128)a.c, y = sg ? (__int128)sx(b.c, w) : (__int128)b.c, z; if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) z = x + y; else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) z = x - y; else z = x * y; r = (uint64_t)z & maskw(w); o = sg ? (__int128)sx(r, w) != z : (__int128)r != z; }
        v->push_back(VC(r)); v->push_back(VC(o)); }
      else { unsigned W = std::min(64u, 2 * w); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; if (w == 64) { inc("symbolic 64-bit overflow intrinsic"); endPath(); } Expr* x = sg ? mkSExt(X(a, w), W) : mkZExt(X(a, w), W); Expr* y = sg ? mkSExt(X(b, w), W) : mkZExt(X(b, w), W); Op o = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? O_ADD : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? O_SUB : O_MUL; Expr* z = mkBin(o, x, y); Expr* r = mkExtract(z, 0, w); Expr* bk = sg ? mkSExt(r, W) : mkZExt(r, W); v->push_back(norm(r)); v->push_back(norm(mkNot(mkBin(O_EQ, bk, z)))); }
      ret(f, q, VC((uint64_t)v)); return false; }
    case B_BSWAP: { Val a = A(0); unsigned w = q.w; if (!a.e) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a.c >> (8 * i)) & 0xFF) << (w - 8 - 8 * i); ret(f, q, VC(r)); } else { Expr* e = mkExtract(a.e, 0, 8); for (unsigned i = 1; i < w / 8; i++) e = mkConcat(e, mkExtract(a.e, 8 * i, 8)); ret(f, q, norm(e)); } return false; }
    case B_ABS: { Val a = A(0); unsigned w = q.w; if (!a.e) ret(f, q, VC((uint64_t)(sx(a.c, w) < 0 ? -sx(a.c, w) : sx(a.c, w)) & maskw(w))); else ret(f, q, norm(mkIte(mkBin(O_SLT, a.e, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), a.e), a.e))); return false; }
    case B_MINMAX: { Val a = A(0), b = A(1); unsigned w = q.w; auto id = cast<IntrinsicInst>(q.I)->getIntrinsicID(); Expr* x = X(a, w); Expr* y = X(b, w); Expr* lt = mkBin(id == Intrinsic::smax || id == Intrinsic::smin ? O_SLT : O_ULT, x, y); bool mn = id == Intrinsic::smin || id == Intrinsic::umin; ret(f, q, norm(mn ? mkIte(lt, x, y) : mkIte(lt, y, x))); return false; }
    case B_FABS: { Val a = A(0); ret(f, q, norm(mkBin(O_AND, X(a, q.w), mkConst(maskw(q.w) >> 1, q.w)))); return false; }
    case B_CTPOP: case B_CTLZ: case B_CTTZ: { uint64_t x = concretize(A(0), q.w, "bit count"); uint64_t r = q.bi == B_CTPOP ? __builtin_popcountll(x) : q.bi == B_CTLZ ? (x ? __builtin_clzll(x) - (64 - q.w) : q.w) : (x ? __builtin_ctzll(x) : q.w); ret(f, q, VC(r)); return false; }
    case B_FSHL: { auto id = cast<IntrinsicInst>(q.I)->getIntrinsicID(); unsigned w = q.w; uint64_t s = concretize(A(2), w, "fsh") % w; Expr* hi = X(A(0), w); Expr* lo = X(A(1), w); if (id == Intrinsic::fshr) s = s ? w - s : w; if (s == 0) ret(f, q, norm(hi)); else if (s == w) ret(f, q, norm(lo)); else ret(f, q, norm(mkBin(O_OR, mkBin(O_SHL, hi, mkConst(s, w)), mkBin(O_LSHR, lo, mkConst(w - s, w))))); return false; }
    case B_FPCLASS: { unsigned w = cast<CallBase>(q.I)->getArgOperand(0)->getType()->getScalarSizeInBits(); uint64_t m = A(1).c; Expr* x = X(A(0), w); unsigned mb = w == 64 ? 52 : 23, eb = w - 1 - mb;
      Expr* man = mkExtract(x, 0, mb); Expr* ex = mkExtract(x, mb, eb); Expr* sg = mkExtract(x, w - 1, 1); Expr* e1 = mkBin(O_EQ, ex, mkConst(maskw(eb), eb)); Expr* e0 = mkBin(O_EQ, ex, mkConst(0, eb)); Expr* m0 = mkBin(O_EQ, man, mkConst(0, mb)); Expr* quiet = mkExtract(man, mb - 1, 1);
      auto AN = [](Expr* a, Expr* b) { return mkBin(O_AND, a, b); }; Expr* nan = AN(e1, mkNot(m0)); Expr* cls[10] = {AN(nan, mkNot(quiet)), AN(nan, quiet), AN(AN(e1, m0), sg), AN(AN(mkNot(e1), mkNot(e0)), sg), AN(AN(e0, mkNot(m0)), sg), AN(AN(e0, m0), sg), AN(AN(e0, m0), mkNot(sg)), AN(AN(e0, mkNot(m0)), mkNot(sg)), AN(AN(mkNot(e1), mkNot(e0)), mkNot(sg)), AN(AN(e1, m0), mkNot(sg))};
      Expr* r = mkConst(0, 1); if ((m & 3) == 3) { r = nan; m &= ~3ULL; } for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkBin(O_OR, r, cls[i]); ret(f, q, norm(r)); return false; }
    default: inc("call to unmodelled function: " + (q.callee ? q.callee->getName().str() : string("?"))); endPath(); }
  return false;
}
static void pathDone() {
  n_paths++;
  if (n_samples < g_maxsamples && (n_paths < 8 || (n_paths % 37) == 0)) { // record a test vector with the observations predicted by the encoding
    string o = "["; for (size_t i = 0; i < S->obs.size(); i++) { uint64_t v = S->obs[i].v.e ? evalExpr(S->obs[i].v.e, S->model) : S->obs[i].v.c; o += (i ? "," : "") + std::to_string(v); } o += "]";
    bool un = false; for (auto& ob : S->obs) if (ob.v.e && ob.v.e->uninit) un = true;
    if (!un) { g_samples += (n_samples ? ",\n  " : "") + string("{\"inputs\":") + inputsJson(S) + ",\"obs\":" + o + ",\"steps\":" + std::to_string(S->steps) + "}"; n_samples++; } }
}
static void step();
static void runState() {
  try { for (;;) { if (((++S->steps) & 0xFFF) == 0) { if (now() > g_budget) { inc("time budget"); throw PathEnd(); } if (S->steps > g_maxsteps) errorOut("hang", "path exceeds the step limit"); } step(); } }
  catch (PathEnd&) {} catch (int code) { (void)code; }
  n_steps += S->steps;
}
static void step() {
  Thread& T = S->th[S->cur]; Frame& f = T.st.back(); PI& q = f.f->code[f.pc]; q.nexec++;
#define OP(i) R(f, q.ops[i])
#define SETV(v) do { f.regs[q.dst] = (v); f.pc++; } while (0)
  switch (q.op) {
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(q.I); uint64_t n = concretize(OP(0), 64, "alloca"); uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType()) * n; if (sz > (8u << 20)) errorOut("memory", "stack allocation too large"); uint64_t x = allocObj(S->mem, sz, K_STACK, false); f.allocas.push_back(a_id(x)); SETV(VC(x)); return; }
    case Instruction::Load: { Val v; if (!q.agg && q.w) { Val a = OP(0); unsigned by = (q.w + 7) / 8; if (!a.e) { checkAcc(a.c, by, false); v = rdObj(a_id(a.c), a_off(a.c) - OFFBASE, by, q.w); } else v = memLoad(a, by, q.w); } else v = loadTyped(OP(0), q.I->getType()); SETV(v); return; }
    case Instruction::Store: { Type* t = cast<StoreInst>(q.I)->getValueOperand()->getType(); storeTyped(OP(1), OP(0), t); f.pc++; return; }
    case Instruction::GetElementPtr: { Val b = OP(0); b = b.e ? norm(mkBin(O_ADD, b.e, mkConst(q.goff, 64))) : VC(b.c + q.goff);
      for (size_t i = 1; i < q.ops.size(); i++) { Val x = OP(i); int64_t st = q.strides[2 * (i - 1)]; unsigned w = q.strides[2 * (i - 1) + 1]; if (!x.e && !b.e) b.c += sx(x.c, w) * st; else b = norm(mkBin(O_ADD, X(b, 64), mkBin(O_MUL, mkSExt(X(x, w), 64), mkConst(st, 64)))); } SETV(b); return; }
    case Instruction::Br: { uint32_t cb = q.bi; if (q.ops.empty()) { jumpTo(f, cb, q.t0); return; } Val c = OP(0); bool b = c.e ? decide(c.e) : (c.c & 1); jumpTo(f, cb, b ? q.t0 : q.t1); return; }
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(q.I); uint32_t cb = q.bi; Val c = OP(0); if (c.e) c = norm(c.e);
      if (!c.e) { auto it = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c)); jumpTo(f, cb, f.f->bidx[it->getCaseSuccessor()]); return; }
      unsigned w = q.w2; uint64_t v = evalExpr(c.e, S->model); auto it = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v)); const BasicBlock* tb = it->getCaseSuccessor(); Expr* cond = nullptr;
      if (tb == sw->getDefaultDest()) { cond = mkConst(1, 1); for (auto& cs : sw->cases()) if (cs.getCaseSuccessor() != tb) cond = mkBin(O_AND, cond, mkNot(mkBin(O_EQ, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w)))); }
      else { cond = mkConst(0, 1); for (auto& cs : sw->cases()) if (cs.getCaseSuccessor() == tb) cond = mkBin(O_OR, cond, mkBin(O_EQ, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w))); }
      bool t = decide(cond); if (!t) { fprintf(stderr, "switch inconsistency\n"); abort(); } jumpTo(f, cb, f.f->bidx[tb]); return; }
    case Instruction::Ret: { Val v = q.ops.empty() ? VC(0) : OP(0); for (auto it = f.allocas.rbegin(); it != f.allocas.rend(); ++it) killObj(S->mem, *it, true); T.st.pop_back(); if (T.st.empty()) { T.done = true; if (S->cur == 0) { pathDone(); throw PathEnd(); } errorOut("check", "thread entry returned"); }
      Frame& g = T.st.back(); PI& cq = g.f->code[g.pc]; if (cq.dst >= 0) g.regs[cq.dst] = v; g.pc++; return; }
    case Instruction::Unreachable: errorOut("abort", "unreachable code executed");
    case Instruction::Call: {
      if (q.bi && (q.callee->isDeclaration() || q.bi < B_UNKNOWN)) { if (!doBuiltin(f, q)) f.pc++; return; }
      Function* F = q.callee; unsigned na = q.ops.size(); auto* ci = cast<CallInst>(q.I); if (ci->isInlineAsm()) { f.pc++; return; }
      if (!F) { na--; uint64_t a = concretize(OP(na), 64, "call target"); auto it = funcOfId.find(a_id(a)); if (a < 0x1000000 || it == funcOfId.end() || a_off(a) != OFFBASE) errorOut("memory", a < 0x1000 ? "call through null function pointer" : "call through wild function pointer"); F = it->second;
        auto bit = builtins.find(F->getName().str()); if (bit != builtins.end()) { PI q2 = q; q2.callee = F; q2.bi = bit->second; q2.ops.pop_back(); if (!doBuiltin(f, q2)) f.pc++; return; } }
      vector<Val> args; for (unsigned i = 0; i < na; i++) args.push_back(OP(i)); uint64_t va = 0;
      if (F->isVarArg() && !F->isDeclaration()) { unsigned fx = F->arg_size(); uint64_t sz = 0; vector<std::pair<uint64_t, unsigned>> pos; for (unsigned i = fx; i < na; i++) { Type* t = ci->getArgOperand(i)->getType(); uint64_t n = DL->getTypeAllocSize(t); if (n < 8) n = 8; if (ci->isByValArgument(i)) n = DL->getTypeAllocSize(ci->getParamByValType(i)); sz = (sz + 7) & ~7ULL; pos.push_back({sz, i}); sz += n; } va = allocObj(S->mem, sz ? sz : 8, K_STACK, true); for (auto& p : pos) { Type* t = ci->getArgOperand(p.second)->getType(); if (ci->isByValArgument(p.second)) memCopy(va + p.first, args[p.second].c, DL->getTypeAllocSize(ci->getParamByValType(p.second))); else storeTyped(VC(va + p.first), args[p.second], t); } args.resize(fx); }
      pushFrame(F, args, va); if (va) S->th[S->cur].st.back().allocas.push_back(a_id(va)); return; }
    case Instruction::ICmp: { Val a = OP(0), b = OP(1); unsigned w = q.w2; auto p = cast<ICmpInst>(q.I)->getPredicate(); 
      if (!a.e && !b.e) { uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sa = sx(x, w), sb = sx(y, w); bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; default: abort(); } SETV(VC(r)); return; }
      Expr *x = X(a, w), *y = X(b, w), *r; switch (p) { case CmpInst::ICMP_EQ: r = mkBin(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(O_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(O_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(O_ULE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(O_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(O_SLT, x, y); break; default: r = mkBin(O_SLE, x, y); break; } SETV(norm(r)); return; }
    case Instruction::FCmp: { Val a = OP(0), b = OP(1); unsigned w = q.w2; Expr *x = X(a, w), *y = X(b, w); auto p = cast<FCmpInst>(q.I)->getPredicate(); Expr* uno = mkBin(O_OR, mkFUn(O_FISNAN, x, 1), mkFUn(O_FISNAN, y, 1)); Expr* r;
      switch (p) { case CmpInst::FCMP_OEQ: r = mkBin(O_FEQ, x, y); break; case CmpInst::FCMP_UNE: r = mkNot(mkBin(O_FEQ, x, y)); break; case CmpInst::FCMP_OLT: r = mkBin(O_FLT, x, y); break; case CmpInst::FCMP_OGT: r = mkBin(O_FLT, y, x); break; case CmpInst::FCMP_OLE: r = mkBin(O_FLE, x, y); break; case CmpInst::FCMP_OGE: r = mkBin(O_FLE, y, x); break; case CmpInst::FCMP_ONE: r = mkBin(O_OR, mkBin(O_FLT, x, y), mkBin(O_FLT, y, x)); break; case CmpInst::FCMP_UEQ: r = mkBin(O_OR, uno, mkBin(O_FEQ, x, y)); break; case CmpInst::FCMP_ULT: r = mkBin(O_OR, uno, mkBin(O_FLT, x, y)); break; case CmpInst::FCMP_UGT: r = mkBin(O_OR, uno, mkBin(O_FLT, y, x)); break; case CmpInst::FCMP_ULE: r = mkBin(O_OR, uno, mkBin(O_FLE, x, y)); break; case CmpInst::FCMP_UGE: r = mkBin(O_OR, uno, mkBin(O_FLE, y, x)); break; case CmpInst::FCMP_UNO: r = uno; break; case CmpInst::FCMP_ORD: r = mkNot(uno); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break; default: r = mkConst(0, 1); } SETV(norm(r)); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Val a = OP(0), b = OP(1); unsigned w = q.w; if (!w || w > 64) { inc("unsupported arithmetic type"); endPath(); } Op op; switch (q.op) { case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break; case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break; case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break; case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break; case Instruction::SRem: op = O_SREM; break; case Instruction::FAdd: op = O_FADD; break; case Instruction::FSub: op = O_FSUB; break; case Instruction::FMul: op = O_FMUL; break; default: op = O_FDIV; }
      if (op >= O_UDIV && op <= O_SREM) { if (b.e) { Val nb = norm(b.e); b = nb; } if (b.e) { if (decide(mkBin(O_EQ, b.e, mkConst(0, w)))) errorOut("arith", "division by zero"); } else if (!(b.c & maskw(w))) errorOut("arith", "division by zero"); }
      if (!a.e && !b.e) { bool ok; SETV(VC(foldBin(op, a.c, b.c, w, ok) & maskw(w))); } else SETV(symBin(op, a, b, w)); return; }
    case Instruction::FNeg: { Val a = OP(0); SETV(norm(mkBin(O_XOR, X(a, q.w), mkConst(1ULL << (q.w - 1), q.w)))); return; }
    case Instruction::FRem: { inc("frem"); endPath(); return; }
    case Instruction::Trunc: { Val a = OP(0); SETV(a.e ? norm(mkExtract(a.e, 0, q.w)) : VC(a.c & maskw(q.w))); return; }
    case Instruction::ZExt: { Val a = OP(0); SETV(a.e ? norm(mkZExt(a.e, q.w)) : VC(a.c & maskw(q.w2))); return; }
    case Instruction::SExt: { Val a = OP(0); SETV(a.e ? norm(mkSExt(a.e, q.w)) : VC((uint64_t)sx(a.c, q.w2) & maskw(q.w))); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = OP(0); if (a.e) SETV(norm(q.w < q.w2 ? mkExtract(a.e, 0, q.w) : mkZExt(a.e, q.w))); else SETV(VC(a.c & maskw(q.w))); return; }
    case Instruction::BitCast: case Instruction::Freeze: SETV(OP(0)); return;
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: { Val a = OP(0); if (!q.w || !q.w2) { inc("long double"); endPath(); } Op op = q.op == Instruction::FPToSI ? O_FPTOSI : q.op == Instruction::FPToUI ? O_FPTOUI : q.op == Instruction::SIToFP ? O_SITOFP : q.op == Instruction::UIToFP ? O_UITOFP : q.op == Instruction::FPExt ? O_FPEXT : O_FPTRUNC; SETV(norm(mkFUn(op, X(a, q.w2), q.w))); return; }
    case Instruction::Select: { Val c = OP(0); if (!c.e) { SETV((c.c & 1) ? OP(1) : OP(2)); return; } if (q.agg) { bool b = decide(c.e); SETV(b ? OP(1) : OP(2)); return; } SETV(norm(mkIte(c.e, X(OP(1), q.w), X(OP(2), q.w)))); return; }
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(q.I); Val a = OP(0); for (unsigned i : ev->indices()) a = (*(vector<Val>*)a.c)[i]; SETV(a); return; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(q.I); Val a = OP(0), v = OP(1); auto* n = new vector<Val>(*(vector<Val>*)a.c); if (iv->getNumIndices() == 1) (*n)[iv->getIndices()[0]] = v; else { inc("nested insertvalue"); endPath(); } SETV(VC((uint64_t)n)); return; }
    case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(q.I); Val p = OP(0), v = OP(1); unsigned w = q.w; Val old = memLoad(p, w / 8, w); Expr *o = X(old, w), *x = X(v, w), *n; switch (a->getOperation()) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = mkBin(O_ADD, o, x); break; case AtomicRMWInst::Sub: n = mkBin(O_SUB, o, x); break; case AtomicRMWInst::And: n = mkBin(O_AND, o, x); break; case AtomicRMWInst::Or: n = mkBin(O_OR, o, x); break; case AtomicRMWInst::Xor: n = mkBin(O_XOR, o, x); break; default: inc("atomicrmw op"); endPath(); n = nullptr; } memStore(p, norm(n), w / 8, w); SETV(old); return; }
    case Instruction::AtomicCmpXchg: { Val p = OP(0); unsigned w = typeW(cast<AtomicCmpXchgInst>(q.I)->getCompareOperand()->getType()); Val old = memLoad(p, w / 8, w); Expr* eq = mkBin(O_EQ, X(old, w), X(OP(1), w)); Val ev = norm(eq); bool b = ev.e ? decide(ev.e) : ev.c; if (b) memStore(p, OP(2), w / 8, w); auto* n = new vector<Val>{old, VC(b)}; SETV(VC((uint64_t)n)); return; }
    case Instruction::Fence: f.pc++; return;
    default: inc(string("unsupported instruction ") + q.I->getOpcodeName()); endPath();
  }
}
#include "instrument.h"
int main(int argc, char** argv) {
  string in, out = "/dev/stdout", entry = "main"; T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "--instrument") return instrumentMain(argc, argv); if (a == "--out") out = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--budget") g_budget = atof(argv[++i]); else if (a == "--maxsteps") g_maxsteps = strtoull(argv[++i], 0, 0); else if (a == "--concmax") g_concmax = atoi(argv[++i]); else if (a == "--repo") g_repo = argv[++i]; else if (a == "--maxerr") g_maxerr = atoi(argv[++i]); else if (a == "--qtimeout") g_query_timeout_ms = atoi(argv[++i]); else if (a == "--samples") g_maxsamples = atoi(argv[++i]); else if (a == "--mem") g_memMB = atoi(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--param") { string p = argv[++i]; size_t e = p.find('='); params[p.substr(0, e)] = p.substr(e + 1); } else in = a; }
  LLVMContext C; SMDiagnostic D; auto mod = parseIRFile(in, D, C); if (!mod) { D.print("vpse", llvm::errs()); return 3; } M = mod.get(); DL = &M->getDataLayout();
  S = new State(); S->th.push_back({}); 
  for (auto& F : *M) { if (F.isIntrinsic()) continue; uint64_t a = allocObj(S->mem, 1, K_FUNC, true); gaddr[&F] = a; funcOfId[a_id(a)] = &F; }
  for (auto& G : M->globals()) { uint64_t sz = DL->getTypeAllocSize(G.getValueType()); uint64_t a = allocObj(S->mem, sz, K_GLOBAL, true); gaddr[&G] = a; }
  for (auto& G : M->globals()) { if (!G.hasInitializer()) { if (G.getName() != "stdout" && G.getName() != "stderr" && G.getName() != "stdin" && !G.getName().starts_with("llvm.")) inc("external global " + G.getName().str()); continue; } Obj* o = S->mem.wobj(a_id(gaddr[&G])); initMem(o, 0, G.getInitializer()); if (G.isConstant()) o->ro = true; }
  Function* mainF = M->getFunction(entry); if (!mainF) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  pushFrame(mainF, {VC(0), VC(0)}, 0); work.push_back(S); size_t maxq = 0;
  while (!work.empty()) { maxq = std::max(maxq, work.size()); S = work.back(); work.pop_back(); runState(); delete S; if (now() > g_budget) { if (!work.empty()) inc("time budget"); break; } if (g_errs.size() >= g_maxerr) { inc("error limit"); break; }
    if ((n_forks & 0x3FF) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((size_t)ru.ru_maxrss / 1024 > g_memMB) { inc("memory limit"); break; } } }
  if (getenv("VP_PROF")) { vector<std::pair<uint64_t, string>> v; for (auto& p : pfs) { uint64_t n = 0; for (auto& q : p.second->code) n += q.nexec; v.push_back({n, p.first->getName().str()}); } std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < 25 && i < v.size(); i++) fprintf(stderr, "%12lu %s\n", v[i].first, v[i].second.c_str()); }
  FILE* o = fopen(out.c_str(), "w"); fprintf(o, "{\"paths\":%lu,\"pruned\":%lu,\"forks\":%lu,\"steps\":%lu,\"errors\":%lu,\"wall\":%.3f,\"queries\":%lu,\"z3calls\":%lu,\"cachehits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_time\":%.3f,\"states\":%lu,\n", n_paths, n_pruned, n_forks, n_steps, n_errs, now(), g_ss.queries, g_ss.z3calls, g_ss.cachehits, g_ss.sat, g_ss.unsat, g_ss.unknown, g_ss.time, n_forks + 1);
  fprintf(o, "\"incomplete\":["); bool first = true; for (auto& s : incomplete) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; } fprintf(o, "],\n\"checks\":{"); first = true; for (auto& p : checksSeen) { fprintf(o, "%s%s:%lu", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; } fprintf(o, "},\n\"reach\":{"); first = true; for (auto& p : reachSeen) { fprintf(o, "%s%s:%lu", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
  fprintf(o, "},\n\"functions\":{"); first = true; for (auto& p : pfs) if (p.second->repo && p.second->calls) { uint64_t n = 0, t = 0; for (auto& q : p.second->code) { t++; if (q.nexec) n++; } fprintf(o, "%s%s:[%lu,%lu,%lu]", first ? "" : ",", jstr(p.first->getName().str()).c_str(), p.second->calls, n, t); first = false; }
  fprintf(o, "},\n\"errs\":["); first = true; for (auto& e : g_errs) { fprintf(o, "%s\n {\"kind\":%s,\"label\":%s,\"func\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":%s}", first ? "" : ",", jstr(e.kind).c_str(), jstr(e.label).c_str(), jstr(e.func).c_str(), jstr(e.loc).c_str(), jstr(e.stack).c_str(), e.inputs.c_str()); first = false; }
  fprintf(o, "],\n\"samples\":[%s]}\n", g_samples.c_str()); fclose(o); fflush(0); _exit(0);
}
