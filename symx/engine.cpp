// symx: symbolic executor for LLVM IR (bounded C++ harnesses). See /verif/DESIGN.md.
#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cmath>
#include <sstream>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

using namespace llvm;
using std::string;
using std::vector;

static LLVMContext* Ctx; static Module* M; static const DataLayout* DL;
struct PathEnd { int why; };                 // path is over
struct Restart {};                           // re-execute the current instruction
struct Unsupported { string what; };

// ------------------------------------------------------------------ global configuration and results
static struct { double timeLimit = 600; u64 maxSteps = 200000000, maxPaths = 200000; unsigned seed = 1, nsamples = 3, maxViol = 4; bool trace = false; u64 pathSteps = 400000000; unsigned maxEnum = 4096; } Cfg;
static std::chrono::steady_clock::time_point gStart;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count(); }

struct InVal { string name; unsigned w; u64 v; int arr = -1; u64 len = 0; vector<std::pair<u64, uint8_t>> bytes; };
struct ViolRec { string kind, msg, where; vector<string> trace; vector<InVal> in; u64 undefs = 0; };
struct SampleRec { vector<InVal> in; vector<std::pair<string, u64>> obs; bool undefObs = false; };
struct HRes {
  string name; u64 paths = 0, infeasible = 0, steps = 0, forks = 0, symBranches = 0, checks = 0, symChecks = 0, enums = 0; u64 maxDepth = 0;
  std::map<string, u64> covers; std::set<string> incomplete; vector<ViolRec> viol; std::set<string> violKeys; vector<SampleRec> samples; u64 violPaths = 0;
  std::set<string> assumes; double wall = 0; u64 syms = 0; u64 q0 = 0; double t0 = 0;
};
static HRes* R;

static vector<std::unique_ptr<State>> work;
static State* S;
static std::unordered_map<Type*, TInfo*> tinfos;
static std::unordered_map<const Function*, FInfo*> finfos;
static std::unordered_map<uint32_t, FInfo*> funcById;
static std::unordered_map<const GlobalValue*, uint32_t> gvId;
static std::unordered_map<string, int> builtinIdx;
typedef Val (*BFn)(Ins& I, vector<Val>& a);
static vector<BFn> builtins;
static vector<string> builtinNames;
static FInfo* fiThrowBadAlloc = nullptr;

// ------------------------------------------------------------------ types
static TInfo* tinfo(Type* t) {
  auto it = tinfos.find(t);
  if (it != tinfos.end()) return it->second;
  TInfo* x = new TInfo(); tinfos[t] = x;
  if (t->isVoidTy()) { x->k = TK::Void; return x; }
  if (t->isIntegerTy()) { x->k = TK::Int; x->w = t->getIntegerBitWidth(); }
  else if (t->isPointerTy()) { x->k = TK::Ptr; x->w = 64; }
  else if (t->isFloatingPointTy()) { x->k = TK::FP; x->w = t->getPrimitiveSizeInBits(); }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { x->k = TK::Vec; x->n = v->getNumElements(); x->el.push_back(tinfo(v->getElementType())); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { x->k = TK::Array; x->n = a->getNumElements(); x->el.push_back(tinfo(a->getElementType())); }
  else if (auto* s = dyn_cast<StructType>(t)) {
    x->k = TK::Struct; x->n = s->getNumElements();
    if (s->isOpaque()) { x->k = TK::Other; return x; }
    auto* sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < x->n; i++) { x->el.push_back(tinfo(s->getElementType(i))); x->off.push_back(sl->getElementOffset(i)); }
  } else { x->k = TK::Other; return x; }
  x->store = DL->getTypeStoreSize(t); x->alloc = DL->getTypeAllocSize(t);
  return x;
}
static TInfo* elT(TInfo* t, unsigned i) { return t->k == TK::Struct ? t->el[i] : t->el[0]; }
static u64 elOff(TInfo* t, unsigned i) { return t->k == TK::Struct ? t->off[i] : (t->k == TK::Vec ? t->el[0]->store : t->el[0]->alloc) * i; }

static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (e->op == Op::Const && e->w <= 64) return Val((u64)e->c); return Val(e); }
static inline u64 trunc64(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline Agg* A(const Val& v) { return (Agg*)v.c; }
static Val newAgg(vector<Val> v) { Agg* a = new Agg(); a->v = std::move(v); return Val((u64)a); }
static Val zeroVal(TInfo* t) {
  if (t->agg()) { vector<Val> v; for (u64 i = 0; i < t->n; i++) v.push_back(zeroVal(elT(t, i))); return newAgg(v); }
  if (t->w > 64) return Val(mkConst(0, t->w));
  return Val((u64)0);
}

// ------------------------------------------------------------------ path condition
static u64 ev(E e) { return (u64)evalE(e, *S->model); }
static void addC(State& s, E c) {
  if (isC(c)) return;
  if (c->op == Op::And && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  for (E p : s.pc) if (p == c) return;
  s.pc.push_back(c);
  if (c->op == Op::Eq && c->k[0]->op == Op::Var && isC(c->k[1])) s.bound[(uint32_t)c->k[0]->c] = (u64)c->k[1]->c;
  else if (c->op == Op::Var) s.bound[(uint32_t)c->c] = 1;
  else if (c->op == Op::Not && c->k[0]->op == Op::Var) s.bound[(uint32_t)c->k[0]->c] = 0;
}
static bool allBound(E e) {
  if (S->bound.empty()) return false;
  for (uint32_t v : varsOf(e)) if ((v & 0x80000000u) || !S->bound.count(v)) return false;
  return true;
}
static int known(E c) {
  for (size_t i = S->pc.size(); i-- > 0;) { if (S->pc[i] == c) return 1; if (c->op == Op::Not ? S->pc[i] == c->k[0] : (S->pc[i]->op == Op::Not && S->pc[i]->k[0] == c)) return 0; }
  E n = mkNot(c);
  if (n->op != Op::Not) for (size_t i = S->pc.size(); i-- > 0;) if (S->pc[i] == n) return 0;
  return -1;
}
static void slice(const vector<E>& pc, E c, vector<E>& out) {
  std::unordered_set<uint32_t> vs(varsOf(c).begin(), varsOf(c).end());
  vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      const VarSet& v = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; out.push_back(pc[i]); for (uint32_t x : v) vs.insert(x); }
    }
  }
  out.push_back(c);
}
static void incomplete(const string& w) { R->incomplete.insert(w); }
static void checkTime() {
  if (now() > Cfg.timeLimit) { incomplete("time limit"); work.clear(); throw PathEnd{3}; }
}
// is pc /\ c satisfiable; fills m (starting from the witness)
static bool setVal(E x, u128 v, Model& m) {
  v &= maskw(x->w);
  switch (x->op) {
    case Op::Const: return x->c == v;
    case Op::Var: { uint32_t id = (uint32_t)x->c; if (x->w > 64) return false; if (m.v.size() <= id) m.v.resize(id + 1, 0); m.v[id] = (u64)v; return true; }
    case Op::Not: return setVal(x->k[0], ~v, m);
    case Op::ZExt: return v <= maskw(x->k[0]->w) && setVal(x->k[0], v, m);
    case Op::SExt: { unsigned n = x->k[0]->w; u128 lo = v & maskw(n); bool neg = (lo >> (n - 1)) & 1; u128 full = neg ? lo | (maskw(x->w) & ~maskw(n)) : lo; return full == v && setVal(x->k[0], lo, m); }
    case Op::Extract: { unsigned lo = (unsigned)x->c; u128 cur = evalE(x->k[0], m); return setVal(x->k[0], (cur & ~(maskw(x->w) << lo)) | (v << lo), m); }
    case Op::Concat: { unsigned n = x->k[1]->w; return setVal(x->k[1], v & maskw(n), m) && setVal(x->k[0], v >> n, m); }
    case Op::Add: if (isC(x->k[1])) return setVal(x->k[0], v - x->k[1]->c, m); if (isC(x->k[0])) return setVal(x->k[1], v - x->k[0]->c, m); return setVal(x->k[0], v - evalE(x->k[1], m), m);
    case Op::Xor: return setVal(x->k[0], v ^ evalE(x->k[1], m), m);
    case Op::And: if (isC(x->k[1])) { if (v & ~x->k[1]->c) return false; return setVal(x->k[0], (evalE(x->k[0], m) & ~x->k[1]->c) | v, m); } return false;
    case Op::Ite: return setVal(evalE(x->k[0], m) ? x->k[1] : x->k[2], v, m);
    default: return false;
  }
}
// adjusts the model so that c evaluates to want, without regard to the other constraints
static bool patchModel(E c, bool want, Model& m, int depth = 0) {
  if (depth > 12) return false;
  if ((bool)evalE(c, m) == want) return true;
  switch (c->op) {
    case Op::Not: return patchModel(c->k[0], !want, m, depth + 1);
    case Op::And: case Op::Or: if (c->w != 1) return false;
      if ((c->op == Op::And) == want) return patchModel(c->k[0], want, m, depth + 1) && patchModel(c->k[1], want, m, depth + 1);
      { Model t = m; if (patchModel(c->k[0], want, t, depth + 1)) { m = std::move(t); return true; } } return patchModel(c->k[1], want, m, depth + 1);
    case Op::Eq: { E a = c->k[0], b = c->k[1]; if (a->op == Op::Const) std::swap(a, b);
      u128 x = evalE(a, m), y = evalE(b, m); Model t = m;
      if (want) { if (setVal(a, y, t)) { m = std::move(t); return true; } return setVal(b, x, m); }
      if (setVal(a, x ^ 1, t)) { m = std::move(t); return true; } return setVal(b, y ^ 1, m); }
    case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: {
      E a = c->k[0], b = c->k[1]; u128 x = evalE(a, m), y = evalE(b, m); bool strict = c->op == Op::Ult || c->op == Op::Slt;
      u128 na = want ? (strict ? y - 1 : y) : (strict ? y : y + 1), nb = want ? (strict ? x + 1 : x) : (strict ? x : x - 1);
      Model t = m; if (!isC(a) && setVal(a, na, t)) { m = std::move(t); return true; } return !isC(b) && setVal(b, nb, m); }
    default: return c->w == 1 && setVal(c, want, m);
  }
}
static Sat query(E c, Model* m) {
  checkTime();
  vector<E> cs; slice(S->pc, c, cs);
  if (m) {
    *m = *S->model;
    // a model found by adjusting the current one is as good as one found by Z3
    if (patchModel(c, true, *m)) {
      bool ok = evalE(c, *m);
      for (E x : cs) if (ok && !evalE(x, *m)) ok = false;
      if (ok) { gStats.patched++; return Sat::Sat; }
    }
    *m = *S->model;
  }
  Sat r = solve(cs, m);
  if (r == Sat::Unknown) incomplete("solver unknown/timeout");
  if (r == Sat::Sat && m) {
    // defensive: the model must satisfy what was asked
    if (!evalE(c, *m)) { fprintf(stderr, "symx: internal: model does not satisfy query %s\n", exprStr(c).c_str()); incomplete("internal model mismatch"); }
  }
  return r;
}
static bool decide(E c) {
  if (isC(c)) return c->c;
  bool w = ev(c);
  if (allBound(c)) return w;
  int k = known(c);
  if (k >= 0) return k;
  R->symBranches++;
  E other = w ? mkNot(c) : c;
  Model m2;
  Sat r = query(other, &m2);
  if (r == Sat::Sat) {
    auto n = std::make_unique<State>(*S);
    addC(*n, other);
    n->model = std::make_shared<Model>(std::move(m2));
    n->forks++;
    work.push_back(std::move(n));
    R->forks++;
    addC(*S, w ? c : mkNot(c));
  }
  return w;
}
static u64 concretize(E e) {
  if (isC(e)) return (u64)e->c;
  u64 v = ev(e);
  if (allBound(e)) return v;
  R->enums++;
  if (!decide(mkEq(e, mkConst(v, e->w)))) throw Unsupported{"concretize inconsistency"};
  return v;
}
static u64 conc(const Val& v) { return v.e ? concretize(v.e) : v.c; }
static int tri(E c) { // 1 must, 0 must not, -1 either
  if (isC(c)) return c->c ? 1 : 0;
  bool w = ev(c);
  if (allBound(c)) return w;
  int k = known(c); if (k >= 0) return k;
  Sat r = query(w ? mkNot(c) : c, nullptr);
  if (r == Sat::Unsat) return w;
  return -1;
}

// ------------------------------------------------------------------ violations
static string locOf(const Instruction* I) {
  if (!I) return "?";
  if (const DILocation* d = I->getDebugLoc()) return (d->getFilename() + ":" + Twine(d->getLine())).str();
  return ("in " + I->getFunction()->getName()).str();
}
static vector<string> backtrace() {
  vector<string> r;
  for (size_t i = S->st.size(); i-- > 0 && r.size() < 24;) {
    Frame& f = S->st[i];
    if (f.pc >= f.bb->ins.size()) continue;
    Instruction* I = f.bb->ins[f.pc].I;
    const DILocation* d = I->getDebugLoc();
    if (!d) { r.push_back(demangle(f.f->f->getName().str())); continue; }
    for (; d && r.size() < 24; d = d->getInlinedAt()) {
      string fn = "?";
      if (auto* sp = d->getScope()->getSubprogram()) fn = demangle((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str());
      if (fn.size() > 160) fn = fn.substr(0, 157) + "...";
      r.push_back((fn + " at " + d->getFilename() + ":" + Twine(d->getLine())).str());
    }
  }
  return r;
}
static vector<InVal> inputsOf(State& s, const Model& m) {
  vector<InVal> r;
  for (auto& y : s.syms) {
    InVal v; v.name = y.name; v.w = y.w;
    if (y.arr >= 0) {
      v.arr = y.arr; v.len = (u64)evalE(y.len, m); v.v = 0;
      for (auto& p : m.arr) if ((int)p.first.first == y.arr && p.second) v.bytes.push_back({p.first.second, p.second});
    } else v.v = (u64)evalE(y.e, m);
    r.push_back(std::move(v));
  }
  return r;
}
static Model shrink(E bad, Model m) {
  // prefer small values for inputs named size:*
  vector<E> extra;
  size_t n0 = S->pc.size();
  for (auto& y : S->syms) if (y.arr < 0 && y.name.rfind("size:", 0) == 0 && !isC(y.e)) {
    static const u64 lim[] = {8, 64, 4096, 1ull << 17, 1ull << 21, 1ull << 32, (1ull << 32) + 4096};
    for (u64 l : lim) {
      if (y.w < 64 && (l >> y.w)) break;
      E c = mkUle(y.e, mkConst(l, y.w));
      Model m2; 
      E q = bad ? mkAnd(bad, c) : c;
      if (query(q, &m2) == Sat::Sat) { m = m2; S->pc.push_back(c); break; }
    }
  }
  S->pc.resize(n0);
  return m;
}
static void violation(const string& kind, const string& msg, E bad, const Model* m) {
  Ins& I = S->st.back().bb->ins[S->st.back().pc];
  vector<string> bt = backtrace();
  string where = locOf(I.I);
  string key = kind + "|" + msg + "|" + (kind == "assertion" ? "" : (bt.empty() ? where : bt[0]));
  R->violPaths++;
  if (R->violKeys.count(key) || R->viol.size() >= Cfg.maxViol) { R->violKeys.insert(key); return; }
  R->violKeys.insert(key);
  ViolRec v; v.kind = kind; v.msg = msg; v.where = where; v.trace = bt;
  Model mm = shrink(bad, m ? *m : *S->model);
  v.in = inputsOf(*S, mm);
  if (bad) for (uint32_t x : varsOf(bad)) if (!(x & 0x80000000u) && gVars[x].undef) v.undefs++;
  R->viol.push_back(std::move(v));
  if (Cfg.trace) fprintf(stderr, "VIOL %s %s @ %s\n", kind.c_str(), msg.c_str(), where.c_str());
}
[[noreturn]] static void fail(const string& kind, const string& msg) { violation(kind, msg, nullptr, nullptr); throw PathEnd{2}; }
static void requireT(E c, const string& kind, const string& msg) {
  if (isC(c)) { if (c->c) return; fail(kind, msg); }
  bool w = ev(c);
  if (w && allBound(c)) return;
  if (known(c) == 1) return;
  R->symChecks++;
  if (!w) {
    violation(kind, msg, mkNot(c), nullptr);
    Model m2; Sat r = query(c, &m2);
    if (r != Sat::Sat) throw PathEnd{2};
    addC(*S, c); S->model = std::make_shared<Model>(std::move(m2)); return;
  }
  Model m2; Sat r = query(mkNot(c), &m2);
  if (r == Sat::Sat) { violation(kind, msg, mkNot(c), &m2); addC(*S, c); }
}

// ------------------------------------------------------------------ memory
static uint32_t newObj(State& s, OK kind, u64 size, bool undef, const char* name, AllocKind ak = AK_None) {
  Obj* o = new Obj(); o->kind = kind; o->size = size; o->ak = ak; o->name = name;
  o->b.assign(size, 0); o->st.assign(size, undef ? 1 : 0);
  return s.mem.add(o);
}
static uint32_t newLogObj(State& s, OK kind, E size, const char* name, AllocKind ak) {
  Obj* o = new Obj(); o->kind = kind; o->log = true; o->sizeE = size; o->ak = ak; o->name = name;
  return s.mem.add(o);
}
static E sizeOf(Obj* o) { return o->log ? o->sizeE : mkConst(o->size, 64); }
static const char* kindName(OK k) { switch (k) { case OK::Global: return "global"; case OK::Const: return "constant"; case OK::Stack: return "stack"; case OK::Heap: return "heap"; case OK::Exc: return "exception"; case OK::Func: return "function"; case OK::Map: return "mapping"; default: return "external"; } }
static string objDesc(Obj* o) { return string(kindName(o->kind)) + " object" + (o->name[0] ? string(" ") + o->name : "") + " of size " + (o->log ? "<symbolic>" : std::to_string(o->size)); }

struct Loc { uint32_t id; Obj* o; u64 off; E offE; };
static E inB(Obj* o, E off, E n) { // off + n <= size without overflow
  E sz = sizeOf(o);
  return mkAnd(mkUle(n, sz), mkUle(off, mkSub(sz, n)));
}
static void badPtr(u64 a, const char* what) {
  uint32_t id = a >> SLOT;
  Obj* o = S->mem.get(id);
  if (a < 4096) fail("memory", string("null pointer ") + what);
  if (!o) fail("memory", string("wild pointer ") + what);
  if (!o->alive) fail("memory", string("use after ") + (o->kind == OK::Stack ? "return" : "free") + " (" + what + ")");
  if (o->kind == OK::Func) fail("memory", string(what) + " of code");
  fail("memory", string("out-of-bounds ") + what);
}
static Loc resolve(const Val& a, u64 n, bool write) {
  const char* what = write ? "write" : "read";
  if (!a.e) {
    uint32_t id = a.c >> SLOT;
    Obj* o = S->mem.get(id);
    if (!o || !o->alive || o->kind == OK::Func) badPtr(a.c, what);
    u64 off = (a.c & ((1ull << SLOT) - 1)) - BASE0;
    if (!o->log) { if (off > o->size || n > o->size - off) badPtr(a.c, what); }
    else requireT(inB(o, mkConst(off, 64), mkConst(n, 64)), "memory", string("out-of-bounds ") + what);
    if (write && o->kind == OK::Const) fail("memory", "write to constant");
    return {id, o, off, nullptr};
  }
  u64 v = ev(a.e);
  uint32_t id = v >> SLOT;
  Obj* o = S->mem.get(id);
  if (o && o->alive && o->kind != OK::Func) {
    E off = mkSub(a.e, mkConst(baseOf(id), 64));
    E c = inB(o, off, mkConst(n, 64));
    if (ev(c)) {
      decide(c); // forks the other targets away
      if (o->log) return {id, o, 0, isC(off) ? nullptr : off};
      u64 ov = concretize(off);
      if (write && o->kind == OK::Const) fail("memory", "write to constant");
      return {id, o, ov, nullptr};
    }
  }
  badPtr(v, what);
  abort();
}
static Loc resolveRange(const Val& a, const Val& len, bool write) { // len possibly symbolic, non-zero or zero
  if (!len.e) return resolve(a, len.c, write);
  const char* what = write ? "write" : "read";
  u64 v = a.e ? ev(a.e) : a.c;
  uint32_t id = v >> SLOT; Obj* o = S->mem.get(id);
  if (!o || !o->alive || o->kind == OK::Func) {
    // only all right if the length is zero
    requireT(mkEq(len.e, mkConst(0, 64)), "memory", string("invalid pointer range ") + what);
    return {0, nullptr, 0, nullptr};
  }
  E off = a.e ? mkSub(a.e, mkConst(baseOf(id), 64)) : mkConst((a.c & ((1ull << SLOT) - 1)) - BASE0, 64);
  requireT(mkOr(mkEq(len.e, mkConst(0, 64)), inB(o, off, len.e)), "memory", string("out-of-bounds range ") + what);
  if (isC(off)) return {id, o, (u64)off->c, nullptr};
  return {id, o, 0, off};
}
static E locOff(const Loc& l) { return l.offE ? l.offE : mkConst(l.off, 64); }

static void ensureSym(Obj* o) { if (o->sym.size() != o->size) o->sym.resize(o->size, SymCell{nullptr, 0}); }
static E flatByte(Obj* o, u64 i) {
  if (o->st[i] == 0) return mkConst(o->b[i], 8);
  if (o->st[i] == 2) return mkExtract(o->sym[i].e, o->sym[i].byte * 8, 8);
  return nullptr;
}
static unsigned long gUndef = 0;
static void materialize(uint32_t id, u64 off, u64 n) {
  Obj* o = S->mem.get(id);
  bool any = false;
  for (u64 i = 0; i < n; i++) if (o->st[off + i] == 1) { any = true; break; }
  if (!any) return;
  o = S->mem.getW(id); ensureSym(o);
  for (u64 i = 0; i < n; i++) if (o->st[off + i] == 1) {
    o->sym[off + i] = {mkVar("undef" + std::to_string(gUndef++), 8, true), 0}; o->st[off + i] = 2;
  }
}
static E readLogByte(Obj* o, E off, size_t upto, int depth);
static E readByteAny(Obj* o, E off, int depth) {
  if (depth > 60) throw Unsupported{"log read too deep"};
  if (o->log) return readLogByte(o, off, o->log_.size(), depth);
  if (!isC(off)) {
    // flat object at a symbolic offset: table of its bytes (small objects), else enumerate
    if (o->size <= 64) {
      E r = mkConst(0, 8);
      for (u64 i = o->size; i-- > 0;) { E b = flatByte(o, i); if (!b) b = mkConst(0, 8); r = mkIte(mkEq(off, mkConst(i, 64)), b, r); }
      return r;
    }
    return readByteAny(o, mkConst(concretize(off), 64), depth);
  }
  u64 i = (u64)off->c;
  if (i >= o->size) return mkConst(0, 8);
  E b = flatByte(o, i);
  if (!b) return mkVar("undef" + std::to_string(gUndef++), 8, true);
  return b;
}
static E readLogByte(Obj* o, E off, size_t upto, int depth) {
  for (size_t k = upto; k-- > 0;) {
    Upd& u = o->log_[k];
    E rel = mkSub(off, u.off);
    E c = mkUlt(rel, u.len);
    int t = tri(c);
    if (t == 0) continue;
    E v;
    switch (u.k) {
      case Upd::Store: {
        unsigned nb = u.val->w / 8;
        if (nb == 1) v = u.val;
        else if (isC(rel)) v = mkExtract(u.val, (unsigned)((u64)rel->c % nb) * 8, 8);
        else { v = mkExtract(u.val, 0, 8); for (unsigned i = 1; i < nb; i++) v = mkIte(mkEq(rel, mkConst(i, 64)), mkExtract(u.val, i * 8, 8), v); }
        break;
      }
      case Upd::Set: v = u.val; break;
      case Upd::Arr: v = mkReadArr(u.arr, rel); break;
      case Upd::Copy: v = readByteAny(u.src.p, mkAdd(u.val, rel), depth + 1); break;
    }
    if (t == 1) return v;
    return mkIte(c, v, readLogByte(o, off, k, depth + 1));
  }
  if (o->baseZero) return mkConst(0, 8);
  if (o->undefArr < 0) { o->undefArr = (int)mkArr("undefarr"); }
  return mkReadArr(o->undefArr, off);
}
static E readBytes(const Loc& l, u64 n) { // little endian
  if (!l.o->log) materialize(l.id, l.off, n);
  Obj* o = S->mem.get(l.id);
  E r = nullptr;
  if (!o->log) {
    if (o->st[l.off] == 2) { // whole-value fast path
      SymCell& c0 = o->sym[l.off];
      bool ok = c0.byte + n <= c0.e->w / 8u;
      for (u64 i = 1; ok && i < n; i++) ok = o->st[l.off + i] == 2 && o->sym[l.off + i].e == c0.e && o->sym[l.off + i].byte == c0.byte + i;
      if (ok) return mkExtract(c0.e, c0.byte * 8, n * 8);
    }
    for (u64 i = 0; i < n; i++) { E b = flatByte(o, l.off + i); r = r ? mkConcat(b, r) : b; }
    return r;
  }
  E off = locOff(l);
  if (!o->log_.empty()) { Upd& u = o->log_.back(); if (u.k == Upd::Store && u.off == off && u.val->w == n * 8) return u.val; }
  for (u64 i = 0; i < n; i++) { E b = readByteAny(o, mkAdd(off, mkConst(i, 64)), 0); r = r ? mkConcat(b, r) : b; }
  return r;
}
static void writeE(const Loc& l, E v) {
  u64 n = v->w / 8;
  Obj* o = S->mem.getW(l.id);
  if (o->log) { o->log_.push_back(Upd{Upd::Store, locOff(l), mkConst(n, 64), v, Ref<Obj>(), 0}); return; }
  if (isC(v)) { u128 x = v->c; for (u64 i = 0; i < n; i++) { o->b[l.off + i] = (uint8_t)x; o->st[l.off + i] = 0; x >>= 8; } return; }
  ensureSym(o);
  for (u64 i = 0; i < n; i++) {
    E b = mkExtract(v, i * 8, 8);
    if (isC(b)) { o->st[l.off + i] = 0; o->b[l.off + i] = (uint8_t)b->c; }
    else { o->st[l.off + i] = 2; o->sym[l.off + i] = {v, (uint32_t)i}; }
  }
}
static bool gAtomic = false; // inside an atomic access: synchronised by itself
struct AtomicScope { bool old; AtomicScope(bool on) : old(gAtomic) { gAtomic = on; } ~AtomicScope() { gAtomic = old; } };
static void protCheck(const Loc& l, E v) { // non-interference watch
  Obj* o = l.o;
  bool watch = o->prot;
  if (S->freezeMark && !watch) watch = l.id < S->freezeMark && !o->allow && (o->kind == OK::Heap || (!S->freezeHeapOnly && !gAtomic && S->lockDepth == 0 && (o->kind == OK::Global || o->kind == OK::Ext || o->kind == OK::Map) && S->guardDepth == 0));
  if (!watch) return;
  E cur = readBytes(l, v->w / 8);
  requireT(mkEq(cur, v), "shared-write", string("operation changes ") + (o->prot ? "a protected object" : "memory that is not its own: " + string(kindName(o->kind)) + " " + o->name));
}
static Val loadVal(TInfo* t, const Val& a);
static Val loadAt(TInfo* t, const Loc& l) {
  if (t->agg()) {
    vector<Val> v;
    for (u64 i = 0; i < t->n; i++) {
      Loc m = l; u64 d = elOff(t, i);
      if (m.offE) m.offE = mkAdd(m.offE, mkConst(d, 64)); else m.off += d;
      v.push_back(loadAt(elT(t, i), m));
    }
    return newAgg(v);
  }
  u64 n = t->store;
  Obj* o = l.o;
  if (!o->log && n <= 8) {
    const uint8_t* st = &o->st[l.off];
    bool conc_ = true;
    for (u64 i = 0; i < n; i++) if (st[i]) { conc_ = false; break; }
    if (conc_) { u64 x = 0; memcpy(&x, &o->b[l.off], n); return Val(trunc64(x, t->w)); }
  }
  E e = readBytes(l, n);
  if (e->w != t->w) e = mkExtract(e, 0, t->w);
  return fromE(e);
}
static Val loadVal(TInfo* t, const Val& a) {
  if (t->store == 0) return zeroVal(t);
  Loc l = resolve(a, t->store, false);
  return loadAt(t, l);
}
static void storeAt(TInfo* t, const Loc& l, const Val& v) {
  if (t->agg()) {
    for (u64 i = 0; i < t->n; i++) {
      Loc m = l; u64 d = elOff(t, i);
      if (m.offE) m.offE = mkAdd(m.offE, mkConst(d, 64)); else m.off += d;
      m.o = S->mem.get(l.id);
      storeAt(elT(t, i), m, A(v)->v[i]);
    }
    return;
  }
  u64 n = t->store;
  if (S->freezeMark || l.o->prot) protCheck(l, v.e ? (v.e->w == n * 8 ? v.e : mkZExt(v.e, n * 8)) : mkConst(v.c, n * 8));
  if (!v.e && !l.o->log && n <= 8) {
    Obj* o = S->mem.getW(l.id);
    u64 x = v.c; memcpy(&o->b[l.off], &x, n); memset(&o->st[l.off], 0, n);
    return;
  }
  E e = v.e ? v.e : mkConst(v.c, t->w);
  if (e->w != n * 8) e = mkZExt(e, n * 8);
  writeE(l, e);
}
static void storeVal(TInfo* t, const Val& a, const Val& v) {
  if (t->store == 0) return;
  Loc l = resolve(a, t->store, true);
  storeAt(t, l, v);
}
static u64 loadU64(u64 a) { return conc(loadVal(tinfo(Type::getInt64Ty(*Ctx)), Val(a))); }
static uint32_t loadU32(u64 a) { return (uint32_t)conc(loadVal(tinfo(Type::getInt32Ty(*Ctx)), Val(a))); }

static void doMemcpy(const Val& d, const Val& s, Val len) {
  if (len.e && isC(len.e)) len = Val((u64)len.e->c);
  if (!len.e && len.c == 0) return;
  if (len.e) {
    // a flat destination or source forces enumeration of the length
    u64 dv = d.e ? ev(d.e) : d.c;
    Obj* od = S->mem.get(dv >> SLOT);
    if (od && od->alive && !od->log) { u64 k = concretize(len.e); if (k == 0) return; len = Val(k); }
  }
  Loc ls = resolveRange(s, len, false);
  Loc ld = resolveRange(d, len, true);
  if (!ls.o || !ld.o) return;
  if (!len.e && !ld.o->log && !ls.o->log) {
    u64 n = len.c;
    if (S->freezeMark || ld.o->prot) for (u64 i = 0; i < n; i++) { Loc x = ls, y = ld; x.off += i; y.off += i; x.o = S->mem.get(x.id); y.o = S->mem.get(y.id); protCheck(y, readBytes(x, 1)); }
    Ref<Obj> keep(S->mem.get(ls.id)); // snapshot (memmove semantics)
    Obj* o = S->mem.getW(ld.id); Obj* q = keep.p;
    bool hasSym = false;
    for (u64 i = 0; i < n; i++) if (q->st[ls.off + i] == 2) { hasSym = true; break; }
    memmove(&o->b[ld.off], &q->b[ls.off], n);
    memmove(&o->st[ld.off], &q->st[ls.off], n);
    if (hasSym) {
      ensureSym(o);
      if (o == q) { vector<SymCell> t(q->sym.begin() + ls.off, q->sym.begin() + ls.off + n); std::copy(t.begin(), t.end(), o->sym.begin() + ld.off); }
      else std::copy(q->sym.begin() + ls.off, q->sym.begin() + ls.off + n, o->sym.begin() + ld.off);
    }
    return;
  }
  if (!ld.o->log) { // concrete length from a log object
    vector<E> bs;
    for (u64 i = 0; i < len.c; i++) { Loc x = ls; if (x.offE) x.offE = mkAdd(x.offE, mkConst(i, 64)); else x.off += i; bs.push_back(readBytes(x, 1)); }
    for (u64 i = 0; i < len.c; i++) { Loc y = ld; y.off += i; y.o = S->mem.get(y.id); if (S->freezeMark || y.o->prot) protCheck(y, bs[i]); writeE(y, bs[i]); }
    return;
  }
  if (!len.e && len.c <= 16) { if (!ls.o->log) materialize(ls.id, ls.off, len.c); ls.o = S->mem.get(ls.id); E v = readBytes(ls, len.c); writeE(ld, v); return; }
  if (!ls.o->log) { if (!len.e) materialize(ls.id, ls.off, len.c); }
  Ref<Obj> snap(S->mem.get(ls.id));
  Obj* o = S->mem.getW(ld.id);
  o->log_.push_back(Upd{Upd::Copy, locOff(ld), toE(len, 64), locOff(ls), snap, 0});
}
static void doMemset(const Val& d, Val byte, Val len) {
  if (len.e && isC(len.e)) len = Val((u64)len.e->c);
  if (!len.e && len.c == 0) return;
  if (len.e) {
    u64 dv = d.e ? ev(d.e) : d.c; Obj* od = S->mem.get(dv >> SLOT);
    if (od && od->alive && !od->log) { u64 k = concretize(len.e); if (k == 0) return; len = Val(k); }
  }
  Loc l = resolveRange(d, len, true);
  if (!l.o) return;
  E bv = byte.e ? mkExtract(byte.e, 0, 8) : mkConst(byte.c & 255, 8);
  if (l.o->log) { Obj* o = S->mem.getW(l.id); o->log_.push_back(Upd{Upd::Set, locOff(l), toE(len, 64), bv, Ref<Obj>(), 0}); return; }
  if (S->freezeMark || l.o->prot) for (u64 i = 0; i < len.c; i++) { Loc y = l; y.off += i; y.o = S->mem.get(y.id); protCheck(y, bv); }
  Obj* o = S->mem.getW(l.id);
  if (isC(bv)) { memset(&o->b[l.off], (int)bv->c, len.c); memset(&o->st[l.off], 0, len.c); }
  else { ensureSym(o); for (u64 i = 0; i < len.c; i++) { o->st[l.off + i] = 2; o->sym[l.off + i] = {bv, 0}; } }
}
static string readCStr(u64 a) {
  string r;
  for (;;) {
    Val v = loadVal(tinfo(Type::getInt8Ty(*Ctx)), Val(a++));
    u64 c = v.e ? '?' : v.c;
    if (!c || r.size() > 300) return r;
    r += (char)c;
  }
}

// ------------------------------------------------------------------ allocation
static Val doAlloc(const Val& size, AllocKind ak, bool undef = true) {
  Val sz = size;
  if (sz.e && isC(sz.e)) sz = Val((u64)sz.e->c);
  if (sz.e && S->symSize) {
    E lim = mkUle(sz.e, mkConst(1ull << 35, 64));
    if (!decide(lim)) { if (ak == AK_Malloc) return Val((u64)0); return Val(~(u64)0); }
    S->live++;
    uint32_t id = newLogObj(*S, OK::Heap, sz.e, "", ak);
    if (!undef) S->mem.getW(id)->baseZero = true;
    return Val(baseOf(id));
  }
  u64 n = conc(sz);
  if (n > (1ull << 28)) { if (ak == AK_Malloc) return Val((u64)0); return Val(~(u64)0); }
  S->live++; S->liveBytes += n;
  return Val(baseOf(newObj(*S, OK::Heap, n, undef, "", ak)));
}
static void aligned(const Val& p, unsigned al) {
  if (p.e) return;
  Obj* o = S->mem.get(p.c >> SLOT);
  if ((p.c & (al - 1)) || (o && o->kind == OK::Heap && o->align < al)) fail("memory", "misaligned access");
}
static void doFree(const Val& p, AllocKind ak, const Val* sized, u64 al = 16) {
  u64 a = conc(p);
  if (!a) return;
  uint32_t id = a >> SLOT; Obj* o = S->mem.get(id);
  if (!o || o->kind != OK::Heap) fail("memory", string("free of a pointer that is not a heap block") + (o ? string(" (") + kindName(o->kind) + ")" : ""));
  if (!o->alive) fail("memory", "double free");
  if (a != baseOf(id)) fail("memory", "free of an interior pointer");
  if (o->ak != ak) fail("memory", "mismatched allocation and deallocation functions");
  if (o->align != al) fail("memory", "mismatched aligned and ordinary deallocation");
  if (sized) requireT(mkEq(toE(*sized, 64), sizeOf(o)), "memory", "sized deallocation with the wrong size");
  if (S->freezeMark && id < S->freezeMark && !o->allow && S->guardDepth == 0) fail("shared-write", "operation frees memory that is not its own");
  if (o->prot) fail("shared-write", "operation frees a protected object");
  o = S->mem.getW(id);
  o->alive = false; o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); o->log_.clear();
  S->live--;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant* c);
static u64 gvAddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) { Val v = constVal(a->getAliasee()); return v.c; }
  auto it = gvId.find(g);
  if (it == gvId.end()) { fprintf(stderr, "symx: unknown global %s\n", g->getName().str().c_str()); exit(98); }
  return baseOf(it->second);
}
static Val binop(unsigned opc, const Val& a, const Val& b, unsigned w);
static Val castop(unsigned opc, const Val& v, TInfo* from, TInfo* to);
static Val constVal(const Constant* c) {
  TInfo* t = tinfo(c->getType());
  if (auto* i = dyn_cast<ConstantInt>(c)) {
    if (t->w <= 64) return Val(i->getZExtValue());
    return Val(mkConst(((u128)i->getValue().extractBitsAsZExtValue(std::min(64u, t->w - 64), 64) << 64) | i->getValue().extractBitsAsZExtValue(64, 0), t->w));
  }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    APInt x = f->getValueAPF().bitcastToAPInt();
    if (t->w <= 64) return Val(x.getZExtValue());
    return Val(mkConst(((u128)x.extractBitsAsZExtValue(std::min(64u, t->w - 64), 64) << 64) | x.extractBitsAsZExtValue(64, 0), t->w));
  }
  if (isa<ConstantPointerNull>(c)) return Val((u64)0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(t);
  if (auto* g = dyn_cast<GlobalValue>(c)) return Val(gvAddr(g));
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
    vector<Val> v; for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(constVal(s->getElementAsConstant(i))); return newAgg(v);
  }
  if (isa<ConstantAggregate>(c)) {
    vector<Val> v; for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(c->getOperand(i)))); return newAgg(v);
  }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        return Val(constVal(e->getOperand(0)).c + (u64)off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
        return castop(e->getOpcode(), constVal(e->getOperand(0)), tinfo(e->getOperand(0)->getType()), t);
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        return binop(e->getOpcode(), constVal(e->getOperand(0)), constVal(e->getOperand(1)), t->w);
      case Instruction::ICmp: {
        u64 x = constVal(e->getOperand(0)).c, y = constVal(e->getOperand(1)).c;
        switch (cast<ConstantExpr>(e)->getPredicate()) { case CmpInst::ICMP_EQ: return Val((u64)(x == y)); case CmpInst::ICMP_NE: return Val((u64)(x != y)); case CmpInst::ICMP_ULT: return Val((u64)(x < y)); case CmpInst::ICMP_UGT: return Val((u64)(x > y)); default: break; }
        break;
      }
      default: break;
    }
    throw Unsupported{string("constant expression ") + e->getOpcodeName()};
  }
  string s; raw_string_ostream os(s); c->print(os);
  throw Unsupported{"constant " + s};
}

// ------------------------------------------------------------------ scalar operations
static double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static float asF(u64 b) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; }
static u64 fromD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u64 fromF(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static Val binop(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c;
    auto sxx = [&](u64 v) -> int64_t { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (opc) {
      case Instruction::Add: return Val(trunc64(x + y, w));
      case Instruction::Sub: return Val(trunc64(x - y, w));
      case Instruction::Mul: return Val(trunc64(x * y, w));
      case Instruction::And: return Val(x & y);
      case Instruction::Or: return Val(x | y);
      case Instruction::Xor: return Val(x ^ y);
      case Instruction::Shl: return Val(y >= w ? 0 : trunc64(x << y, w));
      case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
      case Instruction::AShr: return Val(trunc64((u64)(sxx(x) >> (y >= w ? w - 1 : y)), w));
      case Instruction::UDiv: if (!y) fail("arithmetic", "division by zero"); return Val(x / y);
      case Instruction::URem: if (!y) fail("arithmetic", "division by zero"); return Val(x % y);
      case Instruction::SDiv: if (!y) fail("arithmetic", "division by zero"); if (sxx(y) == -1) return Val(trunc64((u64)-x, w)); return Val(trunc64((u64)(sxx(x) / sxx(y)), w));
      case Instruction::SRem: if (!y) fail("arithmetic", "division by zero"); if (sxx(y) == -1) return Val((u64)0); return Val(trunc64((u64)(sxx(x) % sxx(y)), w));
    }
  }
  E p = toE(a, w), q = toE(b, w);
  Op o;
  switch (opc) {
    case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break;
    case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break;
    case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break;
    case Instruction::UDiv: o = Op::UDiv; break; case Instruction::URem: o = Op::URem; break; case Instruction::SDiv: o = Op::SDiv; break; case Instruction::SRem: o = Op::SRem; break;
    default: throw Unsupported{"binop"};
  }
  if (o == Op::UDiv || o == Op::URem || o == Op::SDiv || o == Op::SRem) requireT(mkNe(q, mkConst(0, w)), "arithmetic", "division by zero");
  return fromE(mkBin(o, p, q));
}
static E fpNan(E x) { unsigned w = x->w; return mkUlt(mkConst(w == 64 ? 0x7FF0000000000000ull : 0x7F800000u, w), mkBin(Op::And, x, mkConst(maskw(w - 1), w))); }
static Val fbin(unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw Unsupported{"wide floating-point arithmetic"};
  if (a.e || b.e) { // as SSE does it: a NaN operand is passed on, quiet
    FpK k;
    switch (opc) { case Instruction::FAdd: k = FpK::Add; break; case Instruction::FSub: k = FpK::Sub; break; case Instruction::FMul: k = FpK::Mul; break; case Instruction::FDiv: k = FpK::Div; break; default: throw Unsupported{"symbolic floating-point remainder"}; }
    E x = toE(a, w), y = toE(b, w), q = mkConst((u128)1 << (w == 64 ? 51 : 22), w);
    return fromE(mkIte(fpNan(x), mkOr(x, q), mkIte(fpNan(y), mkOr(y, q), mkFp(k, w, x, y))));
  }
  if (w == 64) { double x = asD(a.c), y = asD(b.c), r; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } return Val(fromD(r)); }
  float x = asF(a.c), y = asF(b.c), r; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); }
  return Val(fromF(r));
}
static Val castop(unsigned opc, const Val& v, TInfo* f, TInfo* t) {
  if (f->agg()) {
    if (opc == Instruction::BitCast) { // vector bitcast through bytes
      E e = nullptr;
      for (u64 i = 0; i < f->n; i++) { E x = toE(A(v)->v[i], f->el[0]->w); e = e ? mkConcat(x, e) : x; }
      if (!t->agg()) return fromE(e);
      vector<Val> r; unsigned ew = t->el[0]->w; for (u64 i = 0; i < t->n; i++) r.push_back(fromE(mkExtract(e, i * ew, ew))); return newAgg(r);
    }
    vector<Val> r; for (u64 i = 0; i < f->n; i++) r.push_back(castop(opc, A(v)->v[i], f->el[0], t->el[0])); return newAgg(r);
  }
  if (t->agg()) { vector<Val> r; unsigned ew = t->el[0]->w; E e = toE(v, f->w); for (u64 i = 0; i < t->n; i++) r.push_back(fromE(mkExtract(e, i * ew, ew))); return newAgg(r); }
  switch (opc) {
    case Instruction::Trunc: if (!v.e) return Val(trunc64(v.c, t->w)); return fromE(mkExtract(v.e, 0, t->w));
    case Instruction::ZExt: if (!v.e && t->w <= 64) return v; return fromE(mkZExt(toE(v, f->w), t->w));
    case Instruction::SExt: if (!v.e && t->w <= 64) { int64_t x = f->w == 64 ? (int64_t)v.c : (int64_t)(v.c << (64 - f->w)) >> (64 - f->w); return Val(trunc64((u64)x, t->w)); } return fromE(mkSExt(toE(v, f->w), t->w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
      if (t->w == f->w) return v;
      E e = toE(v, f->w); return fromE(t->w < f->w ? mkExtract(e, 0, t->w) : mkZExt(e, t->w));
    }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: {
      if (v.e || t->w > 64 || f->w > 64) {
        if (t->w > 64 || f->w > 64) throw Unsupported{"wide floating-point conversion"};
        if (opc == Instruction::UIToFP && umaxOf(v.e) <= 4096) { Val c(conc(v)); return castop(opc, c, f, t); }
        E x = toE(v, f->w);
        switch (opc) {
          case Instruction::UIToFP: return fromE(mkFp(FpK::FromU, t->w, x));
          case Instruction::SIToFP: return fromE(mkFp(FpK::FromS, t->w, x));
          case Instruction::FPToUI: return fromE(mkFp(FpK::ToU, t->w, x));
          case Instruction::FPToSI: return fromE(mkFp(FpK::ToS, t->w, x));
          case Instruction::FPExt: { E s = mkExtract(x, 31, 1), m = mkExtract(x, 0, 23); E n = mkConcat(s, mkConcat(mkConst(0xFFF, 12), mkConcat(mkExtract(m, 0, 22), mkConst(0, 29)))); return fromE(mkIte(fpNan(x), n, mkFp(FpK::Ext, 64, x))); }
          default: { E s = mkExtract(x, 63, 1); E n = mkConcat(s, mkConcat(mkConst(0x1FF, 9), mkExtract(x, 29, 22))); return fromE(mkIte(fpNan(x), n, mkFp(FpK::Trunc, 32, x))); }
        }
      }
      double d; 
      if (opc == Instruction::UIToFP) { if (t->w == 32) return Val(fromF((float)v.c)); return Val(fromD((double)v.c)); }
      if (opc == Instruction::SIToFP) { int64_t x = f->w == 64 ? (int64_t)v.c : (int64_t)(v.c << (64 - f->w)) >> (64 - f->w); if (t->w == 32) return Val(fromF((float)x)); return Val(fromD((double)x)); }
      d = f->w == 32 ? asF(v.c) : asD(v.c);
      if (opc == Instruction::FPExt || opc == Instruction::FPTrunc) return t->w == 32 ? Val(fromF((float)d)) : Val(fromD(d));
      if (opc == Instruction::FPToUI) return Val(trunc64((u64)d, t->w));
      return Val(trunc64((u64)(int64_t)d, t->w));
    }
  }
  throw Unsupported{"cast"};
}
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; auto sxx = [&](u64 v) -> int64_t { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (pred) {
      case CmpInst::ICMP_EQ: return Val((u64)(x == y)); case CmpInst::ICMP_NE: return Val((u64)(x != y));
      case CmpInst::ICMP_ULT: return Val((u64)(x < y)); case CmpInst::ICMP_ULE: return Val((u64)(x <= y)); case CmpInst::ICMP_UGT: return Val((u64)(x > y)); case CmpInst::ICMP_UGE: return Val((u64)(x >= y));
      case CmpInst::ICMP_SLT: return Val((u64)(sxx(x) < sxx(y))); case CmpInst::ICMP_SLE: return Val((u64)(sxx(x) <= sxx(y))); case CmpInst::ICMP_SGT: return Val((u64)(sxx(x) > sxx(y))); case CmpInst::ICMP_SGE: return Val((u64)(sxx(x) >= sxx(y)));
    }
  }
  E p = toE(a, w), q = toE(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(p, q)); case CmpInst::ICMP_NE: return fromE(mkNe(p, q));
    case CmpInst::ICMP_ULT: return fromE(mkUlt(p, q)); case CmpInst::ICMP_ULE: return fromE(mkUle(p, q)); case CmpInst::ICMP_UGT: return fromE(mkUlt(q, p)); case CmpInst::ICMP_UGE: return fromE(mkUle(q, p));
    case CmpInst::ICMP_SLT: return fromE(mkBin(Op::Slt, p, q)); case CmpInst::ICMP_SLE: return fromE(mkBin(Op::Sle, p, q)); case CmpInst::ICMP_SGT: return fromE(mkBin(Op::Slt, q, p)); case CmpInst::ICMP_SGE: return fromE(mkBin(Op::Sle, q, p));
  }
  throw Unsupported{"icmp"};
}
static Val fcmpv(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (w > 64) throw Unsupported{"wide fcmp"};
  if (a.e || b.e) {
    // IEEE comparison on bit patterns
    E p = toE(a, w), q = toE(b, w);
    unsigned mant = w == 64 ? 52 : 23;
    E mag = mkConst(maskw(w - 1), w), inf = mkConst((maskw(w - 1) >> mant) << mant, w);
    E pm = mkAnd(p, mag), qm = mkAnd(q, mag);
    E pn = mkUlt(inf, pm), qn = mkUlt(inf, qm); E uno = mkOr(pn, qn);
    E z = mkConst(0, w);
    E bothz = mkAnd(mkEq(pm, z), mkEq(qm, z));
    E eq = mkOr(mkEq(p, q), bothz);
    auto key = [&](E x) { E s = mkExtract(x, w - 1, 1); return mkIte(s, mkNot(x), mkOr(x, mkConst((u128)1 << (w - 1), w))); };
    E lt = mkAnd(mkNot(bothz), mkUlt(key(p), key(q))), gt = mkAnd(mkNot(bothz), mkUlt(key(q), key(p)));
    E ord = mkNot(uno), r;
    switch (pred) {
      case CmpInst::FCMP_FALSE: r = mkFalse(); break; case CmpInst::FCMP_TRUE: r = mkTrue(); break;
      case CmpInst::FCMP_OEQ: r = mkAnd(ord, eq); break; case CmpInst::FCMP_OGT: r = mkAnd(ord, gt); break; case CmpInst::FCMP_OGE: r = mkAnd(ord, mkOr(gt, eq)); break;
      case CmpInst::FCMP_OLT: r = mkAnd(ord, lt); break; case CmpInst::FCMP_OLE: r = mkAnd(ord, mkOr(lt, eq)); break; case CmpInst::FCMP_ONE: r = mkAnd(ord, mkNot(eq)); break;
      case CmpInst::FCMP_ORD: r = ord; break; case CmpInst::FCMP_UNO: r = uno; break; case CmpInst::FCMP_UEQ: r = mkOr(uno, eq); break;
      case CmpInst::FCMP_UGT: r = mkOr(uno, gt); break; case CmpInst::FCMP_UGE: r = mkOr(uno, mkOr(gt, eq)); break; case CmpInst::FCMP_ULT: r = mkOr(uno, lt); break;
      case CmpInst::FCMP_ULE: r = mkOr(uno, mkOr(lt, eq)); break; case CmpInst::FCMP_UNE: r = mkOr(uno, mkNot(eq)); break;
      default: throw Unsupported{"fcmp"};
    }
    return fromE(r);
  }
  double x = w == 32 ? asF(a.c) : asD(a.c), y = w == 32 ? asF(b.c) : asD(b.c);
  bool un = std::isnan(x) || std::isnan(y), r = false;
  switch (pred) {
    case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
    case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break;
    case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
    case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: break;
  }
  return Val((u64)r);
}

// ------------------------------------------------------------------ decoding
static FInfo* finfo(const Function* f) {
  auto it = finfos.find(f);
  return it == finfos.end() ? nullptr : it->second;
}
// Functions are compiled without optimisation; registers are recovered here, on first use, by LLVM's own SROA.
static bool gSimplify = true;
static void simplifyIR(Function& f) {
  static PassBuilder pb; static LoopAnalysisManager lam; static FunctionAnalysisManager fam; static CGSCCAnalysisManager cam; static ModuleAnalysisManager mam; static FunctionPassManager fpm; static bool init = false;
  if (!init) {
    init = true;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    fpm.addPass(SROAPass(SROAOptions::ModifyCFG)); fpm.addPass(EarlyCSEPass()); fpm.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(true).sinkCommonInsts(true).bonusInstThreshold(4)));
  }
  fpm.run(f, fam);
}

static void decode(FInfo* fi) {
  if (fi->decoded) return;
  fi->decoded = true;
  if (gSimplify && !fi->f->isDeclaration()) simplifyIR(*fi->f);
  Function& F = *fi->f;
  std::unordered_map<const Value*, int> reg;
  int n = 0;
  for (auto& a : F.args()) reg[&a] = n++;
  std::unordered_map<const BasicBlock*, BInfo*> bbs;
  for (auto& b : F) { auto bi = std::make_unique<BInfo>(); bi->bb = &b; bi->id = fi->blocks.size(); bbs[&b] = bi.get(); fi->blocks.push_back(std::move(bi)); }
  for (auto& b : F) for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
  fi->nregs = n;
  auto opnd = [&](Value* v) {
    Opnd o; o.t = tinfo(v->getType());
    if (auto* c = dyn_cast<Constant>(v)) o.cv = constVal(c);
    else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) o.cv = Val((u64)0);
    else o.reg = reg.at(v);
    return o;
  };
  for (auto& b : F) {
    BInfo* bi = bbs[&b];
    unsigned np = 0;
    for (BasicBlock* p : predecessors(&b)) { (void)p; }
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
        switch (ii->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_end: continue;
          default: break;
        }
      }
      bi->ins.emplace_back();
      Ins& x = bi->ins.back();
      x.op = i.getOpcode(); x.I = &i; x.t = tinfo(i.getType());
      if (!i.getType()->isVoidTy()) x.dest = reg[&i];
      if (auto* l = dyn_cast<LoadInst>(&i)) x.al = (unsigned)l->getAlign().value(); else if (auto* w = dyn_cast<StoreInst>(&i)) x.al = (unsigned)w->getAlign().value();
      if (auto* p = dyn_cast<PHINode>(&i)) {
        np++;
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { x.ops.push_back(opnd(p->getIncomingValue(k))); BInfo* pb = bbs[p->getIncomingBlock(k)]; x.cases.push_back({(u64)0, pb}); }
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        x.ops.push_back(opnd(g->getPointerOperand()));
        u64 c = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* v = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(v)) { c += (u64)ci->getSExtValue() * sz; continue; }
          x.ops.push_back(opnd(v)); x.scale.push_back(sz);
        }
        x.imm = c;
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) x.ops.push_back(opnd(br->getCondition()));
        for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.succ[k] = bbs[br->getSuccessor(k)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        x.ops.push_back(opnd(sw->getCondition())); x.succ[0] = bbs[sw->getDefaultDest()];
        for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbs[c.getCaseSuccessor()]});
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) x.ops.push_back(opnd(a.get()));
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { x.succ[0] = bbs[iv->getNormalDest()]; x.succ[1] = bbs[iv->getUnwindDest()]; }
        Function* cf = cb->getCalledFunction();
        if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (!cf) cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (cf && cf->isIntrinsic()) x.intrin = cf->getIntrinsicID();
        else if (cf) x.callee = finfo(cf);
        else if (isa<InlineAsm>(cb->getCalledOperand())) x.intrin = -1;
        else x.ops.push_back(opnd(cb->getCalledOperand())); // indirect: last operand
      } else if (auto* lp = dyn_cast<LandingPadInst>(&i)) { (void)lp; }
      else if (auto* ev_ = dyn_cast<ExtractValueInst>(&i)) { x.ops.push_back(opnd(ev_->getAggregateOperand())); x.idx.assign(ev_->idx_begin(), ev_->idx_end()); }
      else if (auto* iv = dyn_cast<InsertValueInst>(&i)) { x.ops.push_back(opnd(iv->getAggregateOperand())); x.ops.push_back(opnd(iv->getInsertedValueOperand())); x.idx.assign(iv->idx_begin(), iv->idx_end()); }
      else {
        for (auto& o : i.operands()) x.ops.push_back(opnd(o.get()));
        if (auto* ic = dyn_cast<CmpInst>(&i)) x.sub = ic->getPredicate();
        if (auto* al = dyn_cast<AllocaInst>(&i)) { x.imm = DL->getTypeAllocSize(al->getAllocatedType()); x.sub = al->getAlign().value(); }
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) for (int m : sv->getShuffleMask()) x.idx.push_back((unsigned)m);
        if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) x.sub = rm->getOperation();
      }
    }
    bi->nphi = np;
  }
}

// ------------------------------------------------------------------ exceptions
static u64 sym_si = 0, sym_vmi = 0, sym_ci = 0;
static u64 nameAddr(const char* n) { if (auto* g = M->getNamedValue(n)) return gvAddr(g); return 0; }
static bool tiMatch(u64 want, u64 have, u64& adj, int depth = 0) {
  if (want == have) return true;
  if (depth > 20) return false;
  Obj* o = S->mem.get(have >> SLOT);
  if (!o || o->kind == OK::Ext || o->size < 16) return false;
  u64 vt = loadU64(have);
  if (sym_si && vt == sym_si + 16) { return tiMatch(want, loadU64(have + 16), adj, depth + 1); }
  if (sym_vmi && vt == sym_vmi + 16) {
    uint32_t n = loadU32(have + 20);
    for (uint32_t i = 0; i < n; i++) {
      u64 b = loadU64(have + 24 + 16 * i); int64_t fl = (int64_t)loadU64(have + 32 + 16 * i);
      if (!(fl & 2) || (fl & 1)) continue;
      u64 a2 = adj + (u64)(fl >> 8);
      if (tiMatch(want, b, a2, depth + 1)) { adj = a2; return true; }
    }
  }
  return false;
}
static void popFrame() {
  Frame& f = S->st.back();
  for (uint32_t id : f.allocas) { Obj* o = S->mem.getW(id); o->alive = false; o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); o->log_.clear(); }
  S->st.pop_back();
}
static void freeExc(u64 a) { Obj* o = S->mem.getW(a >> SLOT); o->alive = false; S->exc.erase(a); }
static void enter(BInfo* to);
// does the landing pad of this invoke handle the exception? returns 0 none, 1 cleanup only, 2 handler
static int lpMatch(Ins& inv, u64 exc, u64& sel, u64& adj) {
  LandingPadInst* lp = cast<InvokeInst>(inv.I)->getUnwindDest()->getLandingPadInst();
  u64 ti = S->exc[exc].tinfo;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) {
      u64 w = constVal(lp->getClause(i)).c;
      adj = exc;
      if (w == 0) { sel = 0x7fffffff; return 2; }
      if (tiMatch(w, ti, adj)) { sel = (w >> SLOT); return 2; }
    } else { // filter
      Constant* c = lp->getClause(i); unsigned n = c->getType()->getArrayNumElements(); bool ok = false;
      for (unsigned k = 0; k < n; k++) { u64 w = constVal(c->getAggregateElement(k)).c; u64 a2 = exc; if (w == 0 || tiMatch(w, ti, a2)) ok = true; }
      if (!ok) { sel = (u64)-1; adj = exc; return 2; }
    }
  }
  sel = 0; adj = exc;
  return lp->isCleanup() ? 1 : 0;
}
[[noreturn]] static void unwind(u64 exc, bool search) {
  u64 sel, adj;
  if (search) {
    bool found = false;
    for (size_t i = S->st.size(); i-- > 0;) {
      Frame& f = S->st[i]; Ins& c = f.bb->ins[f.pc];
      if (c.op == Instruction::Invoke && lpMatch(c, exc, sel, adj) == 2) { found = true; break; }
    }
    if (!found) {
      string tn = "?"; u64 ti = S->exc[exc].tinfo; Obj* o = S->mem.get(ti >> SLOT); if (o) tn = demangle(o->name);
      fail("uncaught", "exception " + tn + " is not caught (std::terminate)");
    }
  }
  while (!S->st.empty()) {
    Frame& f = S->st.back(); Ins& c = f.bb->ins[f.pc];
    if (c.op == Instruction::Invoke) {
      int r = lpMatch(c, exc, sel, adj);
      if (r) { S->pendExc = exc; S->pendSel = sel; S->exc[exc].adj = adj; enter(c.succ[1]); throw Restart{}; }
    }
    if (f.freeExcOnReturn) { fail("uncaught", "exception escapes from the destructor of an exception"); }
    popFrame();
  }
  fail("uncaught", "unwound past the harness");
}

// ------------------------------------------------------------------ control flow
static void enter(BInfo* to) {
  Frame& f = S->st.back();
  BInfo* from = f.bb;
  if (to->nphi) {
    Val tmp[64]; vector<Val> big; Val* t = tmp;
    if (to->nphi > 64) { big.resize(to->nphi); t = big.data(); }
    for (unsigned i = 0; i < to->nphi; i++) {
      Ins& p = to->ins[i]; p.hit = true;
      unsigned k = 0; while (k < p.cases.size() && p.cases[k].second != from) k++;
      const Opnd& o = p.ops[k];
      t[i] = o.reg >= 0 ? f.r[o.reg] : o.cv;
    }
    for (unsigned i = 0; i < to->nphi; i++) f.r[to->ins[i].dest] = t[i];
  }
  f.prev = from; f.bb = to; f.pc = to->nphi;
}
static void pushFrame(FInfo* fi, const vector<Val>& args, u64 freeExcOnRet = 0, bool drop = false) {
  decode(fi);
  if (S->st.size() > 3000) fail("memory", "stack overflow (recursion deeper than 3000 frames)");
  S->st.emplace_back();
  Frame& f = S->st.back();
  f.f = fi; f.bb = fi->blocks[0].get(); f.pc = 0; f.r.resize(fi->nregs);
  for (size_t i = 0; i < args.size() && i < fi->f->arg_size(); i++) f.r[i] = args[i];
  f.freeExcOnReturn = freeExcOnRet; f.dropResult = drop;
  if (S->st.size() > R->maxDepth) R->maxDepth = S->st.size();
}
static void finishCall(Frame& f, const Val* v) { // f at call/invoke whose result is v
  Ins& c = f.bb->ins[f.pc];
  if (c.dest >= 0 && v) f.r[c.dest] = *v;
  if (c.op == Instruction::Invoke) enter(c.succ[0]); else f.pc++;
}

#include "builtins.inc"

static Val intrinsic(Ins& I, vector<Val>& a);

static void execCall(Ins& I) {
  Frame& f = S->st.back();
  CallBase* cb = cast<CallBase>(I.I);
  size_t na = cb->arg_size();
  vector<Val> args; args.reserve(na);
  for (size_t i = 0; i < na; i++) { const Opnd& o = I.ops[i]; args.push_back(o.reg >= 0 ? f.r[o.reg] : o.cv); }
  if (I.intrin) {
    Val v = intrinsic(I, args);
    finishCall(S->st.back(), &v);
    return;
  }
  FInfo* fi = I.callee;
  if (!fi) {
    const Opnd& o = I.ops[na];
    u64 a = conc(o.reg >= 0 ? f.r[o.reg] : o.cv);
    auto it = funcById.find(a >> SLOT);
    if (it == funcById.end() || a != baseOf(a >> SLOT)) { if (a < 4096) fail("memory", "call through null pointer"); fail("memory", "call through invalid pointer"); }
    fi = it->second;
  }
  if (fi->builtin >= 0) {
    Val v = builtins[fi->builtin](I, args);
    finishCall(S->st.back(), &v);
    return;
  }
  if (fi->f->isDeclaration()) throw Unsupported{"external function " + demangle(fi->f->getName().str())};
  // byval arguments
  bool hasByval = false;
  for (size_t i = 0; i < na; i++) if (cb->isByValArgument(i)) hasByval = true;
  vector<uint32_t> copies;
  if (hasByval) for (size_t i = 0; i < na; i++) if (cb->isByValArgument(i)) {
    u64 n = DL->getTypeAllocSize(cb->getParamByValType(i));
    resolve(args[i], n, false);
    uint32_t id = newObj(*S, OK::Stack, n, true, "byval");
    doMemcpy(Val(baseOf(id)), args[i], Val(n));
    args[i] = Val(baseOf(id)); copies.push_back(id);
  }
  pushFrame(fi, args);
  for (uint32_t id : copies) S->st.back().allocas.push_back(id);
}

static Val vecMap2(TInfo* t, const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) {
  vector<Val> r; for (u64 i = 0; i < t->n; i++) r.push_back(f(A(a)->v[i], A(b)->v[i])); return newAgg(r);
}

static void step() {
  Frame& f = S->st.back();
  Ins& I = f.bb->ins[f.pc];
  I.hit = true;
  auto G = [&](unsigned i) -> const Val& { const Opnd& o = I.ops[i]; return o.reg >= 0 ? f.r[o.reg] : o.cv; };
  switch (I.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      if (I.t->k == TK::Vec) { unsigned w = I.t->el[0]->w; unsigned op = I.op; f.r[I.dest] = vecMap2(I.t, G(0), G(1), [&](const Val& x, const Val& y) { return binop(op, x, y, w); }); }
      else f.r[I.dest] = binop(I.op, G(0), G(1), I.t->w);
      f.pc++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      if (I.t->k == TK::Vec) { unsigned w = I.t->el[0]->w; unsigned op = I.op; f.r[I.dest] = vecMap2(I.t, G(0), G(1), [&](const Val& x, const Val& y) { return fbin(op, x, y, w); }); }
      else f.r[I.dest] = fbin(I.op, G(0), G(1), I.t->w);
      f.pc++; return;
    case Instruction::FNeg: f.r[I.dest] = binop(Instruction::Xor, G(0), I.t->w > 64 ? Val(mkConst((u128)1 << (I.t->w - 1), I.t->w)) : Val(1ull << (I.t->w - 1)), I.t->w); f.pc++; return;
    case Instruction::ICmp: {
      TInfo* ot = I.ops[0].t;
      if (ot->k == TK::Vec) { unsigned w = ot->el[0]->w; unsigned s = I.sub; f.r[I.dest] = vecMap2(ot, G(0), G(1), [&](const Val& x, const Val& y) { return icmp(s, x, y, w); }); }
      else f.r[I.dest] = icmp(I.sub, G(0), G(1), ot->w);
      f.pc++; return;
    }
    case Instruction::FCmp: {
      TInfo* ot = I.ops[0].t;
      if (ot->k == TK::Vec) { unsigned w = ot->el[0]->w; unsigned s = I.sub; f.r[I.dest] = vecMap2(ot, G(0), G(1), [&](const Val& x, const Val& y) { return fcmpv(s, x, y, w); }); }
      else f.r[I.dest] = fcmpv(I.sub, G(0), G(1), ot->w);
      f.pc++; return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      f.r[I.dest] = castop(I.op, G(0), I.ops[0].t, I.t); f.pc++; return;
    case Instruction::Freeze: f.r[I.dest] = G(0); f.pc++; return;
    case Instruction::Select: {
      const Val& c = G(0);
      if (I.ops[0].t->k == TK::Vec) {
        vector<Val> r; for (u64 i = 0; i < I.t->n; i++) { const Val& ci = A(c)->v[i]; const Val& x = A(G(1))->v[i]; const Val& y = A(G(2))->v[i]; if (!ci.e) r.push_back(ci.c ? x : y); else r.push_back(fromE(mkIte(ci.e, toE(x, I.t->el[0]->w), toE(y, I.t->el[0]->w)))); }
        f.r[I.dest] = newAgg(r);
      } else if (!c.e) f.r[I.dest] = c.c ? G(1) : G(2);
      else if (I.t->agg() || I.t->k == TK::Ptr) { bool d = decide(c.e); f.r[I.dest] = d ? G(1) : G(2); }
      else f.r[I.dest] = fromE(mkIte(c.e, toE(G(1), I.t->w), toE(G(2), I.t->w)));
      f.pc++; return;
    }
    case Instruction::Alloca: {
      u64 n = conc(G(0)) * I.imm;
      uint32_t id = newObj(*S, OK::Stack, n, true, "");
      f.allocas.push_back(id);
      f.r[I.dest] = Val(baseOf(id)); f.pc++; return;
    }
    case Instruction::Load: f.r[I.dest] = loadVal(I.t, G(0)); if (I.al > 1) aligned(G(0), I.al); f.pc++; return;
    case Instruction::Store: { if (I.al > 1) aligned(G(1), I.al); AtomicScope as(cast<StoreInst>(I.I)->isAtomic()); storeVal(I.ops[0].t, G(1), G(0)); f.pc++; return; }
    case Instruction::GetElementPtr: {
      const Val& b = G(0);
      if (I.t->k == TK::Vec) throw Unsupported{"vector gep"};
      u64 c = I.imm; E e = nullptr;
      for (size_t i = 0; i < I.scale.size(); i++) {
        const Val& x = G(i + 1); unsigned w = I.ops[i + 1].t->w;
        if (!x.e) { int64_t s = w == 64 ? (int64_t)x.c : (int64_t)(x.c << (64 - w)) >> (64 - w); c += (u64)s * I.scale[i]; }
        else { E y = mkBin(Op::Mul, mkSExt(x.e, 64), mkConst(I.scale[i], 64)); e = e ? mkAdd(e, y) : y; }
      }
      if (!b.e && !e) f.r[I.dest] = Val(b.c + c);
      else { E r = b.e ? (e ? mkAdd(b.e, e) : b.e) : mkAdd(e, mkConst(b.c, 64)); f.r[I.dest] = fromE(mkAdd(r, mkConst(c, 64))); }
      f.pc++; return;
    }
    case Instruction::ExtractValue: { const Val* v = &G(0); for (unsigned k : I.idx) v = &A(*v)->v[k]; f.r[I.dest] = *v; f.pc++; return; }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, size_t)> ins = [&](const Val& v, size_t d) -> Val { if (d == I.idx.size()) return G(1); vector<Val> c = A(v)->v; c[I.idx[d]] = ins(c[I.idx[d]], d + 1); return newAgg(c); };
      Val r = ins(G(0), 0); f.r[I.dest] = r; f.pc++; return;
    }
    case Instruction::ExtractElement: { u64 k = conc(G(1)); f.r[I.dest] = A(G(0))->v[k]; f.pc++; return; }
    case Instruction::InsertElement: { u64 k = conc(G(2)); vector<Val> c = A(G(0))->v; c[k] = G(1); f.r[I.dest] = newAgg(c); f.pc++; return; }
    case Instruction::ShuffleVector: {
      vector<Val> r; auto& x = A(G(0))->v; auto& y = A(G(1))->v;
      for (unsigned m : I.idx) r.push_back((int)m < 0 ? zeroVal(I.t->el[0]) : m < x.size() ? x[m] : y[m - x.size()]);
      f.r[I.dest] = newAgg(r); f.pc++; return;
    }
    case Instruction::Br:
      if (I.ops.empty()) { enter(I.succ[0]); return; }
      { const Val& c = G(0); bool d = c.e ? decide(c.e) : (c.c & 1); enter(d ? I.succ[0] : I.succ[1]); return; }
    case Instruction::Switch: {
      const Val& c = G(0);
      if (!c.e) { for (auto& k : I.cases) if (k.first == c.c) { enter(k.second); return; } enter(I.succ[0]); return; }
      unsigned w = c.e->w; u64 v = ev(c.e);
      for (auto& k : I.cases) if (k.first == v) { decide(mkEq(c.e, mkConst(v, w))); enter(k.second); return; }
      E none = mkTrue(); for (auto& k : I.cases) none = mkAnd(none, mkNe(c.e, mkConst(k.first, w)));
      decide(none); enter(I.succ[0]); return;
    }
    case Instruction::Ret: {
      bool has = !I.ops.empty(); Val v; if (has) v = G(0);
      u64 fe = f.freeExcOnReturn; bool drop = f.dropResult;
      popFrame();
      if (fe) freeExc(fe);
      if (S->st.empty()) throw PathEnd{0};
      finishCall(S->st.back(), has && !drop ? &v : nullptr);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: execCall(I); return;
    case Instruction::LandingPad: { f.r[I.dest] = newAgg({Val(S->pendExc), Val(S->pendSel & 0xffffffff)}); f.pc++; return; }
    case Instruction::Resume: { u64 e = A(G(0))->v[0].c; popFrame(); unwind(e, false); }
    case Instruction::Unreachable: fail("undefined", "control reaches unreachable code");
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      AtomicScope as(true);
      TInfo* t = I.t; Loc l = resolve(G(0), t->store, true); Val old = loadAt(t, l); Val nv; Val y = G(1);
      switch (I.sub) {
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, y, t->w); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, y, t->w); break;
        case AtomicRMWInst::Xchg: nv = y; break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, y, t->w); break; case AtomicRMWInst::And: nv = binop(Instruction::And, old, y, t->w); break;
        default: throw Unsupported{"atomicrmw"};
      }
      storeAt(t, l, nv); f.r[I.dest] = old; f.pc++; return;
    }
    case Instruction::AtomicCmpXchg: {
      AtomicScope as(true);
      TInfo* t = I.ops[1].t; Loc l = resolve(G(0), t->store, true); Val old = loadAt(t, l); Val c = icmp(CmpInst::ICMP_EQ, old, G(1), t->w); bool d = c.e ? decide(c.e) : c.c;
      if (d) storeAt(t, l, G(2)); f.r[I.dest] = newAgg({old, Val((u64)d)}); f.pc++; return;
    }
    default: throw Unsupported{string("instruction ") + I.I->getOpcodeName()};
  }
}

static Val ovf(unsigned opc, bool sgn, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 r; bool o;
    auto sxx = [&](u64 v) -> __int128 { return (__int128)(w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w)); };
    if (sgn) { __int128 x = sxx(a.c), y = sxx(b.c), z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; r = trunc64((u64)z, w); o = sxx(r) != z; }
    else { u128 x = a.c, y = b.c, z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; r = trunc64((u64)z, w); o = (u128)r != z; }
    return newAgg({Val(r), Val((u64)o)});
  }
  E x = toE(a, w), y = toE(b, w);
  unsigned w2 = opc == Instruction::Mul ? 2 * w : w + 1;
  Op op = opc == Instruction::Add ? Op::Add : opc == Instruction::Sub ? Op::Sub : Op::Mul;
  E r = mkBin(op, x, y);
  if (!sgn && opc == Instruction::Mul && isC(y) && y->c) return newAgg({fromE(r), fromE(mkUlt(mkConst(maskw(w) / y->c, w), x))});
  if (!sgn && opc == Instruction::Add) return newAgg({fromE(r), fromE(mkUlt(r, x))});
  if (!sgn && opc == Instruction::Sub) return newAgg({fromE(r), fromE(mkUlt(x, y))});
  E X = sgn ? mkSExt(x, w2) : mkZExt(x, w2), Y = sgn ? mkSExt(y, w2) : mkZExt(y, w2);
  E Z = mkBin(op, X, Y);
  return newAgg({fromE(r), fromE(mkNe(Z, sgn ? mkSExt(r, w2) : mkZExt(r, w2)))});
}
static Val intrinsic(Ins& I, vector<Val>& a) {
  if (I.intrin < 0) throw Unsupported{"inline assembly"};
  unsigned w = I.t ? I.t->w : 0;
  auto cmpsel = [&](unsigned p) { Val c = icmp(p, a[0], a[1], w); if (!c.e) return c.c ? a[0] : a[1]; return fromE(mkIte(c.e, toE(a[0], w), toE(a[1], w))); };
  if (I.t && I.t->k == TK::Vec) throw Unsupported{"vector intrinsic " + cast<CallBase>(I.I)->getCalledFunction()->getName().str()};
  switch (I.intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(a[0], a[1], a[2]); return Val();
    case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(a[0], a[1], a[2]); return Val();
    case Intrinsic::eh_typeid_for: { u64 t = conc(a[0]); return Val(t >> SLOT); }
    case Intrinsic::umul_with_overflow: return ovf(Instruction::Mul, false, a[0], a[1], I.t->el[0]->w);
    case Intrinsic::uadd_with_overflow: return ovf(Instruction::Add, false, a[0], a[1], I.t->el[0]->w);
    case Intrinsic::usub_with_overflow: return ovf(Instruction::Sub, false, a[0], a[1], I.t->el[0]->w);
    case Intrinsic::smul_with_overflow: return ovf(Instruction::Mul, true, a[0], a[1], I.t->el[0]->w);
    case Intrinsic::sadd_with_overflow: return ovf(Instruction::Add, true, a[0], a[1], I.t->el[0]->w);
    case Intrinsic::ssub_with_overflow: return ovf(Instruction::Sub, true, a[0], a[1], I.t->el[0]->w);
    case Intrinsic::umax: return cmpsel(CmpInst::ICMP_UGT); case Intrinsic::umin: return cmpsel(CmpInst::ICMP_ULT);
    case Intrinsic::smax: return cmpsel(CmpInst::ICMP_SGT); case Intrinsic::smin: return cmpsel(CmpInst::ICMP_SLT);
    case Intrinsic::abs: { Val n = binop(Instruction::Sub, Val((u64)0), a[0], w); Val c = icmp(CmpInst::ICMP_SLT, a[0], Val((u64)0), w); if (!c.e) return c.c ? n : a[0]; return fromE(mkIte(c.e, toE(n, w), toE(a[0], w))); }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); Val d = binop(Instruction::Sub, a[0], a[1], w); if (!c.e) return c.c ? Val((u64)0) : d; return fromE(mkIte(c.e, mkConst(0, w), toE(d, w))); }
    case Intrinsic::uadd_sat: { Val d = binop(Instruction::Add, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, d, a[0], w); if (!c.e) return c.c ? Val(trunc64(~0ull, w)) : d; return fromE(mkIte(c.e, mkConst(maskw(w), w), toE(d, w))); }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::is_constant: return Val((u64)0);
    case Intrinsic::objectsize: return Val(conc(a[1]) ? (u64)0 : ~(u64)0);
    case Intrinsic::stacksave: return Val((u64)0);
    case Intrinsic::stackrestore: return Val();
    case Intrinsic::invariant_start: return Val((u64)0);
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail("undefined", "trap");
    case Intrinsic::bswap: { E e = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } return fromE(r); }
    case Intrinsic::ctpop: { E e = toE(a[0], w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(e, i, 1), w)); return fromE(r); }
    case Intrinsic::ctlz: { E e = toE(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return fromE(r); }
    case Intrinsic::cttz: { E e = toE(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return fromE(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      u64 s = conc(a[2]) % w; E cat = mkConcat(toE(a[0], w), toE(a[1], w));
      return fromE(I.intrin == Intrinsic::fshl ? mkExtract(cat, s ? w - s : w, w) : mkExtract(cat, s, w));
    }
    case Intrinsic::fabs: if (a[0].e) return fromE(mkAnd(a[0].e, mkConst(maskw(w - 1), w))); return Val(a[0].c & ((1ull << (w - 1)) - 1));
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: {
      if (a[0].e) throw Unsupported{"symbolic fp rounding"}; double x = w == 32 ? asF(a[0].c) : asD(a[0].c);
      x = I.intrin == Intrinsic::ceil ? ceil(x) : I.intrin == Intrinsic::floor ? floor(x) : I.intrin == Intrinsic::trunc ? trunc(x) : I.intrin == Intrinsic::rint ? rint(x) : round(x);
      return w == 32 ? Val(fromF((float)x)) : Val(fromD(x));
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: return fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], w), a[2], w);
    case Intrinsic::ptrmask: return binop(Instruction::And, a[0], a[1], 64);
    default: throw Unsupported{"intrinsic " + cast<CallBase>(I.I)->getCalledFunction()->getName().str()};
  }
}

// ------------------------------------------------------------------ path driver
static void finishPath(int why) {
  if (why == 0) {
    R->paths++; R->syms = std::max<u64>(R->syms, S->syms.size());
    // sample: reservoir with the configured seed
    bool take = R->samples.size() < Cfg.nsamples; size_t slot = R->samples.size();
    if (!take) { static u64 rs = 88172645463325252ull ^ Cfg.seed; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; size_t j = rs % R->paths; if (j < Cfg.nsamples) { take = true; slot = j; } }
    if (take) {
      SampleRec sr; sr.in = inputsOf(*S, *S->model);
      for (auto& o : S->obs) { bool u = false; for (uint32_t x : varsOf(o.e)) if (!(x & 0x80000000u) && gVars[x].undef) u = true; if (u) { sr.undefObs = true; continue; } sr.obs.push_back({o.tag, (u64)evalE(o.e, *S->model)}); }
      if (slot == R->samples.size()) R->samples.push_back(std::move(sr)); else R->samples[slot] = std::move(sr);
    }
  } else if (why == 1) R->infeasible++;
}
static int runPath() { // runs S to its end
  u64 n = 0;
  for (;;) {
    try {
      for (;;) {
        step();
        n++; R->steps++;
        if ((n & 0xfff) == 0) { checkTime(); if (n > Cfg.pathSteps) { string w = "path step limit"; for (auto& b : backtrace()) w += "\n    " + b; incomplete(w); return 3; } }
      }
    } catch (Restart&) { n++; R->steps++; continue; }
    catch (PathEnd& p) { return p.why; }
    catch (Unsupported& u) {
      Ins& I = S->st.back().bb->ins[S->st.back().pc];
      vector<string> bt = backtrace();
      string w = "unsupported: " + u.what + " @ " + locOf(I.I);
      for (size_t i = 0; i < bt.size() && i < 6; i++) w += " < " + bt[i];
      incomplete(w); return 4;
    }
  }
}

static string js(const string& s) {
  string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static void putIn(std::ostream& o, const vector<InVal>& in) {
  o << "[";
  for (size_t i = 0; i < in.size(); i++) {
    auto& v = in[i]; if (i) o << ",";
    if (v.arr >= 0) { o << "{\"n\":" << js(v.name) << ",\"len\":" << v.len << ",\"bytes\":["; for (size_t k = 0; k < v.bytes.size(); k++) { if (k) o << ","; o << "[" << v.bytes[k].first << "," << (int)v.bytes[k].second << "]"; } o << "]}"; }
    else o << "{\"n\":" << js(v.name) << ",\"w\":" << v.w << ",\"v\":" << v.v << "}";
  }
  o << "]";
}

static void writeObjInit(Obj* o, u64 off, const Constant* c) {
  TInfo* t = tinfo(c->getType());
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
    if (s->getElementType()->isIntegerTy() || s->getElementType()->isFloatingPointTy()) { StringRef r = s->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
  }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) writeObjInit(o, off + elOff(t, i), cast<Constant>(c->getOperand(i))); return; }
  Val v = constVal(c);
  if (t->agg()) { throw Unsupported{"initializer"}; }
  if (v.e) { u128 x = v.e->c; for (u64 i = 0; i < t->store; i++) { o->b[off + i] = (uint8_t)x; x >>= 8; } }
  else { u64 x = v.c; memcpy(&o->b[off], &x, std::min<u64>(8, t->store)); }
}

int main(int argc, char** argv) {
  gStart = std::chrono::steady_clock::now();
  vector<string> bcs; vector<string> entries; string out; unsigned qTimeout = 20000; string prefix; bool list = false, all = false; unsigned nfork = 0;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") entries.push_back(nx()); else if (a == "--out") out = nx(); else if (a == "--time") Cfg.timeLimit = std::stod(nx());
    else if (a == "--seed") Cfg.seed = std::stoul(nx()); else if (a == "--samples") Cfg.nsamples = std::stoul(nx()); else if (a == "--qtimeout") qTimeout = std::stoul(nx());
    else if (a == "--trace") Cfg.trace = true; else if (a == "--prefix") prefix = nx(); else if (a == "--dump") gDumpDir = nx(); else if (a == "--max-paths") Cfg.maxPaths = std::stoull(nx());
    else if (a == "--list") list = true; else if (a == "--all") all = true; else if (a == "--fork") nfork = std::stoul(nx()); else if (a == "--no-simplify") gSimplify = false;
    else bcs.push_back(a);
  }
  solverInit(qTimeout, Cfg.seed);
  LLVMContext ctx; Ctx = &ctx; SMDiagnostic err;
  std::unique_ptr<Module> mod;
  for (auto& b : bcs) {
    auto m = parseIRFile(b, err, ctx);
    if (!m) { err.print("symx", errs()); return 96; }
    if (!mod) mod = std::move(m);
    else if (Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "symx: link failed\n"); return 96; }
  }
  M = mod.get(); DL = &M->getDataLayout();
  initBuiltins();
  if (list) { for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) printf("%s\n", f.getName().str().c_str()); return 0; }
  HRes initRes; R = &initRes; initRes.name = "<init>";
  State base; base.model = std::make_shared<Model>(); S = &base;
  vector<std::pair<GlobalVariable*, uint32_t>> ginit;
  for (auto& g : M->globals()) {
    u64 n = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
    bool decl = g.isDeclaration();
    string nm = g.getName().str(); char* keepName = strdup(nm.c_str());
    uint32_t id = newObj(base, decl ? OK::Ext : g.isConstant() ? OK::Const : OK::Global, decl ? std::max<u64>(n, 256) : n, false, keepName);
    if (g.isThreadLocal() || g.getName() == "__vp_errno") base.mem.getW(id)->allow = true;
    gvId[&g] = id; if (!decl) ginit.push_back({&g, id});
    if (decl && (nm == "__libc_single_threaded")) { Obj* o = base.mem.getW(id); o->b[0] = 1; }
    if (decl && nm.rfind("_ZTI", 0) == 0) { // type information of fundamental types lives in libstdc++
      string tn = nm.substr(4);
      uint32_t sid = newObj(base, OK::Const, tn.size() + 1, false, "typename");
      memcpy(base.mem.getW(sid)->b.data(), tn.c_str(), tn.size() + 1);
      u64 a = baseOf(sid); memcpy(&base.mem.getW(id)->b[8], &a, 8);
    }
  }
  for (auto& f : *M) {
    if (f.isIntrinsic()) continue;
    FInfo* fi = new FInfo(); fi->f = &f; fi->objId = newObj(base, OK::Func, 0, false, strdup(f.getName().str().c_str()));
    gvId[&f] = fi->objId; funcById[fi->objId] = fi; finfos[&f] = fi;
  }
  for (auto& p : finfos) {
    FInfo* fi = p.second; string n = fi->f->getName().str();
    auto it = builtinIdx.find(n);
    if (it != builtinIdx.end()) { fi->builtin = it->second; continue; }
  }
  // vpx_NAME in the harness replaces external function NAME
  for (auto& f : *M) if (!f.isIntrinsic()) {
    if (Function* r = M->getFunction("vpx_" + f.getName().str())) if (!r->isDeclaration()) {
      FInfo* a = finfos[&f]; FInfo* b = finfos[r]; a->builtin = -1; a->f = b->f; // decode the replacement's body
    }
  }
  try { for (auto& p : ginit) writeObjInit(base.mem.getW(p.second), 0, p.first->getInitializer()); }
  catch (Unsupported& u) { fprintf(stderr, "symx: initializer: %s\n", u.what.c_str()); return 95; }
  sym_si = nameAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"); sym_vmi = nameAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); sym_ci = nameAddr("_ZTVN10__cxxabiv117__class_type_infoE");
  if (Function* f = M->getFunction("__vp_throw_bad_alloc")) fiThrowBadAlloc = finfos[f];
  // static constructors
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
    vector<std::pair<u64, Function*>> cs;
    for (auto& o : arr->operands()) { auto* st = cast<ConstantStruct>(o.get()); if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) {
      int why;
      try { pushFrame(finfos[c.second], {}); why = runPath(); }
      catch (Unsupported& u) { initRes.incomplete.insert(u.what); why = 4; }
      if (why != 0) {
        fprintf(stderr, "symx: static constructor %s failed\n", c.second->getName().str().c_str());
        for (auto& i : initRes.incomplete) fprintf(stderr, "  %s\n", i.c_str());
        for (auto& v : initRes.viol) { fprintf(stderr, "  %s: %s @ %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto& t : v.trace) fprintf(stderr, "      %s\n", t.c_str()); }
        return 94;
      }
    }
  }
  if (all) for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) entries.push_back(f.getName().str());
  if (nfork) { // one child per harness; --out is a directory
    unsigned running = 0; vector<string> es = entries; bool child = false;
    for (auto& en : es) {
      if (running >= nfork) { int st; wait(&st); running--; }
      pid_t p = fork();
      if (p == 0) { entries = {en}; out += "/" + en + ".json"; child = true; break; }
      running++;
    }
    if (!child) { while (running--) { int st; wait(&st); } _Exit(0); }
    gStart = std::chrono::steady_clock::now();
  }
  vector<std::unique_ptr<HRes>> results;
  for (auto& en : entries) {
    auto hr = std::make_unique<HRes>(); R = hr.get(); R->name = en;
    double t0 = now(); u64 q0 = gStats.queries; double st0 = gStats.time;
    Function* f = M->getFunction(en);
    if (!f || f->isDeclaration()) { R->incomplete.insert("no such entry"); results.push_back(std::move(hr)); continue; }
    work.clear();
    { auto s0 = std::make_unique<State>(base); S = s0.get(); try { pushFrame(finfos[f], {}); work.push_back(std::move(s0)); } catch (Unsupported& u) { incomplete(u.what); } }
    u64 started = 0;
    while (!work.empty()) {
      auto cur = std::move(work.back()); work.pop_back();
      S = cur.get(); started++;
      if (started > Cfg.maxPaths) { incomplete("path limit"); break; }
      if (R->steps > Cfg.maxSteps * 20) { incomplete("step limit"); break; }
      if (R->viol.size() >= Cfg.maxViol) break;
      int why = runPath();
      finishPath(why);
    }
    R->wall = now() - t0; R->q0 = gStats.queries - q0; R->t0 = gStats.time - st0;
    results.push_back(std::move(hr));
  }
  // functions and lines executed
  std::map<string, std::set<string>> fnByFile; std::set<string> lines; u64 insExec = 0, fnExec = 0;
  for (auto& p : finfos) {
    bool any = false;
    for (auto& b : p.second->blocks) for (auto& i : b->ins) if (i.hit) {
      any = true; insExec++;
      for (const DILocation* d = i.I->getDebugLoc(); d; d = d->getInlinedAt()) {
        string fn = d->getFilename().str(); if (prefix.size() && fn.find(prefix) == string::npos) continue;
        auto* sp = d->getScope()->getSubprogram(); if (!sp) continue;
        string nm = sp->getName().str();
        fnByFile[fn].insert(nm); lines.insert(fn + ":" + std::to_string(d->getLine()));
      }
    }
    if (any) fnExec++;
  }
  std::ostringstream o;
  o << "{\"harnesses\":[";
  for (size_t i = 0; i < results.size(); i++) {
    HRes& r = *results[i]; if (i) o << ",";
    o << "{\"name\":" << js(r.name) << ",\"paths\":" << r.paths << ",\"infeasible\":" << r.infeasible << ",\"viol_paths\":" << r.violPaths << ",\"steps\":" << r.steps << ",\"forks\":" << r.forks << ",\"sym_branches\":" << r.symBranches
      << ",\"checks\":" << r.checks << ",\"sym_checks\":" << r.symChecks << ",\"enums\":" << r.enums << ",\"max_depth\":" << r.maxDepth << ",\"syms\":" << r.syms << ",\"queries\":" << r.q0 << ",\"solver_s\":" << r.t0 << ",\"wall\":" << r.wall;
    o << ",\"covers\":{"; bool c1 = false; for (auto& c : r.covers) { if (c1) o << ","; c1 = true; o << js(c.first) << ":" << c.second; } o << "}";
    o << ",\"incomplete\":["; c1 = false; for (auto& c : r.incomplete) { if (c1) o << ","; c1 = true; o << js(c); } o << "]";
    o << ",\"violations\":["; 
    for (size_t k = 0; k < r.viol.size(); k++) { auto& v = r.viol[k]; if (k) o << ","; o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"undefs\":" << v.undefs << ",\"trace\":["; for (size_t q = 0; q < v.trace.size(); q++) { if (q) o << ","; o << js(v.trace[q]); } o << "],\"inputs\":"; putIn(o, v.in); o << "}"; }
    o << "],\"samples\":[";
    for (size_t k = 0; k < r.samples.size(); k++) { auto& v = r.samples[k]; if (k) o << ","; o << "{\"inputs\":"; putIn(o, v.in); o << ",\"undef\":" << (v.undefObs ? "true" : "false") << ",\"obs\":["; for (size_t q = 0; q < v.obs.size(); q++) { if (q) o << ","; o << "[" << js(v.obs[q].first) << "," << v.obs[q].second << "]"; } o << "]}"; }
    o << "]}";
  }
  o << "],\"queries\":" << gStats.queries << ",\"sat\":" << gStats.sat << ",\"unsat\":" << gStats.unsat << ",\"unknown\":" << gStats.unknown << ",\"patched\":" << gStats.patched << ",\"cache_hits\":" << gStats.cacheHits << ",\"solver_s\":" << gStats.time << ",\"max_query_s\":" << gStats.maxTime
    << ",\"wall\":" << now() << ",\"ir_instructions_executed_distinct\":" << insExec << ",\"ir_functions\":" << fnExec << ",\"repo_lines\":" << lines.size() << ",\"functions\":{";
  bool c1 = false;
  for (auto& p : fnByFile) { if (c1) o << ","; c1 = true; o << js(p.first) << ":["; bool c2 = false; for (auto& n : p.second) { if (c2) o << ","; c2 = true; o << js(n); } o << "]"; }
  o << "}}\n";
  if (out.empty()) fputs(o.str().c_str(), stdout);
  else if (FILE* fo = fopen(out.c_str(), "w")) { fputs(o.str().c_str(), fo); fclose(fo); }
  fflush(nullptr);
  _Exit(0);
}
