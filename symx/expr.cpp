#include "expr.h"
#include <algorithm>
#include <chrono>
#include <cassert>
#include <unordered_set>
#include <cstring>

std::vector<VarInfo> gVars;
std::vector<std::string> gArrs;
SolverStats gStats;
bool gCrossCheck = false;
std::string gDumpDir;

namespace {
struct Tab {
  std::vector<Expr*> t;
  size_t n = 0;
  Tab() : t(1 << 16, nullptr) {}
  static u64 hash(Op op, unsigned w, u128 c, E a, E b, E d) {
    u64 h = (u64)op * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((u64)c); mix((u64)(c >> 64)); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    return h;
  }
  E get(Op op, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
    u64 h = hash(op, w, c, a, b, d);
    size_t m = t.size() - 1, i = h & m;
    while (t[i]) {
      Expr* e = t[i];
      if (e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
      i = (i + 1) & m;
    }
    Expr* e = new Expr();
    e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = n;
    e->hasRead = op == Op::ReadArr || (a && a->hasRead) || (b && b->hasRead) || (d && d->hasRead);
    e->hasFp = op == Op::Fp || (a && a->hasFp) || (b && b->hasFp) || (d && d->hasFp);
    t[i] = e; n++;
    if (n * 2 > t.size()) grow();
    return e;
  }
  void grow() {
    std::vector<Expr*> o; o.swap(t); t.assign(o.size() * 2, nullptr);
    size_t m = t.size() - 1;
    for (auto* e : o) if (e) {
      size_t i = hash(e->op, e->w, e->c, e->k[0], e->k[1], e->k[2]) & m;
      while (t[i]) i = (i + 1) & m;
      t[i] = e;
    }
  }
};
Tab T;
inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s) - s);
}
}

static const VarSet kEmpty;
const VarSet& varsOf(E e0) {
  Expr* e = const_cast<Expr*>(e0);
  if (e->vars) return *e->vars;
  if (e->op == Op::Const) return kEmpty;
  if (e->op == Op::Var) { e->vars = std::make_shared<VarSet>(VarSet{(uint32_t)e->c}); return *e->vars; }
  // iterative-safe enough: depth of DAG is moderate
  std::shared_ptr<const VarSet> acc;
  VarSet tmp;
  bool first = true, owned = false;
  auto addset = [&](const VarSet& s, const std::shared_ptr<const VarSet>& sp) {
    if (s.empty()) return;
    if (first) { acc = sp; first = false; return; }
    const VarSet& cur = owned ? tmp : *acc;
    if (acc == sp && !owned) return;
    if (std::includes(cur.begin(), cur.end(), s.begin(), s.end())) return;
    VarSet r; r.reserve(cur.size() + s.size());
    std::set_union(cur.begin(), cur.end(), s.begin(), s.end(), std::back_inserter(r));
    tmp.swap(r); owned = true;
  };
  for (int i = 0; i < 3; i++) if (e->k[i]) { const VarSet& s = varsOf(e->k[i]); addset(s, e->k[i]->vars); }
  if (e->op == Op::ReadArr) {
    auto sp = std::make_shared<VarSet>(VarSet{0x80000000u | (uint32_t)e->c});
    addset(*sp, sp);
  }
  if (first) e->vars = std::make_shared<VarSet>();
  else if (owned) e->vars = std::make_shared<VarSet>(std::move(tmp));
  else e->vars = acc;
  return *e->vars;
}

E mkConst(u128 v, unsigned w) { return T.get(Op::Const, w, v & maskw(w)); }
E mkVar(const std::string& name, unsigned w, bool undef) {
  uint32_t id = gVars.size(); gVars.push_back({name, w, undef});
  return T.get(Op::Var, w, id);
}
uint32_t mkArr(const std::string& name) { gArrs.push_back(name); return gArrs.size() - 1; }
E mkReadArr(uint32_t arr, E idx) { return T.get(Op::ReadArr, 8, arr, idx); }

u128 umaxOf(E e, int d) {
  u128 m = maskw(e->w);
  if (d == 0) return m;
  switch (e->op) {
    case Op::Const: return e->c;
    case Op::ZExt: return umaxOf(e->k[0], d - 1);
    case Op::And: { u128 a = umaxOf(e->k[0], d - 1), b = umaxOf(e->k[1], d - 1); return a < b ? a : b; }
    case Op::URem: if (isC(e->k[1]) && e->k[1]->c) return e->k[1]->c - 1; return m;
    case Op::UDiv: if (isC(e->k[1]) && e->k[1]->c) return umaxOf(e->k[0], d - 1) / e->k[1]->c; return m;
    case Op::LShr: if (isC(e->k[1]) && e->k[1]->c < e->w) return umaxOf(e->k[0], d - 1) >> (unsigned)e->k[1]->c; return m;
    case Op::Ite: { u128 a = umaxOf(e->k[1], d - 1), b = umaxOf(e->k[2], d - 1); return a > b ? a : b; }
    case Op::Add: if (e->w <= 64) { u128 s = umaxOf(e->k[0], d - 1) + umaxOf(e->k[1], d - 1); return s < m ? s : m; } return m;
    case Op::Mul: if (e->w <= 64) { u128 a = umaxOf(e->k[0], d - 1), b = umaxOf(e->k[1], d - 1); u128 s = a * b; return s < m ? s : m; } return m;
    case Op::Shl: if (e->w <= 64 && isC(e->k[1]) && e->k[1]->c < e->w) { u128 s = umaxOf(e->k[0], d - 1) << (unsigned)e->k[1]->c; return s < m ? s : m; } return m;
    case Op::Concat: if (isC(e->k[0]) && e->w <= 128) return (e->k[0]->c << e->k[1]->w) | umaxOf(e->k[1], d - 1); return m;
    default: return m;
  }
}

static u64 fpEval(FpK k, unsigned w, unsigned sw, u64 a, u64 b) {
  auto D = [](u64 x) { double d; memcpy(&d, &x, 8); return d; }; auto F = [](u64 x) { uint32_t y = (uint32_t)x; float f; memcpy(&f, &y, 4); return f; };
  auto oD = [](double d) -> u64 { if (d != d) return 0xFFF8000000000000ull; u64 x; memcpy(&x, &d, 8); return x; }; auto oF = [](float f) -> u64 { if (f != f) return 0xFFC00000u; uint32_t x; memcpy(&x, &f, 4); return x; };
  auto ar = [&](auto x, auto y) { return k == FpK::Add ? x + y : k == FpK::Sub ? x - y : k == FpK::Mul ? x * y : x / y; };
  switch (k) {
    case FpK::Add: case FpK::Sub: case FpK::Mul: case FpK::Div: return w == 64 ? oD(ar(D(a), D(b))) : oF(ar(F(a), F(b)));
    case FpK::Ext: return oD((double)F(a));
    case FpK::Trunc: return oF((float)D(a));
    case FpK::FromS: { int64_t x = (int64_t)sx(a, sw); return w == 64 ? oD((double)x) : oF((float)x); }
    case FpK::FromU: return w == 64 ? oD((double)a) : oF((float)a);
    case FpK::ToS: { double x = sw == 64 ? D(a) : F(a); double l = -__builtin_ldexp(1, w - 1); if (!(__builtin_trunc(x) >= l && x < -l)) return 1ull << (w - 1); return (u64)(int64_t)x; }
    case FpK::ToU: { double x = sw == 64 ? D(a) : F(a); if (!(__builtin_trunc(x) >= 0 && x < __builtin_ldexp(1, w))) return 1ull << (w - 1); return (u64)x; }
  }
  return 0;
}
E mkFp(FpK k, unsigned w, E a, E b) {
  unsigned sw = a->w;
  if (isC(a) && (!b || isC(b))) return mkConst(fpEval(k, w, sw, (u64)a->c, b ? (u64)b->c : 0), w);
  return T.get(Op::Fp, w, (u128)(unsigned)k | (u128)sw << 8, a, b);
}
E mkNot(E a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->op == Op::Not) return a->k[0];
  if (a->w == 1) {
    if (a->op == Op::Ult) return mkUle(a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkUlt(a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  }
  return T.get(Op::Not, a->w, 0, a);
}
E mkNeg(E a) {
  if (isC(a)) return mkConst(-a->c, a->w);
  if (a->op == Op::Neg) return a->k[0];
  return T.get(Op::Neg, a->w, 0, a);
}
E mkAdd(E a, E b) {
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(b)) {
    if (b->c == 0) return a;
    if (isC(a)) return mkConst(a->c + b->c, w);
    if (a->op == Op::Add && isC(a->k[1])) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (a->op == Op::Sub && isC(a->k[0])) return mkSub(mkConst(a->k[0]->c + b->c, w), a->k[1]);
  } else {
    if (a->op == Op::Add && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == Op::Add && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
    if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
    if (b->op == Op::Neg) return mkSub(a, b->k[0]);
    if (a->op == Op::Neg) return mkSub(b, a->k[0]);
    if (a->id > b->id) std::swap(a, b);
  }
  return T.get(Op::Add, w, 0, a, b);
}
E mkSub(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, w);
  if (isC(b)) return mkAdd(a, mkConst(-b->c, w));
  if (isC(a) && a->c == 0) return mkNeg(b);
  if (a->op == Op::Add && isC(a->k[1])) return mkAdd(mkSub(a->k[0], b), a->k[1]);
  if (b->op == Op::Add && isC(b->k[1])) return mkAdd(mkSub(a, b->k[0]), mkConst(-b->k[1]->c, w));
  if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
  if (b->op == Op::Add) { if (b->k[0] == a) return mkNeg(b->k[1]); if (b->k[1] == a) return mkNeg(b->k[0]); }
  if (a->op == Op::Sub && a->k[0] == b) return mkNeg(a->k[1]);
  if (b->op == Op::Sub && b->k[0] == a) return b->k[1];
  if (a->op == Op::Add && b->op == Op::Add) {
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
      if (a->k[i] == b->k[j]) return mkSub(a->k[1 - i], b->k[1 - j]);
  }
  return T.get(Op::Sub, w, 0, a, b);
}
static int log2exact(u128 v) {
  if (v == 0 || (v & (v - 1))) return -1;
  int n = 0; while (v >>= 1) n++; return n;
}
E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c == b->c, 1);
    if (a->w == 1) return b->c ? a : mkNot(a);
    if (a->op == Op::Add && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w));
    if (a->op == Op::Sub && isC(a->k[0])) return mkEq(a->k[1], mkConst(a->k[0]->c - b->c, a->w));
    if (a->op == Op::Neg) return mkEq(a->k[0], mkConst(-b->c, a->w));
    if (a->op == Op::Not) return mkEq(a->k[0], mkConst(~b->c, a->w));
    if (a->op == Op::ZExt) {
      if (b->c >> a->k[0]->w) return mkFalse();
      return mkEq(a->k[0], mkConst(b->c, a->k[0]->w));
    }
    if (a->op == Op::SExt) {
      unsigned n = a->k[0]->w;
      if (((u128)sx(b->c & maskw(n), n) & maskw(a->w)) != b->c) return mkFalse();
      return mkEq(a->k[0], mkConst(b->c, n));
    }
    if (a->op == Op::Concat && a->w <= 128)
      return mkAnd(mkEq(a->k[1], mkConst(b->c, a->k[1]->w)), mkEq(a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)));
    if (a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2]))) {
      if (isC(a->k[1]) && isC(a->k[2])) {
        bool x = a->k[1]->c == b->c, y = a->k[2]->c == b->c;
        if (x && y) return mkTrue();
        if (!x && !y) return mkFalse();
        return x ? a->k[0] : mkNot(a->k[0]);
      }
      if (isC(a->k[1])) return a->k[1]->c == b->c ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkAnd(mkNot(a->k[0]), mkEq(a->k[2], b));
      return a->k[2]->c == b->c ? mkOr(mkNot(a->k[0]), mkEq(a->k[1], b)) : mkAnd(a->k[0], mkEq(a->k[1], b));
    }
    if (a->op == Op::Xor && isC(a->k[1])) return mkEq(a->k[0], mkConst(a->k[1]->c ^ b->c, a->w));
    if (b->c > umaxOf(a)) return mkFalse();
  } else {
    if (a->op == Op::Add && isC(a->k[1]) && b->op == Op::Add && isC(b->k[1]))
      return mkEq(mkAdd(a->k[0], mkConst(a->k[1]->c - b->k[1]->c, a->w)), b->k[0]);
    if (a->op == Op::Add && (a->k[0] == b || a->k[1] == b)) return mkEq(a->k[0] == b ? a->k[1] : a->k[0], mkConst(0, a->w));
    if (b->op == Op::Add && (b->k[0] == a || b->k[1] == a)) return mkEq(b->k[0] == a ? b->k[1] : b->k[0], mkConst(0, a->w));
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == Op::Concat && b->op == Op::Concat && a->k[0]->w == b->k[0]->w)
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->w == 1) {
      if (a->op == Op::Not && b->op == Op::Not) return mkEq(a->k[0], b->k[0]);
      if (a->op == Op::Not && a->k[0] == b) return mkFalse();
      if (b->op == Op::Not && b->k[0] == a) return mkFalse();
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return T.get(Op::Eq, 1, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  return T.get(Op::Ite, a->w, 0, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case Op::Const: return mkConst(a->c >> lo, w);
    case Op::Extract: return mkExtract(a->k[0], (unsigned)a->c + lo, w);
    case Op::Concat: {
      unsigned lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
      unsigned n = a->k[0]->w;
      if (lo >= n) return mkConst(0, w);
      if (lo + w <= n) return mkExtract(a->k[0], lo, w);
      return mkZExt(mkExtract(a->k[0], lo, n - lo), w);
    }
    case Op::SExt: {
      unsigned n = a->k[0]->w;
      if (lo + w <= n) return mkExtract(a->k[0], lo, w);
      if (lo < n) return mkSExt(mkExtract(a->k[0], lo, n - lo), w);
      return mkSExt(mkExtract(a->k[0], n - 1, 1), w);
    }
    case Op::Ite: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::Not: return mkNot(mkExtract(a->k[0], lo, w));
    case Op::Shl:
      if (isC(a->k[1])) {
        u128 s = a->k[1]->c;
        if (s >= a->w) return mkConst(0, w);
        if (lo >= s) return mkExtract(a->k[0], lo - (unsigned)s, w);
        if (lo + w <= s) return mkConst(0, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - (unsigned)s), mkConst(0, (unsigned)s - lo));
      }
      break;
    case Op::LShr:
      if (isC(a->k[1])) {
        u128 s = a->k[1]->c;
        if (s >= a->w) return mkConst(0, w);
        if (lo + s >= a->w) return mkConst(0, w);
        if (lo + s + w <= a->w) return mkExtract(a->k[0], lo + (unsigned)s, w);
        return mkZExt(mkExtract(a->k[0], lo + (unsigned)s, a->w - lo - (unsigned)s), w);
      }
      break;
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    case Op::Neg: if (lo == 0) return mkNeg(mkExtract(a->k[0], 0, w)); break;
    default: break;
  }
  return T.get(Op::Extract, w, lo, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 128) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return mkExtract(hi->k[0], (unsigned)lo->c, w);
  // Concat(Extract(x, n, m), y) where y == Extract... handled above; Concat(ext, Concat(ext', z))
  if (lo->op == Op::Concat) {
    E h2 = lo->k[0];
    if (hi->op == Op::Extract && h2->op == Op::Extract && hi->k[0] == h2->k[0] && hi->c == h2->c + h2->w)
      return mkConcat(mkExtract(hi->k[0], (unsigned)h2->c, hi->w + h2->w), lo->k[1]);
    if (isC(hi) && isC(h2) && hi->w + h2->w <= 128) return mkConcat(mkConcat(hi, h2), lo->k[1]);
  }
  if (hi->op == Op::Extract && hi->c == lo->w && hi->k[0]->w > 0 && lo->op == Op::Extract && lo->k[0] == hi->k[0] && lo->c == 0)
    return mkExtract(hi->k[0], 0, w);
  if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  return T.get(Op::Concat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  return T.get(Op::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  return T.get(Op::SExt, w, 0, a);
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op=%d %u %u\n", (int)op, a->w, b->w); abort(); }
  switch (op) {
    case Op::Add: return mkAdd(a, b);
    case Op::Sub: return mkSub(a, b);
    case Op::Eq: return mkEq(a, b);
    default: break;
  }
  if (isC(a) && isC(b)) {
    u128 x = a->c, y = b->c;
    switch (op) {
      case Op::Mul: return mkConst(x * y, w);
      case Op::UDiv: return mkConst(y ? x / y : maskw(w), w);
      case Op::URem: return mkConst(y ? x % y : x, w);
      case Op::SDiv: { __int128 p = sx(x, w), q = sx(y, w); return mkConst(q == 0 ? (p < 0 ? 1 : maskw(w)) : (q == -1 ? -(u128)p : (u128)(p / q)), w); }
      case Op::SRem: { __int128 p = sx(x, w), q = sx(y, w); return mkConst(q == 0 ? x : (q == -1 ? 0 : (u128)(p % q)), w); }
      case Op::And: return mkConst(x & y, w);
      case Op::Or: return mkConst(x | y, w);
      case Op::Xor: return mkConst(x ^ y, w);
      case Op::Shl: return mkConst(y >= w ? 0 : x << (unsigned)y, w);
      case Op::LShr: return mkConst(y >= w ? 0 : x >> (unsigned)y, w);
      case Op::AShr: { __int128 p = sx(x, w); return mkConst((u128)(p >> (y >= w ? w - 1 : (unsigned)y)), w); }
      case Op::Ult: return mkConst(x < y, 1);
      case Op::Ule: return mkConst(x <= y, 1);
      case Op::Slt: return mkConst(sx(x, w) < sx(y, w), 1);
      case Op::Sle: return mkConst(sx(x, w) <= sx(y, w), 1);
      default: break;
    }
  }
  switch (op) {
    case Op::Mul: {
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        int l = log2exact(b->c);
        if (l > 0) return mkBin(Op::Shl, a, mkConst(l, w));
        if (a->op == Op::Mul && isC(a->k[1])) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->c * b->c, w));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    }
    case Op::UDiv: if (isC(b)) { if (b->c == 1) return a; int l = log2exact(b->c); if (l > 0) return mkBin(Op::LShr, a, mkConst(l, w)); } break;
    case Op::URem: if (isC(b)) { if (b->c == 1) return mkConst(0, w); int l = log2exact(b->c); if (l > 0) return mkBin(Op::And, a, mkConst(b->c - 1, w)); if (umaxOf(a) < b->c) return a; } break;
    case Op::And:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == maskw(w)) return a;
        if (a->op == Op::And && isC(a->k[1])) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, w));
        // low mask: zext(extract)
        u128 m1 = b->c + 1;
        int l = log2exact(m1);
        if (l > 0 && l < (int)w) return mkZExt(mkExtract(a, 0, l), w);
      } else {
        if (w == 1) {
          if (a->op == Op::Not && a->k[0] == b) return mkFalse();
          if (b->op == Op::Not && b->k[0] == a) return mkFalse();
          if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
          if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
        }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case Op::Or:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; }
      else {
        if (w == 1) {
          if (a->op == Op::Not && a->k[0] == b) return mkTrue();
          if (b->op == Op::Not && b->k[0] == a) return mkTrue();
        }
        // or of disjoint zext/shl -> concat
        auto asShl = [](E x, E y) -> E {
          if (x->op == Op::Shl && isC(x->k[1]) && y->op == Op::ZExt && x->k[1]->c == y->k[0]->w) {
            unsigned lw = y->k[0]->w;
            return mkConcat(mkExtract(x->k[0], 0, x->w - lw), y->k[0]);
          }
          return nullptr;
        };
        if (E r = asShl(a, b)) return r;
        if (E r = asShl(b, a)) return r;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case Op::Xor:
      if (isC(a)) std::swap(a, b);
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return mkNot(a);
        if (a->op == Op::Xor && isC(a->k[1])) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); }
      else if (a->id > b->id) std::swap(a, b);
      break;
    case Op::Shl: case Op::LShr: case Op::AShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w && op != Op::AShr) return mkConst(0, w);
        if (op == Op::LShr && b->c < w) return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        if (op == Op::AShr && b->c < w) {
          // exact ashr of non-negative small product: fall through to sext(extract)
          return mkSExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        }
        if (op == Op::Shl && a->op == Op::Shl && isC(a->k[1]) && a->k[1]->c + b->c < w)
          return mkBin(Op::Shl, a->k[0], mkConst(a->k[1]->c + b->c, w));
      }
      if (isC(a) && a->c == 0) return a;
      break;
    case Op::Ult:
      if (a == b) return mkFalse();
      if (isC(b)) { if (b->c == 0) return mkFalse(); if (umaxOf(a) < b->c) return mkTrue(); if (b->c == 1) return mkEq(a, mkConst(0, w));
        if (a->op == Op::ZExt) { if (b->c > maskw(a->k[0]->w)) return mkTrue(); return mkUlt(a->k[0], mkConst(b->c, a->k[0]->w)); } }
      if (isC(a)) { if (a->c == maskw(w)) return mkFalse(); if (umaxOf(b) <= a->c) return mkFalse(); if (a->c == 0) return mkNe(b, a);
        if (b->op == Op::ZExt) { if (a->c > maskw(b->k[0]->w)) return mkFalse(); return mkUlt(mkConst(a->c, b->k[0]->w), b->k[0]); } }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkUlt(a->k[0], b->k[0]);
      break;
    case Op::Ule:
      if (a == b) return mkTrue();
      if (isC(b)) { if (umaxOf(a) <= b->c) return mkTrue(); if (b->c == 0) return mkEq(a, b);
        if (a->op == Op::ZExt) { if (b->c >= maskw(a->k[0]->w)) return mkTrue(); return mkUle(a->k[0], mkConst(b->c, a->k[0]->w)); } }
      if (isC(a)) { if (a->c == 0) return mkTrue(); if (umaxOf(b) < a->c) return mkFalse();
        if (b->op == Op::ZExt) { if (a->c > maskw(b->k[0]->w)) return mkFalse(); return mkUle(mkConst(a->c, b->k[0]->w), b->k[0]); } }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkUle(a->k[0], b->k[0]);
      break;
    case Op::Slt: case Op::Sle:
      if (a == b) return mkConst(op == Op::Sle, 1);
      { u128 lim = maskw(w) >> 1; // both provably non-negative -> unsigned compare
        if (umaxOf(a) <= lim && umaxOf(b) <= lim) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b); }
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      break;
    default: break;
  }
  bool pred = op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
  return T.get(op, pred ? 1 : w, 0, a, b);
}

static u64 gEpoch = 1;
void newEvalEpoch() { gEpoch++; }
static u128 evalRec(E e, const Model& m) {
  if (e->op == Op::Const) return e->c;
  if (e->epoch == gEpoch) return e->val;
  unsigned w = e->w; u128 r = 0;
  auto K = [&](int i) { return evalRec(e->k[i], m); };
  switch (e->op) {
    case Op::Const: r = e->c; break;
    case Op::Var: r = m.get((uint32_t)e->c); break;
    case Op::ReadArr: { auto it = m.arr.find({(uint32_t)e->c, (u64)K(0)}); r = it == m.arr.end() ? 0 : it->second; break; }
    case Op::Not: r = ~K(0); break;
    case Op::Neg: r = -K(0); break;
    case Op::Add: r = K(0) + K(1); break;
    case Op::Sub: r = K(0) - K(1); break;
    case Op::Mul: r = K(0) * K(1); break;
    case Op::And: r = K(0) & K(1); break;
    case Op::Or: r = K(0) | K(1); break;
    case Op::Xor: r = K(0) ^ K(1); break;
    case Op::Eq: r = K(0) == K(1); break;
    case Op::Ult: r = K(0) < K(1); break;
    case Op::Ule: r = K(0) <= K(1); break;
    case Op::Slt: r = sx(K(0), e->k[0]->w) < sx(K(1), e->k[0]->w); break;
    case Op::Sle: r = sx(K(0), e->k[0]->w) <= sx(K(1), e->k[0]->w); break;
    case Op::Ite: r = K(0) ? K(1) : K(2); break;
    case Op::Concat: r = (K(0) << e->k[1]->w) | K(1); break;
    case Op::Extract: r = K(0) >> (unsigned)e->c; break;
    case Op::ZExt: r = K(0); break;
    case Op::SExt: r = (u128)sx(K(0), e->k[0]->w); break;
    case Op::Fp: r = fpEval((FpK)(e->c & 255), w, (unsigned)(e->c >> 8), (u64)K(0), e->k[1] ? (u64)K(1) : 0); break;
    default: r = mkBin(e->op, mkConst(K(0), w), mkConst(K(1), w))->c; break;
  }
  r &= maskw(w);
  e->epoch = gEpoch; e->val = r;
  return r;
}
u128 evalE(E e, const Model& m) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Var) return m.get((uint32_t)e->c);
  newEvalEpoch();
  return evalRec(e, m);
}

std::string exprStr(E e, int d) {
  static const char* n[] = {"c","v","rd","not","neg","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","cat","ext","zx","sx","fp"};
  char b[80];
  if (e->op == Op::Const) { snprintf(b, sizeof b, "%llx:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == Op::Var) return gVars[(uint32_t)e->c].name + "#" + std::to_string((uint32_t)e->c);
  if (d == 0) return "...";
  std::string s = "("; s += n[(int)e->op];
  if (e->op == Op::Extract || e->op == Op::ReadArr) s += "[" + std::to_string((u64)e->c) + "," + std::to_string(e->w) + "]";
  if (e->op == Op::ZExt || e->op == Op::SExt) s += std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- Z3
static Z3_context C;
static Z3_solver S, SF; // bit vectors; bit vectors and floating point
static unsigned gTimeout = 20000;
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); exit(97);
}
void solverInit(unsigned timeoutMs, unsigned seed) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, zerr);
  gTimeout = timeoutMs;
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, S);
  SF = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
  Z3_solver_inc_ref(C, SF);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), seed);
  Z3_solver_set_params(C, S, p); Z3_solver_set_params(C, SF, p);
  Z3_params_dec_ref(C, p);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast zbv(E e);
static Z3_ast zbool(E e);
static Z3_ast znum(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  Z3_inc_ref(C, (Z3_ast)s); // sorts stay alive for the run
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, s);
  char buf[64]; int n = 63; buf[n] = 0;
  if (!v) buf[--n] = '0';
  while (v) { buf[--n] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(C, buf + n, s);
}
static Z3_ast zbool(E e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->op) {
    case Op::Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Op::Not: r = Z3_mk_not(C, zbool(e->k[0])); break;
    case Op::And: { Z3_ast a[2] = {zbool(e->k[0]), zbool(e->k[1])}; r = Z3_mk_and(C, 2, a); break; }
    case Op::Or: { Z3_ast a[2] = {zbool(e->k[0]), zbool(e->k[1])}; r = Z3_mk_or(C, 2, a); break; }
    case Op::Xor: r = Z3_mk_xor(C, zbool(e->k[0]), zbool(e->k[1])); break;
    case Op::Eq: if (e->k[0]->w == 1) r = Z3_mk_iff(C, zbool(e->k[0]), zbool(e->k[1])); else r = Z3_mk_eq(C, zbv(e->k[0]), zbv(e->k[1])); break;
    case Op::Ult: r = Z3_mk_bvult(C, zbv(e->k[0]), zbv(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(C, zbv(e->k[0]), zbv(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(C, zbv(e->k[0]), zbv(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(C, zbv(e->k[0]), zbv(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(C, zbool(e->k[0]), zbool(e->k[1]), zbool(e->k[2])); break;
    default: { static Z3_ast one = keep(znum(1, 1)); r = Z3_mk_eq(C, zbv(e), one); break; }
  }
  return e->zbool = keep(r);
}
static Z3_ast zfp(E e) {
  FpK k = (FpK)(e->c & 255); unsigned sw = (unsigned)(e->c >> 8), w = e->w;
  auto sort = [&](unsigned n) { Z3_sort s = n == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, (Z3_ast)s); return s; };
  auto fp = [&](int i) { return keep(Z3_mk_fpa_to_fp_bv(C, zbv(e->k[i]), sort(e->k[i]->w))); };
  Z3_ast rne = keep(Z3_mk_fpa_rne(C)), rtz = keep(Z3_mk_fpa_rtz(C)), f = nullptr;
  switch (k) {
    case FpK::Add: f = Z3_mk_fpa_add(C, rne, fp(0), fp(1)); break;
    case FpK::Sub: f = Z3_mk_fpa_sub(C, rne, fp(0), fp(1)); break;
    case FpK::Mul: f = Z3_mk_fpa_mul(C, rne, fp(0), fp(1)); break;
    case FpK::Div: f = Z3_mk_fpa_div(C, rne, fp(0), fp(1)); break;
    case FpK::Ext: case FpK::Trunc: f = Z3_mk_fpa_to_fp_float(C, rne, fp(0), sort(w)); break;
    case FpK::FromS: f = Z3_mk_fpa_to_fp_signed(C, rne, zbv(e->k[0]), sort(w)); break;
    case FpK::FromU: f = Z3_mk_fpa_to_fp_unsigned(C, rne, zbv(e->k[0]), sort(w)); break;
    case FpK::ToS: case FpK::ToU: {
      Z3_ast x = fp(0), t = keep(Z3_mk_fpa_round_to_integral(C, rtz, x)); double hi = __builtin_ldexp(1, k == FpK::ToS ? w - 1 : w);
      Z3_ast lo = keep(Z3_mk_fpa_numeral_double(C, k == FpK::ToS ? -hi : 0.0, sort(sw))), up = keep(Z3_mk_fpa_numeral_double(C, hi, sort(sw)));
      Z3_ast in[2] = {keep(Z3_mk_fpa_geq(C, t, lo)), keep(Z3_mk_fpa_lt(C, x, up))};
      Z3_ast v = keep(k == FpK::ToS ? Z3_mk_fpa_to_sbv(C, rtz, x, w) : Z3_mk_fpa_to_ubv(C, rtz, x, w));
      return Z3_mk_ite(C, keep(Z3_mk_and(C, 2, in)), v, keep(znum((u128)1 << (w - 1), w)));
    }
  }
  keep(f);
  return Z3_mk_ite(C, keep(Z3_mk_fpa_is_nan(C, f)), keep(znum(w == 64 ? 0xFFF8000000000000ull : 0xFFC00000u, w)), keep(Z3_mk_fpa_to_ieee_bv(C, f)));
}
static Z3_ast zbv(E e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  auto B = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(C, zbv(e->k[0]), zbv(e->k[1])); };
  switch (e->op) {
    case Op::Const: r = znum(e->c, e->w); break;
    case Op::Var: { std::string n = "v" + std::to_string((u64)e->c); Z3_symbol y = Z3_mk_string_symbol(C, n.c_str()); r = Z3_mk_const(C, y, Z3_mk_bv_sort(C, e->w)); break; }
    case Op::ReadArr: { std::string n = "r" + std::to_string(e->id); Z3_symbol y = Z3_mk_string_symbol(C, n.c_str()); r = Z3_mk_const(C, y, Z3_mk_bv_sort(C, 8)); break; }
    case Op::Not: if (e->w == 1) goto viaBool; r = Z3_mk_bvnot(C, zbv(e->k[0])); break;
    case Op::Neg: r = Z3_mk_bvneg(C, zbv(e->k[0])); break;
    case Op::Add: r = B(Z3_mk_bvadd); break;
    case Op::Sub: r = B(Z3_mk_bvsub); break;
    case Op::Mul: r = B(Z3_mk_bvmul); break;
    case Op::UDiv: r = B(Z3_mk_bvudiv); break;
    case Op::SDiv: r = B(Z3_mk_bvsdiv); break;
    case Op::URem: r = B(Z3_mk_bvurem); break;
    case Op::SRem: r = B(Z3_mk_bvsrem); break;
    case Op::And: r = B(Z3_mk_bvand); break;
    case Op::Or: r = B(Z3_mk_bvor); break;
    case Op::Xor: r = B(Z3_mk_bvxor); break;
    case Op::Shl: r = B(Z3_mk_bvshl); break;
    case Op::LShr: r = B(Z3_mk_bvlshr); break;
    case Op::AShr: r = B(Z3_mk_bvashr); break;
    case Op::Ite: r = Z3_mk_ite(C, zbool(e->k[0]), zbv(e->k[1]), zbv(e->k[2])); break;
    case Op::Concat: r = B(Z3_mk_concat); break;
    case Op::Extract: r = Z3_mk_extract(C, (unsigned)e->c + e->w - 1, (unsigned)e->c, zbv(e->k[0])); break;
    case Op::ZExt: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, zbv(e->k[0])); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, zbv(e->k[0])); break;
    case Op::Fp: r = zfp(e); break;
    default:
    viaBool: { static Z3_ast one = keep(znum(1, 1)), zero = keep(znum(0, 1)); r = Z3_mk_ite(C, zbool(e), one, zero); break; }
  }
  return e->zbv = keep(r);
}
static void collectReads(E e, std::vector<E>& out, std::unordered_set<E>& seen) {
  if (!e->hasRead || !seen.insert(e).second) return;
  if (e->op == Op::ReadArr) out.push_back(e);
  for (int i = 0; i < 3; i++) if (e->k[i]) collectReads(e->k[i], out, seen);
}
struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, u64>> v; std::vector<std::pair<std::pair<uint32_t, u64>, uint8_t>> a; };
static std::unordered_map<std::string, CacheEnt> gCache;

std::string toSmt2(const std::vector<E>& cs) {
  Z3_solver s2 = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s2);
  std::vector<E> reads; std::unordered_set<E> seen;
  for (E c : cs) { Z3_solver_assert(C, s2, zbool(c)); collectReads(c, reads, seen); }
  for (size_t i = 0; i < reads.size(); i++) for (size_t j = 0; j < i; j++)
    if (reads[i]->c == reads[j]->c) {
      E q = mkEq(reads[i]->k[0], reads[j]->k[0]); if (isC(q) && !q->c) continue;
      { Z3_ast zq = zbool(q), zi = zbv(reads[i]), zj = zbv(reads[j]); Z3_solver_assert(C, s2, Z3_mk_implies(C, zq, Z3_mk_eq(C, zi, zj))); }
    }
  std::string r = Z3_solver_to_string(C, s2); Z3_solver_dec_ref(C, s2);
  bool fpq = false; for (E c : cs) fpq |= c->hasFp;
  return (fpq ? "(set-logic QF_FPBV)\n" : "(set-logic QF_BV)\n") + r + "(check-sat)\n";
}

Sat solve(const std::vector<E>& cs0, Model* out) {
  std::vector<E> cs;
  for (E c : cs0) { if (isC(c)) { if (!c->c) return Sat::Unsat; continue; } cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key((size_t)cs.size() * 4, 0);
  for (size_t i = 0; i < cs.size(); i++) memcpy(&key[i * 4], &cs[i]->id, 4);
  auto fill = [&](const CacheEnt& ce) {
    if (!out || ce.r != Sat::Sat) return;
    for (auto& p : ce.v) { if (out->v.size() <= p.first) out->v.resize(p.first + 1, 0); out->v[p.first] = p.second; }
    for (auto& p : ce.a) out->arr[p.first] = p.second;
  };
  auto it = gCache.find(key);
  if (it != gCache.end()) { gStats.cacheHits++; fill(it->second); return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ce;
  bool fpq = false; for (E c : cs) fpq |= c->hasFp;
  Z3_solver S = fpq ? ::SF : ::S;
  Z3_solver_reset(C, S);
  std::vector<E> reads; std::unordered_set<E> seen;
  for (E c : cs) { Z3_solver_assert(C, S, zbool(c)); collectReads(c, reads, seen); }
  for (size_t i = 0; i < reads.size(); i++) for (size_t j = 0; j < i; j++)
    if (reads[i]->c == reads[j]->c) {
      E q = mkEq(reads[i]->k[0], reads[j]->k[0]);
      if (isC(q) && !q->c) continue;
      { Z3_ast zq = zbool(q), zi = zbv(reads[i]), zj = zbv(reads[j]); Z3_solver_assert(C, S, Z3_mk_implies(C, zq, Z3_mk_eq(C, zi, zj))); }
    }
  Z3_lbool r = Z3_solver_check(C, S);
  gStats.queries++;
  if (r == Z3_L_TRUE) {
    ce.r = Sat::Sat; gStats.sat++;
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    VarSet all;
    for (E c : cs) { const VarSet& v = varsOf(c); all.insert(all.end(), v.begin(), v.end()); }
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    Model tmp;
    for (uint32_t id : all) if (!(id & 0x80000000u)) {
      E v = T.get(Op::Var, gVars[id].w, id);
      Z3_ast o; u64 x = 0;
      if (Z3_model_eval(C, m, zbv(v), true, &o)) Z3_get_numeral_uint64(C, o, &x);
      ce.v.push_back({id, x});
      if (tmp.v.size() <= id) tmp.v.resize(id + 1, 0);
      tmp.v[id] = x;
    }
    for (size_t i = reads.size(); i-- > 0;) { // inner reads come later in the list: evaluate them first
      Z3_ast o; u64 x = 0, ix = 0;
      if (Z3_model_eval(C, m, zbv(reads[i]), true, &o)) Z3_get_numeral_uint64(C, o, &x);
      if (Z3_model_eval(C, m, zbv(reads[i]->k[0]), true, &o)) Z3_get_numeral_uint64(C, o, &ix);
      ce.a.push_back({{(uint32_t)reads[i]->c, ix}, (uint8_t)x});
    }
    Z3_model_dec_ref(C, m);
  } else if (r == Z3_L_FALSE) { ce.r = Sat::Unsat; gStats.unsat++; }
  else { ce.r = Sat::Unknown; gStats.unknown++; }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.time += dt; if (dt > gStats.maxTime) gStats.maxTime = dt;
  if (!gDumpDir.empty()) {
    std::string fn = gDumpDir + "/q" + std::to_string(gStats.queries) + (ce.r == Sat::Sat ? ".sat" : ce.r == Sat::Unsat ? ".unsat" : ".unk") + ".smt2";
    if (FILE* f = fopen(fn.c_str(), "w")) { fputs(toSmt2(cs).c_str(), f); fclose(f); }
  }
  fill(ce);
  if (ce.r != Sat::Unknown) gCache.emplace(std::move(key), std::move(ce));
  else return Sat::Unknown;
  return r == Z3_L_TRUE ? Sat::Sat : Sat::Unsat;
}
