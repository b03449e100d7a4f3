// Polymorphic hierarchies: base-class-template form, macro form, abstract root, three levels, nested polymorphic members.
#pragma once
namespace zoo {
struct PBase : checkpoint::SerializableBase<PBase> {
  int b = 0; PBase() = default; explicit PBase(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~PBase() = default; SER { s | b; }
  virtual int kind() const { return 0; } virtual bool sameSub(const PBase& o) const { return b == o.b; }
  bool same(const PBase& o) const { return kind() == o.kind() && typeid(*this) == typeid(o) && sameSub(o); }
  static PBase* genPtr();
};
struct PD1 : checkpoint::SerializableDerived<PD1, PBase> { double d = 0; string s; PD1() = default; explicit PD1(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} template <class S> void serialize(S& z) { z | d; z | s; } int kind() const override { return 1; } bool sameSub(const PBase& o) const override { auto& q = static_cast<const PD1&>(o); return (b == q.b) & zoo::same(d, q.d) & zoo::same(s, q.s); } };
struct PD2 : checkpoint::SerializableDerived<PD2, PBase> { char c = 0; vector<int> v; PD2() = default; explicit PD2(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} static PD2 gen() { PD2 r; r.b = make<int>(); r.c = make<char>(); r.v = make<vector<int>>(); return r; } SER { s | c; s | v; } int kind() const override { return 2; } bool sameSub(const PBase& o) const override { auto& q = static_cast<const PD2&>(o); return (b == q.b) & (c == q.c) & zoo::same(v, q.v); } };
struct PD11 : checkpoint::SerializableDerived<PD11, PD1> { short z = 0; Pt p; PD11() = default; explicit PD11(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} static PD11 gen() { PD11 r; r.b = make<int>(); r.d = make<double>(); r.s = make<string>(); r.z = make<short>(); r.p = Pt::gen(); return r; } SER { s | z; s | p; } int kind() const override { return 3; } bool sameSub(const PBase& o) const override { auto& q = static_cast<const PD11&>(o); return PD1::sameSub(o) & (z == q.z) & p.same(q.p); } };
struct PD3 : checkpoint::SerializableDerived<PD3, PBase> { unique_ptr<PBase> in; int t = 0; PD3() = default; explicit PD3(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} SER { s | in; s | t; } int kind() const override { return 4; } bool sameSub(const PBase& o) const override { auto& q = static_cast<const PD3&>(o); if ((b != q.b) | (t != q.t)) return false; if (!in || !q.in) return !in && !q.in; return in.get() != q.in.get() && in->same(*q.in); } };
inline PBase* mkP(size_t k, int depth) {
  switch (k) {
    case 0: { auto* p = new PBase; p->b = make<int>(); return p; }
    case 1: { auto* p = new PD1; p->b = make<int>(); p->d = make<double>(); p->s = make<string>(); return p; }
    case 2: { auto* p = new PD2; p->b = make<int>(); p->c = make<char>(); p->v = make<vector<int>>(); return p; }
    case 3: { auto* p = new PD11; p->b = make<int>(); p->d = make<double>(); p->s = make<string>(); p->z = make<short>(); p->p = Pt::gen(); return p; }
    default: { auto* p = new PD3; p->b = make<int>(); p->t = make<int>(); if (depth < 2) { size_t j = gen::choose("in", depth ? 3 : 4); p->in.reset(mkP(j, depth + 1)); } return p; }
  }
}
inline PBase* PBase::genPtr() { return mkP(gen::choose("dyn", 4), 0); }
// macro form, abstract root, non-trivial second level
struct MBase { checkpoint_virtual_serialize_root()
  long m = 0; MBase() = default; explicit MBase(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~MBase() = default; virtual int tag() const = 0; SER { s | m; } bool same(const MBase& o) const { return tag() == o.tag() && sub(o); } virtual bool sub(const MBase& o) const { return m == o.m; } static MBase* genPtr(); };
struct MD1 : MBase { checkpoint_virtual_serialize_derived_from(MBase)
  int x = 0; MD1() = default; explicit MD1(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} int tag() const override { return 1; } SER { s | x; } bool sub(const MBase& o) const override { return (m == o.m) & (x == static_cast<const MD1&>(o).x); } };
struct MD2 : MD1 { checkpoint_virtual_serialize_derived_from(MD1)
  string y; MD2() = default; explicit MD2(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} int tag() const override { return 2; } SER { s | y; } bool sub(const MBase& o) const override { return MD1::sub(o) & zoo::same(y, static_cast<const MD2&>(o).y); } };
struct MD3 : MD2 { checkpoint_virtual_serialize_derived_from(MD2)
  unsigned char w = 0; MD3() = default; explicit MD3(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} int tag() const override { return 3; } SER { s | w; } bool sub(const MBase& o) const override { return MD2::sub(o) & (w == static_cast<const MD3&>(o).w); } };
inline MBase* MBase::genPtr() { size_t k = gen::choose("mdyn", 2); if (k == 0) { auto* p = new MD1; p->m = make<long>(); p->x = make<int>(); return p; } if (k == 1) { auto* p = new MD2; p->m = make<long>(); p->x = make<int>(); p->y = make<string>(); return p; } auto* p = new MD3; p->m = make<long>(); p->x = make<int>(); p->y = make<string>(); p->w = make<unsigned char>(); return p; }
struct ABase : checkpoint::SerializableBase<ABase> { char a = 0; ABase() = default; explicit ABase(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~ABase() = default; SER { s | a; } virtual int kind() const { return 0; } bool same(const ABase& o) const { return kind() == o.kind() && sub(o); } virtual bool sub(const ABase& o) const { return a == o.a; } static ABase* genPtr(); };
struct AOver : checkpoint::SerializableDerived<AOver, ABase> { alignas(64) int w = 0; AOver() = default; explicit AOver(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} SER { s | w; } int kind() const override { return 1; } bool sub(const ABase& o) const override { return (a == o.a) & (w == static_cast<const AOver&>(o).w); } }; // over-aligned
inline ABase* ABase::genPtr() { ABase* p; if (gen::choose("over", 1)) { auto* q = new AOver; q->w = make<int>(); p = q; } else p = new ABase; p->a = make<char>(); return p; }
struct PMix { unique_ptr<PBase> a; int i = 0; unique_ptr<MBase> m; PD1 direct; unique_ptr<PBase> c; string t; SER { s | a; s | i; s | m; s | direct; s | c; s | t; }
  static PMix gen() { PMix r; r.a = make<unique_ptr<PBase>>(); r.i = make<int>(); r.m = make<unique_ptr<MBase>>(); r.direct.b = make<int>(); r.direct.d = make<double>(); r.direct.s = make<string>(); r.c.reset(mkP(gen::C.ctr++ % 3, 1)); r.t = make<string>(); return r; }
  bool same(const PMix& o) const { return zoo::same(a, o.a) & (i == o.i) & zoo::same(m, o.m) & direct.same(o.direct) & zoo::same(c, o.c) & zoo::same(t, o.t); } };
// the documented raw-pointer and shared_ptr patterns
struct RawOwner { MBase* p = nullptr; int i = 0; MBase* q = nullptr; RawOwner() = default; RawOwner(RawOwner&& o) noexcept : p(o.p), i(o.i), q(o.q) { o.p = o.q = nullptr; } RawOwner(const RawOwner&) = delete; ~RawOwner() { delete p; delete q; }
  template <class S> static void one(S& s, MBase*& r) { bool null = r == nullptr; s | null; if (null && s.isUnpacking()) { delete r; r = nullptr; } if (!null) { checkpoint::reconstructPointedToObjectIfNeeded(s, r); s | *r; } }
  SER { one(s, p); s | i; one(s, q); }
  static RawOwner gen() { RawOwner r; if (gen::choose("p", 1)) r.p = MBase::genPtr(); r.i = make<int>(); r.q = MBase::genPtr(); return r; }
  static bool eq(const MBase* a, const MBase* b) { if (!a || !b) return !a && !b; return a != b && a->same(*b); }
  bool same(const RawOwner& o) const { if (this == &o) return true; return eq(p, o.p) & (i == o.i) & eq(q, o.q); } };
struct SharedOwner { shared_ptr<PBase> a; char c = 0; SER { s | c; PBase* raw = a.get(); checkpoint::reconstructPointedToObjectIfNeeded(s, raw); if (s.isUnpacking() && raw != a.get()) a = shared_ptr<PBase>(raw); s | *a; }
  static SharedOwner gen() { SharedOwner r; r.a.reset(PBase::genPtr()); r.c = make<char>(); return r; } bool same(const SharedOwner& o) const { return (c == o.c) & a->same(*o.a); } };
struct RefBase { unique_ptr<PBase> own; SER { bool null = !own; s | null; if (null && s.isUnpacking()) own.reset(); if (!null) { PBase* r = own.get(); checkpoint::reconstructPointedToObjectIfNeeded(s, r); if (!own) own.reset(r); PBase& ref = *own; s | ref; } } // through a base reference
  static RefBase gen() { RefBase r; r.own.reset(PBase::genPtr()); return r; } bool same(const RefBase& o) const { return zoo::same(own, o.own); } };
using pu_b = unique_ptr<PBase>; using v_pd2 = vector<PD2>; using pu_m = unique_ptr<MBase>; using pv_b = vector<unique_ptr<PBase>>; using pu_a = unique_ptr<ABase>; using pl_m = list<unique_ptr<MBase>>; using pm_b = map<int, unique_ptr<PBase>>; using pp_bm = pair<unique_ptr<PBase>, unique_ptr<MBase>>;
#define ZOO_POLY(X) X(pu_b) X(pu_m) X(pv_b) X(pl_m) X(pm_b) X(pp_bm) X(PMix) X(RawOwner) X(SharedOwner) X(RefBase) X(PD11) X(v_pd2) X(pu_a)
}
