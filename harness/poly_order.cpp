// Every level of a polymorphic hierarchy runs exactly once per pass, base before derived, for every serializer.
#include "zoo.h"
using namespace checkpoint;
namespace {
int gLog[64]; int gN = 0;
void ev(int k) { if (gN < 64) gLog[gN] = k; gN++; }
struct A : SerializableBase<A> { int a = 0; A() = default; explicit A(SERIALIZE_CONSTRUCT_TAG) {} virtual ~A() = default; SER { ev(1); s | a; } virtual int kind() const { return 0; } };
struct B : SerializableDerived<B, A> { std::string b; B() = default; explicit B(SERIALIZE_CONSTRUCT_TAG) {} SER { ev(2); s | b; } int kind() const override { return 1; } };
struct C : SerializableDerived<C, B> { std::vector<int> c; C() = default; explicit C(SERIALIZE_CONSTRUCT_TAG) {} SER { ev(3); s | c; } int kind() const override { return 2; } };
struct Plain { int z = 0; SER { ev(9); s | z; } };
struct D : SerializableDerived<D, A> { std::unique_ptr<A> in; Plain pl; int t = 0; D() = default; explicit D(SERIALIZE_CONSTRUCT_TAG) {} SER { ev(4); s | in; s | pl; s | t; } int kind() const override { return 3; } };
struct M { checkpoint_virtual_serialize_root() int m = 0; M() = default; explicit M(SERIALIZE_CONSTRUCT_TAG) {} virtual ~M() = default; SER { ev(5); s | m; } virtual int kind() const { return 0; } };
struct N : M { checkpoint_virtual_serialize_derived_from(M) int n = 0; N() = default; explicit N(SERIALIZE_CONSTRUCT_TAG) {} SER { ev(6); s | n; } int kind() const override { return 1; } };
struct O : N { checkpoint_virtual_serialize_derived_from(N) char o = 0; O() = default; explicit O(SERIALIZE_CONSTRUCT_TAG) {} SER { ev(7); s | o; } int kind() const override { return 2; } };
struct Top { std::unique_ptr<A> x; Plain p; std::unique_ptr<M> y; std::unique_ptr<A> z; A direct; N dn; Plain arr[2];
  SER { ev(8); s | x; s | p; s | y; s | z; s | direct; s | dn; dispatch::serializeArray(s, arr, 2); } };
A* mk(size_t k, int depth = 0) { switch (k) { case 0: { auto* p = new A; p->a = vp::any<int>("a"); return p; } case 1: { auto* p = new B; p->a = vp::any<int>("a"); p->b = "base"; return p; } case 2: { auto* p = new C; p->a = vp::any<int>("a"); p->c.resize(2); return p; }
  default: { auto* p = new D; p->t = vp::any<int>("t"); size_t j = vp::pick("inner", depth < 2 ? 4 : 3); if (j) p->in.reset(mk(j == 4 ? 3 : j - 1, depth + 1)); return p; } } }
M* mkM(size_t k) { if (k == 0) { auto* p = new M; p->m = vp::any<int>("m"); return p; } if (k == 1) { auto* p = new N; p->n = vp::any<int>("n"); return p; } auto* p = new O; p->o = vp::any<char>("o"); return p; }
int want[64], wn;
void w(int k) { if (wn < 64) want[wn] = k; wn++; }
void expectA(const A* a) { if (!a) return; w(1); switch (a->kind()) { case 1: w(2); break; case 2: w(2); w(3); break; case 3: w(4); expectA(static_cast<const D*>(a)->in.get()); w(9); break; default: break; } }
void expectM(const M* m) { if (!m) return; w(5); if (m->kind() >= 1) w(6); if (m->kind() == 2) w(7); }
void expect(const Top& t) { wn = 0; w(8); expectA(t.x.get()); w(9); expectM(t.y.get()); expectA(t.z.get()); w(1); w(5); w(6); w(9); w(9); }
void passes(int n) { CHECK(gN == n * wn); bool ok = true; for (int i = 0; i < gN && i < 64; i++) ok &= gLog[i] == want[i % wn]; CHECK(ok); gN = 0; }
bool sameA(const A* a, const A* b) { if (!a || !b) return !a && !b; if (typeid(*a) != typeid(*b) || a->kind() != b->kind()) return false; bool r = a->a == b->a; switch (a->kind()) {
  case 1: return r & (static_cast<const B*>(a)->b == static_cast<const B*>(b)->b); case 2: return r & (static_cast<const C*>(a)->b == static_cast<const C*>(b)->b) & (static_cast<const C*>(a)->c == static_cast<const C*>(b)->c);
  case 3: { auto x = static_cast<const D*>(a), y = static_cast<const D*>(b); return r & sameA(x->in.get(), y->in.get()) & (x->t == y->t) & (x->pl.z == y->pl.z); } default: return r; } }
bool sameM(const M* a, const M* b) { if (!a || !b) return !a && !b; if (typeid(*a) != typeid(*b)) return false; bool r = a->m == b->m; if (a->kind() >= 1) r &= static_cast<const N*>(a)->n == static_cast<const N*>(b)->n; if (a->kind() == 2) r &= static_cast<const O*>(a)->o == static_cast<const O*>(b)->o; return r; }
}
namespace { void fill(Top& t) { if (size_t k = vp::pick("x", 4)) t.x.reset(mk(k - 1)); if (size_t k = vp::pick("y", 3)) t.y.reset(mkM(k - 1)); t.z.reset(mk(vp::pick("z", 2)));
  t.p.z = vp::any<int>("p"); t.direct.a = vp::any<int>("d"); t.dn.m = vp::any<int>("dm"); t.dn.n = vp::any<int>("dn"); t.arr[1].z = vp::any<int>("arr"); } }
HARNESS(order) {
  Top t, e; long m = vp_mark(); fill(t); vp_again(m); fill(e); vp_again(-1); // e: the same values, never given to the library
  expect(t); CHECK(wn <= 30);
  gN = 0;
  getSize(t); passes(1); vp_cover("size");
  auto r = serialize(t); passes(2);
  auto o = deserialize<Top>(r->getBuffer()); passes(1); vp_cover("unpack");
  for (const Top* s : {&e, &t}) {
    CHECK(sameA(s->x.get(), o->x.get())); CHECK(sameM(s->y.get(), o->y.get())); CHECK(sameA(s->z.get(), o->z.get()));
    CHECK(s->p.z == o->p.z); CHECK(sameA(&s->direct, &o->direct)); CHECK(sameM(&s->dn, &o->dn)); CHECK(s->arr[1].z == o->arr[1].z);
  }
  getMemoryFootprint(t); passes(1);
}
HARNESS(chain) { // polymorphic objects nested in polymorphic objects, three deep
  Top t, e; long m = vp_mark(); t.x.reset(mk(3)); vp_again(m); e.x.reset(mk(3)); vp_again(-1); expect(t); gN = 0;
  auto r = serialize(t); passes(2);
  auto o = deserialize<Top>(r->getBuffer()); passes(1); vp_cover("nested");
  CHECK(sameA(e.x.get(), o->x.get()));
}
