// Polymorphic classes of a large hierarchy keep their identity.
#include "zoo.h"
using namespace checkpoint;
// Compiling hundreds of polymorphic classes takes minutes; instead a filler class is registered many times over before the real classes are.
namespace {
struct Root : SerializableBase<Root> { int a = 0; Root() = default; explicit Root(SERIALIZE_CONSTRUCT_TAG) {} virtual ~Root() = default; SER { s | a; } virtual int kind() const { return 0; } };
struct Filler : SerializableDerived<Filler, Root> { Filler() = default; explicit Filler(SERIALIZE_CONSTRUCT_TAG) {} SER { (void)s; } int kind() const override { return -1; } };
struct K1 : SerializableDerived<K1, Root> { short b = 0; K1() = default; explicit K1(SERIALIZE_CONSTRUCT_TAG) {} SER { s | b; } int kind() const override { return 1; } };
struct K2 : SerializableDerived<K2, K1> { std::string s_; K2() = default; explicit K2(SERIALIZE_CONSTRUCT_TAG) {} SER { s | s_; } int kind() const override { return 2; } };
struct K3 : SerializableDerived<K3, Root> { std::unique_ptr<Root> in; K3() = default; explicit K3(SERIALIZE_CONSTRUCT_TAG) {} SER { s | in; } int kind() const override { return 3; } };
struct Pad { Pad() { for (int i = 0; i < GROUP; i++) dispatch::vrt::objregistry::Registrar<Filler> r; } };
__attribute__((init_priority(101))) Pad gPad;
Root* mk(size_t k, int d) { switch (k) { case 0: { auto* p = new Root; p->a = vp::any<int>("a"); return p; } case 1: { auto* p = new K1; p->a = vp::any<int>("a"); p->b = vp::any<short>("b"); return p; } case 2: { auto* p = new K2; p->b = vp::any<short>("b"); p->s_ = "some text"; return p; } default: { auto* p = new K3; p->a = vp::any<int>("a"); if (d) p->in.reset(mk(vp::pick("inner", 3), d - 1)); return p; } } }
bool same(const Root* a, const Root* b) { if (!a || !b) return !a && !b; if (typeid(*a) != typeid(*b) || a->kind() != b->kind() || a->a != b->a) return false; switch (a->kind()) { case 1: return ((const K1*)a)->b == ((const K1*)b)->b; case 2: return ((const K1*)a)->b == ((const K1*)b)->b && ((const K2*)a)->s_ == ((const K2*)b)->s_; case 3: return same(((const K3*)a)->in.get(), ((const K3*)b)->in.get()); default: return true; } }
}
HARNESS(many_classes) {
  std::unique_ptr<Root> p(mk(vp::pick("class", 3), 1));
  auto r = serialize(p); auto o = deserialize<std::unique_ptr<Root>>(r->getBuffer());
  CHECK(same(p.get(), o->get())); vp_cover("class of a large hierarchy");
  std::unique_ptr<Root> q(mk((size_t)p->kind(), 0)); deserializeInPlace<std::unique_ptr<Root>>(r->getBuffer(), &q); CHECK(same(p.get(), q.get()));
}
