// Deserializing in place over an arbitrary old value gives exactly the serialized value, and what is dropped is released.
#include "streams.h"
using namespace checkpoint;
// a polymorphic pointee that exists is reused: its dynamic type has to match (documented), so only such histories are in scope
template <class T, class = void> struct Compat { static bool ok(const T&, const T&) { return true; } };
template <class T> bool compat(const T& a, const T& b) { return Compat<T>::ok(a, b); }
#if ZG(GROUP)
inline bool cp(const zoo::PBase* a, const zoo::PBase* b) { if (!a || !b) return true; if (a->kind() != b->kind()) return false; return a->kind() != 4 || cp(static_cast<const zoo::PD3*>(a)->in.get(), static_cast<const zoo::PD3*>(b)->in.get()); }
inline bool cp(const zoo::MBase* a, const zoo::MBase* b) { return !a || !b || a->tag() == b->tag(); }
inline bool cp(const zoo::ABase* a, const zoo::ABase* b) { return !a || !b || a->kind() == b->kind(); }
template <class T> struct Compat<std::unique_ptr<T>> { static bool ok(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return cp(a.get(), b.get()); } };
template <> struct Compat<zoo::pv_b> { static bool ok(const zoo::pv_b& a, const zoo::pv_b& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (!compat(a[i], b[i])) return false; return true; } };
template <> struct Compat<zoo::pp_bm> { static bool ok(const zoo::pp_bm& a, const zoo::pp_bm& b) { return compat(a.first, b.first) && compat(a.second, b.second); } };
template <> struct Compat<zoo::PMix> { static bool ok(const zoo::PMix& a, const zoo::PMix& b) { return compat(a.a, b.a) && compat(a.m, b.m) && compat(a.c, b.c); } };
template <> struct Compat<zoo::RawOwner> { static bool ok(const zoo::RawOwner& a, const zoo::RawOwner& b) { return cp(a.p, b.p) && cp(a.q, b.q); } };
template <> struct Compat<zoo::SharedOwner> { static bool ok(const zoo::SharedOwner& a, const zoo::SharedOwner& b) { return cp(a.a.get(), b.a.get()); } };
template <> struct Compat<zoo::RefBase> { static bool ok(const zoo::RefBase& a, const zoo::RefBase& b) { return compat(a.own, b.own); } };
#endif
inline void shape(bool big, unsigned picks) {
  gen::C = gen::Ctx(); gen::C.small = VP_N(2, 3); gen::C.maxPicks = picks; gen::C.big = big; gen::C.outer = VP_N(17, 33);
}
template <class T> void body() {
  strm::warm<T>();
  long l0 = vp_live();
  {
    size_t mode = vp::pick("mode", 2); constexpr unsigned np = VP_N(2, 3);
    shape(mode == 1, np); T old = gen::make<T>(); if (mode == 1) vp_cover("large old value"); if (mode == 2) vp_cover("large new value");
    shape(mode == 2, np); gen::Mark m; T src = gen::make<T>(); T ref = m.ref<T>(); vp_assume(compat(old, src));
    long l1 = vp_live();
    {
      auto r = serialize(src); size_t n = r->getSize();
      if (vp::pick("route", 1)) { strm::IStr is(r->getBuffer(), n); deserializeInPlaceFromStream<T>(is, &old); CHECK(is.n == n); vp_cover("from a stream"); }
      else { deserializeInPlace<T>(r->getBuffer(), &old); vp_cover("from memory"); }
      CHECK(gen::same(ref, old));
      { auto r2 = serialize(old); CHECK(r2->getSize() == n); auto f = deserialize<T>(r2->getBuffer()); CHECK(gen::same(ref, *f)); }
      deserializeInPlace<T>(r->getBuffer(), &old); CHECK(gen::same(ref, old)); // and again over the new value
    }
    (void)l1;
  }
  CHECK(vp_live() == l0); vp_cover("released");
}
#define X(t) HARNESS(ip_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
