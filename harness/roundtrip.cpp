// Round trip of every type of the group: out of place, and in place into a fresh object.
#include "zoo.h"
using namespace checkpoint;
template <class T> size_t cap(const T&) { return 0; }
template <class T> size_t cap(const std::vector<T>& v) { return v.capacity(); }
template <class T> size_t inner(const T&) { return 0; }
template <class T> size_t inner(const std::vector<std::vector<T>>& v) { size_t c = 0; for (auto& x : v) c += x.capacity(); return c; }
template <class T> void body() {
  gen::shape();
  gen::Mark m; T src = gen::make<T>(); T ref = m.ref<T>();
  auto r = serialize(src);
  vp_observe("size", r->getSize());
  {
    auto out = deserialize<T>(r->getBuffer());
    CHECK(gen::same(ref, *out)); vp_cover("out of place");
    CHECK(cap(*out) >= cap(src)); CHECK(inner(*out) >= inner(src));
  }
  { auto out = deserialize<T>(r->getBuffer()); CHECK(gen::same(ref, *out)); } // the source is intact and shares nothing with what was just destroyed
  if constexpr (std::is_default_constructible_v<T>) {
    T fresh{}; deserializeInPlace<T>(r->getBuffer(), &fresh);
    CHECK(gen::same(ref, fresh)); vp_cover("in place");
    CHECK(cap(fresh) >= cap(src));
  }
}
#define X(t) HARNESS(rt_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
