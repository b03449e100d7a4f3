// Serializing never changes the object (or anything it owns); deserializing never changes the bytes; one buffer gives equal, independent results.
#include "streams.h"
using namespace checkpoint;
template <class T> size_t cap(const T&) { return 0; }
template <class T> size_t cap(const std::vector<T>& v) { return v.capacity(); }
inline size_t cap(const std::string& v) { return v.capacity(); }
template <class T> void body() {
  strm::ready(); gen::shape(1, 2);
  T src = gen::make<T>(); size_t c0 = cap(src);
  size_t n = getSize(src);
  char* a = new char[n]; char* b = new char[n];
  {
    vp_protect(&src, sizeof src, true);
    vp_freeze(2); vp_allow(a); vp_allow(b); // until released, no write may change an existing heap object or the source itself
    CHECK(getSize(src) == n);
    size_t fp = getMemoryFootprint(src); CHECK(getMemoryFootprint(src) == fp);
    auto r = serialize(src, [&](size_t) { return a; });
    auto r2 = serialize(src);
    strm::OStr os(b, n); serializeToStream(src, os);
    CHECK(memcmp(a, b, n) == 0); CHECK(memcmp(a, r2->getBuffer(), n) == 0); vp_cover("serialized three ways");
    vp_freeze(0); vp_protect(&src, sizeof src, false);
  }
  CHECK(cap(src) == c0);
  {
    vp_protect(a, n, true); vp_protect(&src, sizeof src, true);
    auto o1 = deserialize<T>(a); auto o2 = deserialize<T>(a);
    CHECK(gen::same(*o1, *o2)); o1.reset(); CHECK(gen::same(src, *o2)); vp_cover("independent results");
    strm::IStr is(a, n); auto o3 = deserializeFromStream<T>(is); CHECK(gen::same(*o2, *o3));
    if constexpr (std::is_default_constructible_v<T>) { T f{}; deserializeInPlace<T>(a, &f); CHECK(gen::same(src, f)); }
    vp_protect(a, n, false); vp_protect(&src, sizeof src, false);
  }
  CHECK(memcmp(a, b, n) == 0); CHECK(getSize(src) == n);
  delete[] a; delete[] b;
}
#define X(t) HARNESS(pu_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
