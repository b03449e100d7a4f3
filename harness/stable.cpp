// Deterministic bytes: equal objects, repeated and interleaved serialization, and re-serialization of a copy.
#include "streams.h"
using namespace checkpoint;
template <class T, class = void> struct Unordered { static constexpr bool v = false; };
template <class T> struct Unordered<T, std::void_t<typename T::hasher>> { static constexpr bool v = true; };
template <class T> void body() {
  strm::ready(); gen::shape(1, 2);
  T src = gen::make<T>();
  size_t n = getSize(src);
  char* a = new char[n]; vp_undef_mem(a, n); // caller memory with arbitrary old contents
  auto ra = serialize(src, [&](size_t) { return a; });
  if constexpr (!kRawBytes<T>) CHECK(vp_is_init(a, n)); vp_cover("no byte depends on old memory");
  { std::vector<std::string> other{"interleaved", ""}; std::map<int, zoo::Pt> m; m[3].x = 4; auto x = serialize(other); getSize(m); auto y = serialize(m); auto z = deserialize<std::map<int, zoo::Pt>>(y->getBuffer()); auto w = deserialize<std::vector<std::string>>(x->getBuffer()); }
  auto rb = serialize(src); CHECK(rb->getSize() == n); CHECK(kRawBytes<T> || memcmp(a, rb->getBuffer(), n) == 0); vp_cover("repeated");
  auto o = deserialize<T>(a);
  CHECK(getSize(*o) == n);
  auto rc = serialize(*o); CHECK(rc->getSize() == n);
  if constexpr (!Unordered<T>::v) { CHECK(kRawBytes<T> || memcmp(a, rc->getBuffer(), n) == 0); vp_cover("re-serialized"); }
  else { auto o2 = deserialize<T>(rc->getBuffer()); CHECK(gen::same(src, *o2)); }
  delete[] a;
}
#define X(t) HARNESS(st_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
