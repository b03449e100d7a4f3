// Whatever sequence of operations ran, every block the library allocated is released and every constructed object destroyed (owned memory shows in the block count).
#include "streams.h"
using namespace checkpoint;
template <class T> void body() {
  strm::warm<T>(); gen::shape(1, 2);
  long l0 = vp_live();
  {
    T src = gen::make<T>();
    long l1 = vp_live();
    size_t n = getSize(src); CHECK(vp_live() == l1);
    getMemoryFootprint(src); CHECK(vp_live() == l1);
    { auto r = serialize(src); { auto o = deserialize<T>(r->getBuffer()); } CHECK(vp_live() > l1); auto o2 = deserialize<T>(std::move(r)); CHECK(gen::same(src, *o2)); }
    CHECK(vp_live() == l1); vp_cover("out of place");
    char* b = new char[n]; { auto r = serialize(src, [&](size_t) { return b; }); }
    if constexpr (std::is_default_constructible_v<T>) { { T f{}; deserializeInPlace<T>(b, &f); deserializeInPlace<T>(b, &f); CHECK(gen::same(src, f)); strm::IStr is(b, n); deserializeInPlaceFromStream<T>(is, &f); } CHECK(vp_live() == l1 + 1); vp_cover("in place"); }
    { strm::OStr os(b, n); serializeToStream(src, os); strm::IStr is(b, n); auto o = deserializeFromStream<T>(is); } CHECK(vp_live() == l1 + 1);
    { constexpr size_t al = alignof(T) > 16 ? alignof(T) : 16; char* mem = (char*)::operator new(sizeof(T), std::align_val_t(al)); T* o = deserialize<T>(b, mem); CHECK(gen::same(src, *o)); o->~T(); ::operator delete(mem, std::align_val_t(al)); } CHECK(vp_live() == l1 + 1);
    delete[] b;
    CHECK(gen::same(src, *deserialize<T>(serialize(src)))); CHECK(vp_live() == l1);
  }
  CHECK(vp_live() == l0); vp_cover("all released");
}
#define X(t) HARNESS(ba_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
