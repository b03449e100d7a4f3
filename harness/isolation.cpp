// Operations write nothing but their own result: every global and every pre-existing heap block is off limits while they run.
#include "streams.h"
using namespace checkpoint;
template <class T> void body() {
  strm::warm<T>(); gen::shape(1, 1);
  T src = gen::make<T>(); 
  size_t n = getSize(src); char* a = new char[n]; char* b = new char[n]; char* mem = (char*)::operator new(sizeof(T), std::align_val_t(alignof(T) > 16 ? alignof(T) : 16));
  vp_freeze(1); vp_allow(a); vp_allow(b); vp_allow(mem); vp_allow(&zoo::gDel);
  {
    CHECK(getSize(src) == n); getMemoryFootprint(src);
    auto r = serialize(src, [&](size_t) { return a; }); auto r2 = serialize(src);
    strm::OStr os(b, n); serializeToStream(src, os);
    vp_cover("serialized");
    auto o = deserialize<T>(a); CHECK(gen::same(src, *o));
    strm::IStr is(b, n); auto o2 = deserializeFromStream<T>(is);
    T* o3 = deserialize<T>(a, mem); CHECK(o3 == (T*)mem); o3->~T();
    if constexpr (std::is_default_constructible_v<T>) { T f{}; deserializeInPlace<T>(a, &f); }
    vp_cover("deserialized");
  }
  { // failing operations are no exception
    uint32_t tag; memcpy(&tag, a, 4); uint32_t other = tag ^ (uint32_t)(1 + vp::pick("flip", 3) * 0x200); char c[8]; memcpy(c, &other, 4);
    memcpy(a, c, 4); bool thrown = false;
    try { auto o = deserialize<T>(a); } catch (std::runtime_error const&) { thrown = true; }
    CHECK(thrown); vp_cover("failed operation"); memcpy(a, &tag, 4);
    strm::IStr is(a, n - 1); thrown = false; try { auto o = deserializeFromStream<T>(is); } catch (std::runtime_error const&) { thrown = true; } CHECK(thrown);
  }
  vp_freeze(0);
  delete[] a; delete[] b; ::operator delete(mem, std::align_val_t(alignof(T) > 16 ? alignof(T) : 16));
}
#define X(t) HARNESS(is_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
