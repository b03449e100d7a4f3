// A tag other than the requested type's own is always reported; the own tag never is.
#include "streams.h"
#include "tags.h"
using namespace checkpoint;
namespace {
template <class T, class F> bool rejects(F&& f) { try { f(); } catch (dispatch::serialization_error const&) { return true; } return false; }
}
template <class T> void body() {
  strm::warm<T>(); gen::shape(1, 1); gen::C.maxPicks = VP_N(1, 3);
  constexpr size_t al = alignof(T) > 16 ? alignof(T) : 16;
  T src = gen::make<T>();
  auto r = serialize(src); char* b = r->getBuffer(); size_t n = r->getSize();
  uint32_t own; memcpy(&own, b, 4);
  { auto o = deserialize<T>(b); CHECK(gen::same(src, *o)); } // a matching tag is accepted
  uint32_t t = vp::any<uint32_t>("tag"); vp_assume(t != own); memcpy(b, &t, 4); // any other one is not, known or corrupted
  bool thrown = false;
  switch (vp::pick("entry", 3)) {
    case 0: thrown = rejects<T>([&] { deserialize<T>(b); }); vp_cover("memory"); break;
    case 1: { char* mem = (char*)::operator new(sizeof(T), std::align_val_t(al)); thrown = rejects<T>([&] { deserialize<T>(b, mem); }); ::operator delete(mem, std::align_val_t(al)); break; }
    case 2: { strm::IStr is(b, n); thrown = rejects<T>([&] { deserializeFromStream<T>(is); }); vp_cover("stream"); break; }
    default: if constexpr (std::is_default_constructible_v<T>) { T f{}; thrown = rejects<T>([&] { deserializeInPlace<T>(b, &f); }); vp_cover("in place"); } else { strm::IStr is(b, n); auto o = deserialize<T>(serialize(src)); thrown = rejects<T>([&] { deserializeInPlaceFromStream<T>(is, o.get()); }); }
  }
  CHECK(thrown);
  memcpy(b, &own, 4); { auto o = deserialize<T>(b); CHECK(gen::same(src, *o)); } vp_cover("own tag accepted");
}
#define X(t) HARNESS(wt_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
