// Reported size == bytes written == bytes consumed; nothing outside is touched, every byte inside is written.
#include "streams.h"
using namespace checkpoint;
template <class T> void body() {
  strm::ready(); gen::shape(2, 2);
  T src = gen::make<T>();
  size_t n = getSize(src); vp_observe("size", n);
  size_t asked = 0; int calls = 0; char* blk = nullptr;
  auto r = serialize(src, [&](size_t k) { calls++; asked = k; blk = new char[k]; vp_undef_mem(blk, k); return blk; }); // an exact heap block: any access beyond it is an error
  CHECK(calls == 1); CHECK(asked == n); CHECK(r->getSize() == n); CHECK(r->getBuffer() == blk);
  if constexpr (!kRawBytes<T>) CHECK(vp_is_init(blk, n)); vp_cover("every byte written");
  { auto lib = serialize(src); CHECK(lib->getSize() == n); if constexpr (!kRawBytes<T>) CHECK(vp_is_init(lib->getBuffer(), n)); }
  { auto o = deserialize<T>(blk); CHECK(gen::same(src, *o)); CHECK(getSize(*o) == n); }
  { strm::OStr os(new char[n], n); serializeToStream(src, os); CHECK(os.n == n);
    strm::IStr is(os.p, n); auto o = deserializeFromStream<T>(is); CHECK(!is.fail()); CHECK(is.n == n); vp_cover("every byte consumed"); delete[] os.p; }
  if constexpr (std::is_default_constructible_v<T>) { T f{}; auto u = dispatch::Traverse::with<T, UnpackerBuffer<buffer::UserBuffer>>(f, blk);
    CHECK(u.usedBufferSize() == n); CHECK(gen::same(src, f)); }
  delete[] blk;
}
#define X(t) HARNESS(sz_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
