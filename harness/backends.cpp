// Library buffer, caller buffer, stream and file hold the same bytes; each is accepted by every reader.
#include "fakefs.h"
using namespace checkpoint;
namespace {
const std::string kP = "ckpt.bin";
template <class T> void read(const char* b, size_t n, const T& src, int how) { // the same bytes through one reader
  if (how == 0) { auto o = deserialize<T>(const_cast<char*>(b)); CHECK(gen::same(src, *o)); }
  else if (how == 1) { auto al = alignof(T) > 16 ? alignof(T) : 16; char* m = (char*)::operator new(sizeof(T), std::align_val_t(al)); T* o = deserialize<T>(const_cast<char*>(b), m); CHECK((char*)o == m); CHECK(gen::same(src, *o)); o->~T(); ::operator delete(m, std::align_val_t(al)); }
  else if (how == 2) { strm::IStr is(b, n); auto o = deserializeFromStream<T>(is); CHECK(gen::same(src, *o)); CHECK(is.n == n); }
  else if (how == 3) { fsim::gExists = true; fsim::resize(n); memcpy(fsim::gCache, b, n); fsim::durable(); auto o = deserializeFromFile<T>(kP); CHECK(gen::same(src, *o)); vp_cover("read from a file"); }
  else if constexpr (std::is_default_constructible_v<T>) {
    T f{};
    if (how == 4) deserializeInPlace<T>(const_cast<char*>(b), &f);
    else if (how == 5) { strm::IStr is(b, n); deserializeInPlaceFromStream<T>(is, &f); CHECK(is.n == n); }
    else { fsim::gExists = true; fsim::resize(n); memcpy(fsim::gCache, b, n); fsim::durable(); deserializeInPlaceFromFile<T>(kP, &f); vp_cover("in place from a file"); }
    CHECK(gen::same(src, f));
  }
}
template <class T> void body() {
  strm::ready(); gen::shape(1, 2); fsim::reset(); if (vp::pick("older", 1)) { fsim::gExists = true; fsim::resize(5000); } // an unrelated longer file
  gen::Mark m; T src = gen::make<T>(); T ref = m.ref<T>();
  size_t n = getSize(src); char *u = new char[n], *s = new char[n], *f = new char[n]; vp_undef_mem(u, n); vp_undef_mem(s, n);
  auto lib = serialize(src); const char* l = lib->getBuffer(); CHECK(lib->getSize() == n);
  auto usr = serialize(src, [&](size_t) { return u; }); CHECK(usr->getSize() == n); CHECK(usr->getBuffer() == u);
  strm::OStr os(s, n); os.width(vp::pick("width", 1) ? 3 : 0); serializeToStream(src, os); CHECK(os.n == n);
  serializeToFile(src, kP); CHECK(fsim::gSize == n); memcpy(f, fsim::gCache, n);
  if constexpr (!kRawBytes<T>) { vp_check(memcmp(l, u, n) == 0, "caller buffer equals library buffer"); vp_check(memcmp(l, s, n) == 0, "stream equals library buffer"); vp_check(memcmp(l, f, n) == 0, "file equals library buffer"); vp_cover("all equal"); }
  const char* from[] = {l, u, s, f};
  for (int how = 0; how < 7; how++) for (int w = 0; w < 4; w++) if (w == how % 4 || w == 3) read<T>(from[w], n, ref, how);
  { auto o = deserialize<T>(std::move(usr)); CHECK(gen::same(ref, *o)); } // the returned handle itself
  { auto o = deserialize<T>(std::move(lib)); CHECK(gen::same(ref, *o)); vp_cover("handle"); }
  delete[] u; delete[] s; delete[] f;
}
}
#define X(t) HARNESS(be_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
