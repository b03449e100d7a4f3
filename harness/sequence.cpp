// Streams: objects are appended and consumed exactly, in sequence; a stream that ends or fails early is reported.
#include "streams.h"
using namespace checkpoint;
namespace {
template <class T> void back(strm::IStr& is, const T& src, bool inPlace) {
  if constexpr (std::is_default_constructible_v<T>) if (inPlace) { T f{}; deserializeInPlaceFromStream<T>(is, &f); CHECK(gen::same(src, f)); vp_cover("in place"); return; }
  auto o = deserializeFromStream<T>(is); CHECK(gen::same(src, *o));
}
template <class T> void seq() { // several objects, after foreign bytes and before foreign bytes
  strm::ready(); gen::shape(1, 2); gen::C.maxPicks = VP_N(2, 3);
  gen::Mark ma; T a = gen::make<T>(); T aRef = ma.ref<T>(); gen::again(); gen::C.maxPicks = VP_N(1, 2); gen::Mark mb; T b = gen::make<T>(); T bRef = mb.ref<T>(); strm::Decoy d; d.v[0] = vp::any<short>("dv"); std::string st(vp::pick("st", 1), 'x');
  auto ra = serialize(a), rb = serialize(b), rd = serialize(d), rs = serialize(st); size_t na = ra->getSize(), nb = rb->getSize(), nd = rd->getSize(), ns = rs->getSize();
  size_t pos = vp::pick("pos", 1) ? 5 : 0, tail = 3, total = pos + na + nd + ns + nb + na; char* p = new char[total + tail]; vp_undef_mem(p, total + tail); vp_sym_mem("pre", p, pos); vp_sym_mem("tail", p + total, tail); char keep[5]; memcpy(keep, p, pos);
  strm::OStr os(p, total); os.n = pos; os.width(pos); // as left behind by the caller's own formatted output
  serializeToStream(a, os); CHECK(os.n == pos + na); serializeToStream(d, os); CHECK(os.n == pos + na + nd); serializeToStream(st, os); CHECK(os.n == pos + na + nd + ns); serializeToStream(b, os); CHECK(os.n == total - na); serializeToStream(a, os); CHECK(os.n == total); CHECK(os.good());
  vp_check(memcmp(p, keep, pos) == 0, "bytes before the starting position are untouched");
  if constexpr (!kRawBytes<T>) { CHECK(memcmp(p + pos, ra->getBuffer(), na) == 0); CHECK(memcmp(p + pos + na + nd + ns, rb->getBuffer(), nb) == 0); CHECK(memcmp(p + total - na, ra->getBuffer(), na) == 0); }
  CHECK(memcmp(p + pos + na, rd->getBuffer(), nd) == 0); CHECK(memcmp(p + pos + na + nd, rs->getBuffer(), ns) == 0);
  bool ip = vp::pick("inplace", 1);
  strm::IStr is(p, total + tail); is.n = pos;
  back(is, aRef, ip); CHECK(is.n == pos + na);
  { auto o = deserializeFromStream<strm::Decoy>(is); CHECK(o->v[0] == d.v[0]); CHECK(is.n == pos + na + nd); }
  { auto o = deserializeFromStream<std::string>(is); CHECK(*o == st); CHECK(is.n == pos + na + nd + ns); }
  back(is, bRef, !ip); CHECK(is.n == total - na); back(is, aRef, ip); CHECK(is.n == total); CHECK(is.good()); vp_cover("all read back in order");
  delete[] p;
}
size_t ends(size_t n) { // every truncation point, or for long inputs both ends and a stride between
  size_t lim = VP_N(100, 400); if (n <= lim) return vp::pick("end", n - 1);
  std::vector<size_t> c; for (size_t i = 0; i < n; i++) if (i < 24 || i + 24 >= n || i % VP_N(31, 7) == 0) c.push_back(i); return c[vp::pick("endix", c.size() - 1)]; }
template <class T> void shortInput() {
  strm::warm<T>(); gen::C = gen::Ctx(); gen::C.small = 1; gen::C.maxPicks = 0; gen::C.ctr = (unsigned)vp::pick("pattern", VP_N(1, 3));
  long l0 = vp_live();
  { T src = gen::make<T>(); auto r = serialize(src); size_t n = r->getSize(); char* b = r->getBuffer();
    T* target = nullptr; if constexpr (std::is_default_constructible_v<T>) if (vp::pick("inplace", 1)) target = new T{};
    size_t end = n; long failAt = -1; bool throws = false;
    if (vp::pick("how", 1)) { failAt = (long)vp::pick("read", VP_N(6, 20)); throws = vp::pick("throws", 1); vp_cover("the stream fails"); } else { end = ends(n); }
    strm::IStr is(b, end); is.failAt = failAt; is.throws = throws; bool thrown = false;
    try { if (target) { deserializeInPlaceFromStream<T>(is, target); } else { auto o = deserializeFromStream<T>(is); CHECK(gen::same(src, *o)); } } catch (std::runtime_error const& e) { thrown = true; vp_check(e.what()[0] != 0, "the report says something"); }
    if (failAt < 0) { vp_check(thrown, "a stream that ends early is reported"); vp_cover("the stream ends"); } else { vp_check(thrown == is.failed, "a failing stream is reported"); }
    delete target;
  }
  CHECK(vp_live() == l0);
}
}
#define X(t) HARNESS(sq_##t) { seq<zoo::t>(); } HARNESS(sh_##t) { shortInput<zoo::t>(); }
ZOO_FOREACH(X)
