// Containers far longer than the zoo's, for what only shows beyond a threshold: counts past 2^10, 2^12 and 2^16, capacities far
// above the length, many alternatives and components, deep nesting. GROUP selects the operation looked at.
#include "xzoo.h"
using namespace checkpoint;
namespace {
#define XRTQ 1 // round trips: sequences, associative containers, the rest
#define XRTA 17
#define XRTS 33
#define XSZ 2 // the other operations: all types
#define XIP 3
#define XPU 4
#define XST 5
#define XBA 6
#define XC_(a, b) a##b
#define XC(a, b) XC_(a, b)
#define KIND XC(X, GROUP)
constexpr int kOp = KIND & 15;
template <class T> void body(size_t n) {
  strm::ready(); ext::fresh(); T src = ext::fill<T>(n); const T ref = ext::fill<T>(n); // the same content built twice
  if constexpr (kOp == 1) {
    auto r = serialize(src); { auto o = deserialize<T>(r->getBuffer()); CHECK(ext::eq(ref, *o)); }
  } else if constexpr (kOp == XSZ) {
    size_t m = getSize(src); char* blk = nullptr; auto r = serialize(src, [&](size_t k) { CHECK(k == m); blk = new char[k]; vp_undef_mem(blk, k); return blk; }); CHECK(r->getSize() == m); CHECK(vp_is_init(blk, m));
    strm::IStr is(blk, m); auto o = deserializeFromStream<T>(is); CHECK(is.n == m); CHECK(ext::eq(ref, *o)); delete[] blk;
  } else if constexpr (kOp == XIP) {
    auto r = serialize(src); size_t k = vp::pick("old", 2); T old = ext::fill<T>(k == 0 ? 3 : k == 1 ? n + 5 : n); deserializeInPlace<T>(r->getBuffer(), &old); CHECK(ext::eq(ref, old));
    T few = ext::fill<T>(2); const T few2 = ext::fill<T>(2); auto q = serialize(few); strm::IStr is(q->getBuffer(), q->getSize()); deserializeInPlaceFromStream<T>(is, &old); CHECK(ext::eq(few2, old)); // long old content, short new one
  } else if constexpr (kOp == XPU) {
    size_t m = getSize(src); char* a = new char[m]; vp_protect(&src, sizeof src, true); vp_freeze(2); vp_allow(a);
    getMemoryFootprint(src); auto r = serialize(src, [&](size_t) { return a; }); vp_freeze(0); vp_protect(&src, sizeof src, false); CHECK(ext::eq(ref, src));
    vp_protect(a, m, true); { auto o = deserialize<T>(a); CHECK(ext::eq(ref, *o)); } vp_protect(a, m, false); delete[] a;
  } else if constexpr (kOp == XST) {
    size_t m = getSize(src); auto r = serialize(src); char *b = new char[2 * m], *u = new char[m]; strm::OStr os(b, 2 * m); serializeToStream(src, os); CHECK(os.n == m); serializeToStream(src, os); CHECK(os.n == 2 * m); CHECK(memcmp(b, r->getBuffer(), m) == 0); CHECK(memcmp(b + m, r->getBuffer(), m) == 0);
    auto v = serialize(src, [&](size_t) { return u; }); CHECK(memcmp(b, u, m) == 0);
    strm::IStr is(b, 2 * m); { auto o = deserializeFromStream<T>(is); CHECK(is.n == m); CHECK(ext::eq(ref, *o)); } { auto o = deserializeFromStream<T>(is); CHECK(is.n == 2 * m); CHECK(ext::eq(ref, *o)); } delete[] b; delete[] u;
  } else {
    long l1 = vp_live(); { auto r = serialize(src); getMemoryFootprint(src); auto o = deserialize<T>(r->getBuffer()); deserializeInPlace<T>(r->getBuffer(), o.get()); CHECK(ext::eq(ref, *o)); } CHECK(vp_live() == l1);
  }
  vp_cover("to the end");
}
template <class T> void sizes() { size_t k = vp::pick("long", 1); body<T>(k ? VP_N(1030, 8200) : VP_N(4099, 1030)); }
}
#define X(t) HARNESS(xt_##t) { sizes<ext::t>(); }
#define Y(t) HARNESS(xh_##t) { body<ext::t>(65540); } // the count does not fit 16 bits
#define Z(t) HARNESS(xo_##t) { body<ext::t>(vp::pick("fill", 3)); }
#if KIND == XRTQ || KIND > 1 && KIND < 16
EXT_LONGQ(X) EXT_ODDQ(Z)
#endif
#if KIND == XRTA || KIND > 1 && KIND < 16
EXT_LONGA(X)
#endif
#if KIND == XRTS || KIND > 1 && KIND < 16
EXT_ODDS(Z)
#endif
#if KIND == XRTS
Z(Many) // slow to compile
#endif
#if !defined(SERIALIZATION_ERROR_CHECKING) && KIND == XRTQ
EXT_HUGEQ(Y)
#endif
#if !defined(SERIALIZATION_ERROR_CHECKING) && KIND == XRTA
EXT_HUGEA(Y)
#endif
