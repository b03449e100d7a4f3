// With error checking on: passes that disagree are reported, passes that agree never are.
#define GROUP POLY
#include "streams.h"
#include "tags.h"
using namespace checkpoint;
namespace {
size_t gSize, gPack, gRead; // how many units the three passes handle
template <class E> struct Uneven { E e[8]{}; int tail = 0;
  template <class S> void serialize(S& s) { size_t k = s.isSizing() ? gSize : s.isPacking() ? gPack : s.isUnpacking() ? gRead : 0; for (size_t i = 0; i < k; i++) s | e[i]; s | tail; } };
template <class E> struct UnevenArr { E e[8]{}; int tail = 0;
  template <class S> void serialize(S& s) { size_t k = s.isSizing() ? gSize : s.isPacking() ? gPack : s.isUnpacking() ? gRead : 0; dispatch::serializeArray(s, e, k); s | tail; } };
template <class U> struct Inside { std::string name = "n"; std::vector<U> v; template <class S> void serialize(S& s) { s | name; s | v; } };
template <class U> struct InPtr { std::unique_ptr<U> p; std::optional<U> o; template <class S> void serialize(S& s) { s | p; s | o; } };
template <class U> U mk() { U u; for (auto& x : u.e) x = vp::any<std::remove_reference_t<decltype(x)>>("e"); u.tail = vp::any<int>("t"); return u; }
template <class T> bool packs(T& t, int how) { try {
    if (how == 0) { auto r = serialize(t); CHECK(r->getBuffer() != nullptr); }
    else { char* blk = nullptr; struct Free { char*& b; ~Free() { delete[] b; } } f{blk}; auto r = serialize(t, [&](size_t k) { return blk = new char[k]; }); CHECK(r->getBuffer() == blk); } // an exact block
  } catch (dispatch::serialization_error const&) { vp_cover("sizer and packer disagree"); return false; } return true; }
template <class T> void sides(T& t) {
  gSize = vp::pick("sized", VP_N(4, 7)); gPack = vp::pick("packed", VP_N(4, 7)); gRead = gPack;
  CHECK(packs(t, (int)vp::pick("how", 1)) == (gSize == gPack));
  gSize = gPack; CHECK(packs(t, 0)); vp_cover("agreeing passes accepted"); // and the failure left nothing behind
  auto r = serialize(t); auto o = deserialize<T>(r->getBuffer()); CHECK(getSize(*o) == r->getSize());
}
template <class U> void plainSides() { auto u = mk<U>(); sides(u); }
template <class U> void nestedSides() { Inside<U> x; x.v.push_back(mk<U>()); sides(x); }
template <class U> void ptrSides() { InPtr<U> x; x.p = std::make_unique<U>(mk<U>()); x.o = mk<U>(); sides(x); }
// the reader expects another number of elements than was written
template <class U> void counts() {
  U u = mk<U>(); gSize = gPack = vp::pick("wrote", 4); gRead = vp::pick("expects", 4);
  size_t n = getSize(u); size_t big = n + 8 * 64; char* b = new char[big]; vp_sym_mem("rest", b + n, 64); memset(b + n + 64, 0, big - n - 64); { auto r = serialize(u, [&](size_t) { return b; }); }
  bool thrown = false;
  try { auto o = deserialize<U>(b); } catch (dispatch::serialization_error const&) { thrown = true; vp_cover("reader expects another size"); }
  CHECK(thrown == (gRead != gPack)); delete[] b;
}
struct PolyU : SerializableBase<PolyU> { int a = 1; PolyU() = default; explicit PolyU(SERIALIZE_CONSTRUCT_TAG) {} virtual ~PolyU() = default; template <class S> void serialize(S& s) { s | a; } };
struct PolyD : SerializableDerived<PolyD, PolyU> { Uneven<short> u; PolyD() = default; explicit PolyD(SERIALIZE_CONSTRUCT_TAG) {} template <class S> void serialize(S& s) { s | u; } };
struct HoldPoly { std::unique_ptr<PolyU> p; template <class S> void serialize(S& s) { s | p; } };
}
HARNESS(sides_char) { plainSides<Uneven<char>>(); }
HARNESS(sides_int) { plainSides<Uneven<int>>(); }
HARNESS(sides_pt) { plainSides<Uneven<zoo::Pt>>(); }
HARNESS(sides_arr) { plainSides<UnevenArr<char>>(); }
HARNESS(sides_arr_long) { plainSides<UnevenArr<long>>(); }
HARNESS(sides_in_vector) { nestedSides<Uneven<char>>(); }
HARNESS(sides_in_vector_arr) { nestedSides<UnevenArr<short>>(); }
HARNESS(sides_in_ptr) { ptrSides<Uneven<char>>(); }
HARNESS(sides_poly) { HoldPoly h; auto* d = new PolyD; d->u = mk<Uneven<short>>(); h.p.reset(d); sides(h); }
HARNESS(counts_char) { counts<UnevenArr<char>>(); }
HARNESS(counts_int) { counts<UnevenArr<int>>(); }
HARNESS(counts_long) { counts<UnevenArr<long>>(); }
HARNESS(counts_pt) { counts<UnevenArr<zoo::Pt>>(); }
HARNESS(counts_single) { counts<Uneven<int>>(); }
namespace {
// sizes chosen so that each recorded size is a distinct word
struct Leaf7 { char c[7]{}; template <class S> void serialize(S& s) { dispatch::serializeArray(s, c, 7); } };
struct Mid { Leaf7 leaf; char pad[100]{}; template <class S> void serialize(S& s) { s | leaf; } };
struct LeafL { long q[2]{}; template <class S> void serialize(S& s) { s | q[0]; s | q[1]; } };
struct Outer { Mid mid; LeafL ll[3]; char pad[1000]{}; template <class S> void serialize(S& s) { s | mid; dispatch::serializeArray(s, ll, 3); } };
struct ChainA9 { zoo::Pt p; template <class S> void serialize(S& s) { s | p; } };
struct ChainB9 { std::vector<ChainA9> a; template <class S> void serialize(S& s) { s | a; } };
struct ChainC9 { int i = 0; ChainB9 b; template <class S> void serialize(S& s) { s | i; s | b; } };
}
HARNESS(recorded_size) { // every recorded size, replaced by any other 64-bit value, is reported
  Outer o; memset(o.mid.leaf.c, 0x55, 7); for (auto& l : o.ll) l.q[0] = l.q[1] = 0x5555555555555555;
  auto r = serialize(o); char* b = r->getBuffer(); size_t n = r->getSize();
  { auto q = deserialize<Outer>(b); CHECK(q->mid.leaf.c[6] == 0x55); }
  size_t want[] = {sizeof(Leaf7), sizeof(Mid), sizeof(LeafL) * 3, sizeof(Outer), sizeof(long)};
  size_t pos[32], np = 0; bool hit[5]{};
  for (size_t i = 0; i + 8 <= n; i++) { size_t w; memcpy(&w, b + i, 8); for (int k = 0; k < 5; k++) if (w == want[k]) { CHECK(np < 32); pos[np++] = i; hit[k] = true; break; } }
  for (bool h : hit) CHECK(h);
  size_t k = vp::range("which", 0, np - 1); size_t own, v = vp::any<size_t>("recorded"); memcpy(&own, b + pos[k], 8); vp_assume(v != own); memcpy(b + pos[k], &v, 8);
  bool thrown = false; try { auto q = deserialize<Outer>(b); } catch (dispatch::serialization_error const&) { thrown = true; vp_cover("recorded size differs"); }
  CHECK(thrown);
}
HARNESS(chain_of_types) { // the report names the enclosing types, innermost first
  ChainC9 c; c.b.a.resize(2); c.b.a[1].p.x = 0x77777777; c.b.a[1].p.y = 0x66666666; auto r = serialize(c); char* b = r->getBuffer(); size_t n = r->getSize();
  size_t at = 0; for (size_t i = 0; i + 4 <= n; i++) { int w; memcpy(&w, b + i, 4); if (w == 0x77777777) at = i; } CHECK(at > 4);
  size_t where = vp::pick("where", 1) ? at - 4 : at + 4; // the tag before the value, or the size after it
  unsigned char flip = vp::any<unsigned char>("flip"); vp_assume(flip != 0); b[where] ^= flip;
  bool thrown = false;
  try { auto q = deserialize<ChainC9>(b); }
  catch (dispatch::serialization_error const& e) { thrown = true; std::string w = e.what(); size_t x = w.find("ChainA9"), y = w.rfind("ChainB9"), z = w.rfind("ChainC9"); CHECK(w.find("Pt") != std::string::npos); CHECK(x != std::string::npos); CHECK(y != std::string::npos); CHECK(z != std::string::npos); CHECK(w.find("Pt") < x); CHECK(x < y); CHECK(y < z); vp_cover("chain reported"); }
  CHECK(thrown);
}
