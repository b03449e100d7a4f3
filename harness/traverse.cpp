// A user-written traverser is called for every serialized member once, in the listed order, with its address, size and count.
#define GROUP POLY
#include "streams.h"
#include <stack>
using namespace checkpoint;
using zoo::make; using zoo::Pt;
namespace tr {
struct Rec { const void* p; size_t size, n; };
inline Rec gGot[512], gWant[512]; inline int nGot = 0, nWant = 0;
inline void got(const void* p, size_t size, size_t n) { if (!n || !vp_is_heap(p)) return; CHECK(nGot < 512); gGot[nGot++] = Rec{p, size, n}; } // what the functions themselves hold on the stack (lengths, flags, type tags) is not a member
inline void want(const void* p, size_t size, size_t n) { if (!n) return; CHECK(nWant < 512); gWant[nWant++] = Rec{p, size, n}; }
inline void same(bool ordered = true) {
  vp_check(nGot == nWant, "every member once");
  if (ordered) { for (int i = 0; i < nGot && i < nWant; i++) { vp_check(gGot[i].p == gWant[i].p, "in the listed order, with the true address"); vp_check(gGot[i].size == gWant[i].size, "element size"); vp_check(gGot[i].n == gWant[i].n, "element count"); } }
  else for (int i = 0; i < nWant; i++) { int k = 0; for (int j = 0; j < nGot; j++) k += gGot[j].p == gWant[i].p && gGot[j].size == gWant[i].size && gGot[j].n == gWant[i].n; vp_check(k == 1, "every member once (any order)"); }
}
struct Bytes : BaseSerializer { int id; explicit Bytes(ModeType m = ModeType::None, int i = 5) : BaseSerializer(m), id(i) {} void contiguousBytes(void* p, SerialSizeType size, SerialSizeType n) { CHECK(id == 5); got(p, size, n); } };
struct Typed : BaseSerializer { Typed() : BaseSerializer(ModeType::None) {} template <class S, class T> void contiguousTyped(S& s, T* p, SerialSizeType n) { CHECK((void*)&s == (void*)this); got(p, sizeof(T), n); } };
// expectation, written out independently of the library
template <class T, class = void> struct Ex { static void x(T& t) { t.expect(); } };
template <class T> void ex(T& t) { Ex<std::remove_const_t<T>>::x(const_cast<std::remove_const_t<T>&>(t)); }
template <class T> void exN(T* p, size_t n) { if constexpr (std::is_arithmetic_v<T>) want(p, sizeof(T), n); else for (size_t i = 0; i < n; i++) ex(p[i]); }
template <class T> struct Ex<T, std::enable_if_t<std::is_arithmetic_v<T>>> { static void x(T& t) { want(&t, sizeof t, 1); } };
template <> struct Ex<Pt> { static void x(Pt& p) { ex(p.x); ex(p.y); } };
template <> struct Ex<std::string> { static void x(std::string& s) { want(s.data(), 1, s.size()); } };
template <class T> struct Ex<std::vector<T>> { static void x(std::vector<T>& v) { exN(v.data(), v.size()); } };
template <class T, size_t N> struct Ex<std::array<T, N>> { static void x(std::array<T, N>& v) { exN(v.data(), N); } };
template <class C> void exAll(C& c) { for (auto& e : c) ex(e); }
template <class T> struct Ex<std::list<T>> { static void x(std::list<T>& c) { exAll(c); } }; template <class T> struct Ex<std::deque<T>> { static void x(std::deque<T>& c) { exAll(c); } };
template <class T> struct Ex<std::queue<T>> { struct O : std::queue<T> { static std::deque<T>& get(std::queue<T>& q) { return q.*&O::c; } }; static void x(std::queue<T>& q) { exAll(O::get(q)); } };
template <class... A> struct Ex<std::map<A...>> { static void x(std::map<A...>& c) { exAll(c); } }; template <class... A> struct Ex<std::multimap<A...>> { static void x(std::multimap<A...>& c) { exAll(c); } }; template <class... A> struct Ex<std::set<A...>> { static void x(std::set<A...>& c) { exAll(c); } }; template <class... A> struct Ex<std::unordered_map<A...>> { static void x(std::unordered_map<A...>& c) { exAll(c); } };  template <class... A> struct Ex<std::unordered_set<A...>> { static void x(std::unordered_set<A...>& c) { exAll(c); } };
template <class A, class B> struct Ex<std::pair<A, B>> { static void x(std::pair<A, B>& p) { ex(p.first); ex(p.second); } };
template <class... A> struct Ex<std::tuple<A...>> { static void x(std::tuple<A...>& t) { std::apply([](auto&... e) { (ex(e), ...); }, t); } };
template <class T> struct Ex<std::optional<T>> { static void x(std::optional<T>& o) { if (o) ex(*o); } };
template <class... A> struct Ex<std::variant<A...>> { static void x(std::variant<A...>& v) { std::visit([](auto& e) { ex(e); }, v); } };
template <class T> struct Ex<std::unique_ptr<T>> { static void x(std::unique_ptr<T>& p) { if (p) ex(*p); } };
template <> struct Ex<zoo::PBase> { static void x(zoo::PBase& b) { using namespace zoo; ex(b.b); switch (b.kind()) { case 1: { auto& q = static_cast<PD1&>(b); ex(q.d); ex(q.s); break; } case 2: { auto& q = static_cast<PD2&>(b); ex(q.c); ex(q.v); break; } case 3: { auto& q = static_cast<PD11&>(b); ex(q.d); ex(q.s); ex(q.z); ex(q.p); break; } case 4: { auto& q = static_cast<PD3&>(b); ex(q.in); ex(q.t); } } } };
template <> struct Ex<zoo::PD1> { static void x(zoo::PD1& b) { ex<zoo::PBase>(b); } };
template <> struct Ex<zoo::MBase> { static void x(zoo::MBase& b) { using namespace zoo; ex(b.m); ex(static_cast<MD1&>(b).x); if (b.tag() >= 2) ex(static_cast<MD2&>(b).y); if (b.tag() >= 3) ex(static_cast<MD3&>(b).w); } };
template <> struct Ex<zoo::FreeFn> { static void x(zoo::FreeFn& f) { ex(f.a); ex(f.s); } };
template <> struct Ex<zoo::Inherit> { static void x(zoo::Inherit& r) { ex(r.b); ex(r.q); ex(r.z); ex(r.c); } }; template <> struct Ex<zoo::InheritOp> { static void x(zoo::InheritOp& r) { ex(r.b); ex(r.q); ex(r.z); ex(r.l); } };
template <> struct Ex<zoo::Split> { static void x(zoo::Split& r) { ex(r.pa); ex(r.th); ex(r.str); } };
template <> struct Ex<zoo::Nest> { static void x(zoo::Nest& r) { ex(r.p); ex(r.f); ex(r.in); ex(r.v); ex(r.s); ex(r.m); ex(r.o); } };
template <> struct Ex<zoo::Scalars> { static void x(zoo::Scalars& r) { ex(r.b); ex(r.c); ex(r.sc); ex(r.uc); ex(r.wc); ex(r.c16); ex(r.c32); ex(r.s); ex(r.us); ex(r.i); ex(r.u); ex(r.l); ex(r.ul); ex(r.ll); ex(r.ull); ex(r.f); ex(r.d); } };
template <> struct Ex<zoo::Arrays> { static void x(zoo::Arrays& r) { exN(r.a, 4); exN(r.p, 3); exN(r.d, 2); ex(r.s); ex(r.ap); ex(r.aa); } };
template <> struct Ex<zoo::ByteB> { static void x(zoo::ByteB& b) { want(&b, sizeof b, 1); } };
template <> struct Ex<zoo::Bytes> { static void x(zoo::Bytes& r) { want(&r.m, sizeof r.m, 1); ex(r.b); want(&r.n, sizeof r.n, 1); want(&r.k, sizeof r.k, 1); want(r.vm.data(), sizeof(zoo::ByteM), r.vm.size()); want(r.ab, sizeof(zoo::ByteB), 2); for (auto& e : r.vk) want(&e, sizeof e, 1); /* the macro writes a serialize function, called per element */ want(r.an.data(), sizeof(zoo::ByteN), 2); } };
template <> struct Ex<zoo::Chain> { static void x(zoo::Chain& c) { ex(c.v); ex(c.next); } }; template <> struct Ex<zoo::Tree> { static void x(zoo::Tree& t) { ex(t.l); ex(t.v); ex(t.s); ex(t.r); } };
template <> struct Ex<zoo::PMix> { static void x(zoo::PMix& r) { ex(r.a); ex(r.i); ex(r.m); ex(r.direct); ex(r.c); ex(r.t); } };
template <> struct Ex<zoo::RawOwner> { static void x(zoo::RawOwner& r) { if (r.p) ex(*r.p); ex(r.i); if (r.q) ex(*r.q); } }; template <> struct Ex<zoo::SharedOwner> { static void x(zoo::SharedOwner& r) { ex(r.c); ex(*r.a); } };
template <class Z> void inst() { (void)0; checkpoint::instantiateObjSerializer<zoo::PBase, Z>(); checkpoint::instantiateObjSerializer<zoo::PD1, Z>(); checkpoint::instantiateObjSerializer<zoo::PD2, Z>(); checkpoint::instantiateObjSerializer<zoo::PD11, Z>(); checkpoint::instantiateObjSerializer<zoo::PD3, Z>(); checkpoint::instantiateObjSerializer<zoo::MBase, Z>(); checkpoint::instantiateObjSerializer<zoo::MD1, Z>(); checkpoint::instantiateObjSerializer<zoo::MD2, Z>(); checkpoint::instantiateObjSerializer<zoo::MD3, Z>(); }
template <class T, bool Ordered> void body() {
  inst<Bytes>(); inst<Typed>(); gen::shape(1, 2);
  auto t = std::make_unique<T>(gen::make<T>()); // on the heap, as is all it holds
  nWant = 0; ex(*t);
  size_t how = vp::pick("how", 4); auto before = serialize(*t);
  nGot = 0;
  if (how == 0) { Bytes b; dispatch::Traverse::with(*t, b); vp_cover("a traverser object"); }
  else if (how == 1) { auto b = dispatch::Traverse::with<T, Bytes>(*t); CHECK(b.id == 5); vp_cover("constructed for the traversal"); }
  else if (how == 2) { Typed b; dispatch::Traverse::with(*t, b); vp_cover("typed"); }
  else if (how == 3) { Bytes b(eSerializationMode::Packing); b | *t; vp_cover("packing mode"); }
  else { Bytes b(eSerializationMode::Sizing); b | *t; vp_cover("sizing mode"); }
  same(Ordered);
  auto after = serialize(*t); CHECK(after->getSize() == before->getSize()); if constexpr (!kRawBytes<T>) CHECK(memcmp(after->getBuffer(), before->getBuffer(), after->getSize()) == 0); // a traversal that only looks changes nothing
}
// per-type customisation of the dispatch
inline const void* gVec[64]; inline int nVec = 0; inline const void* gPt[64]; inline int nPt = 0;
template <class S, class T> struct Cust { static void serializeIntrusive(S& s, T& t) { t.serialize(s); } static void serializeNonIntrusive(S& s, T& t) { serialize(s, t); } };
template <class S, class U> struct Cust<S, std::vector<U>> { static void serializeNonIntrusive(S&, std::vector<U>& v) { CHECK(nVec < 64); gVec[nVec++] = &v; } };
template <class S> struct Cust<S, Pt> { static void serializeIntrusive(S&, Pt& p) { CHECK(nPt < 64); gPt[nPt++] = &p; } };
struct Custom : BaseSerializer { template <class U, class V> using DispatcherType = Cust<U, V>; explicit Custom(ModeType m = ModeType::None) : BaseSerializer(m) {} void contiguousBytes(void* p, SerialSizeType size, SerialSizeType n) { got(p, size, n); } };
struct In { std::vector<int> a; Pt p; int i = 0; template <class S> void serialize(S& s) { s | a; s | p; s | i; } };
struct Out { In m; std::vector<std::string> v; std::map<int, std::vector<char>> mp; std::optional<std::vector<short>> o; std::unique_ptr<std::vector<int>> u; std::list<Pt> l; std::unique_ptr<zoo::PBase> w; Pt arr[2]; std::variant<int, std::vector<int>> va; std::pair<std::vector<int>, Pt> pr; long last = 0;
  template <class S> void serialize(S& s) { s | m; s | v; s | mp; s | o; s | u; s | l; s | w; dispatch::serializeArray(s, arr, 2); s | va; s | pr; s | last; } };
// what the user's function sees of the mode
struct Probe { int x = 0; static inline int seen = 0, calls = 0, period = 1; template <class S> void serialize(S& s) { int m = (s.isSizing() ? 1 : 0) | (s.isPacking() ? 2 : 0) | (s.isUnpacking() ? 4 : 0) | (s.isFootprinting() ? 8 : 0) | ((int)s.getMode() << 8); if (calls++ % period) CHECK(m == seen); seen = m; s | x; } bool same(const Probe& o) const { return x == o.x; } };
struct Probes { Probe a; std::vector<Probe> v; std::map<int, Probe> m; std::unique_ptr<Probe> u; std::optional<Probe> o; template <class S> void serialize(S& s) { s | a; s | v; s | m; s | u; s | o; } };
}
#define O(n, ...) HARNESS(tr_##n) { tr::body<__VA_ARGS__, true>(); }
#define U(n, ...) HARNESS(tr_##n) { tr::body<__VA_ARGS__, false>(); }
O(pt, Pt) O(scalars, zoo::Scalars) O(arrays, zoo::Arrays) O(inherit, zoo::Inherit) O(inheritop, zoo::InheritOp) O(free, zoo::FreeFn) O(split, zoo::Split) O(nest, zoo::Nest) O(bytes, zoo::Bytes) O(vi, std::vector<int>) O(vs, std::vector<std::string>) O(vv, std::vector<std::vector<short>>) O(vp, std::vector<Pt>) O(str, std::string) O(li, std::list<int>) O(ds, std::deque<std::string>) O(ai, std::array<int, 5>) O(as, std::array<std::string, 3>)
O(mis, std::map<int, std::string>) O(mm, std::map<int, std::map<short, char>>) O(mmi, std::multimap<int, int>) O(si, std::set<int>) O(spt, std::set<Pt>) O(um, zoo::um_is) O(us, zoo::us_i) O(os, std::optional<std::string>) O(v3, zoo::v_3) O(v6, std::variant<bool, short, Pt, std::optional<int>, std::list<std::string>>) O(pr, std::pair<int, std::string>) U(t3, std::tuple<int, std::string, double>) U(t6, std::tuple<bool, std::vector<int>, std::optional<std::string>, std::pair<char, long>, Pt>) O(ui, std::unique_ptr<int>) O(upt, std::unique_ptr<Pt>) O(vu, std::vector<std::unique_ptr<Pt>>) O(chain, zoo::Chain) O(tree, zoo::Tree)
O(pub, std::unique_ptr<zoo::PBase>) O(pum, std::unique_ptr<zoo::MBase>) O(pvb, std::vector<std::unique_ptr<zoo::PBase>>) O(pmix, zoo::PMix) O(qi, std::queue<int>) O(qs, std::queue<std::string>) O(qv, std::queue<std::vector<short>>) O(oq, std::optional<std::queue<long>>) O(raw, zoo::RawOwner) O(shared, zoo::SharedOwner)
HARNESS(custom_dispatch) {
  using namespace tr; inst<Custom>(); gen::C = gen::Ctx(); gen::C.maxPicks = 3; gen::C.small = 2;
  auto t = std::make_unique<Out>(); auto& o = *t; o.m.a = make<std::vector<int>>(); o.m.p = make<Pt>(); o.m.i = make<int>(); o.v = make<std::vector<std::string>>(); size_t nm = vp::pick("nm", 2); for (size_t i = 0; i < nm; i++) o.mp[(int)i].assign(i, 'x'); if (vp::pick("o", 1)) o.o.emplace(2); if (vp::pick("u", 1)) o.u = std::make_unique<std::vector<int>>(1); o.l.resize(vp::pick("nl", 2)); size_t w = vp::pick("w", 2); if (w == 1) o.w = std::make_unique<zoo::PD2>(); else if (w == 2) o.w = std::make_unique<zoo::PD11>(); if (vp::pick("va", 1)) o.va = std::vector<int>(2);
  nGot = nWant = nVec = nPt = 0; const void* wv[64]; int kv = 0; const void* wp[64]; int kp = 0;
  wv[kv++] = &o.m.a; wp[kp++] = &o.m.p; ex(o.m.i); wv[kv++] = &o.v; for (auto& e : o.mp) { want(&e.first, 4, 1); wv[kv++] = &e.second; } if (o.o) wv[kv++] = &*o.o; if (o.u) wv[kv++] = o.u.get(); for (auto& e : o.l) wp[kp++] = &e;
  if (o.w) { ex(o.w->b); if (w == 1) { auto& q = static_cast<zoo::PD2&>(*o.w); ex(q.c); wv[kv++] = &q.v; } else { auto& q = static_cast<zoo::PD11&>(*o.w); ex(q.d); ex(q.s); ex(q.z); wp[kp++] = &q.p; } }
  wp[kp++] = &o.arr[0]; wp[kp++] = &o.arr[1]; if (o.va.index() == 1) wv[kv++] = &std::get<1>(o.va); else ex(std::get<0>(o.va)); wv[kv++] = &o.pr.first; wp[kp++] = &o.pr.second; ex(o.last);
  if (vp::pick("how", 1)) { Custom c; dispatch::Traverse::with(o, c); } else dispatch::Traverse::with<Out, Custom>(o);
  same(); CHECK(nVec == kv); CHECK(nPt == kp); for (int i = 0; i < kv && i < nVec; i++) vp_check(gVec[i] == wv[i], "the customised type is reached at every level"); for (int i = 0; i < kp && i < nPt; i++) vp_check(gPt[i] == wp[i], "the customised class is reached at every level"); vp_cover("customised");
}
HARNESS(modes) {
  using namespace tr; auto t = std::make_unique<Probes>(); size_t n = vp::pick("n", 2); t->v.resize(n); for (size_t i = 0; i < n; i++) t->m[(int)i].x = 1; if (vp::pick("u", 1)) t->u = std::make_unique<Probe>(); if (vp::pick("o", 1)) t->o.emplace(); int total = 1 + (int)n * 2 + !!t->u + !!t->o;
  Probe::period = total; auto expect = [&](int bits, eSerializationMode m) { CHECK(Probe::calls == Probe::period); vp_check(Probe::seen == (bits | ((int)m << 8)), "the mode predicates hold at every level"); Probe::calls = 0; };
  Probe::calls = 0;
  { Bytes b; b | *t; expect(0, eSerializationMode::None); } { Bytes b(eSerializationMode::Packing); b | *t; expect(2, eSerializationMode::Packing); } { Bytes b(eSerializationMode::Sizing); b | *t; expect(1, eSerializationMode::Sizing); }
  getSize(*t); expect(1, eSerializationMode::Sizing); Probe::period = total - !!t->o; /* an optional's payload counts as sizeof */ getMemoryFootprint(*t); expect(8, eSerializationMode::Footprinting); Probe::period = total;
  auto r = serialize(*t); CHECK(Probe::calls == 2 * total); Probe::calls = 0; { Sizer z; z | *t; expect(1, eSerializationMode::Sizing); }
  auto o = deserialize<Probes>(r->getBuffer()); expect(4, eSerializationMode::Unpacking); CHECK(o->v.size() == n);
  strm::OStr os(r->getBuffer(), r->getSize()); { StreamPacker<strm::OStr> p(r->getSize(), os); CHECK(p.isPacking()); } 
#ifndef SERIALIZATION_ERROR_CHECKING
  { Bytes b(eSerializationMode::Unpacking); Probe::period = 1; Probe p; b | p; CHECK(Probe::calls == 1); CHECK(Probe::seen == (4 | (1 << 8))); Probe::calls = 0; vp_cover("unpacking mode"); }
#endif
}
