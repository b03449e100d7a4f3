// Types declared byte-copyable travel as exactly their sizeof bytes, padding included; every other type goes through its serialize function.
#include "streams.h"
#define BG_B0 0
#define BG_B1 1
#define BG_B2 2
#define BG_B3 3
#define BG_B4 4
#define BG_B5 5
#define BG_B6 6
#define BG_B7 7
#define BG_B8 8
#define BG_B9 9
#define BG_B10 10
#define BG_B11 11
#define BG_B12 12
#define BG_B13 13
#define BG2(x) BG_##x
#define BG(x) BG2(x)
using namespace checkpoint;
namespace bc {
using std::vector; using std::string; using std::optional; using std::variant; using std::pair; using std::tuple; using std::map; using std::list; using std::unique_ptr; using std::array;
enum class En : short { x, y };
struct Member { using isByteCopyable = std::true_type; char c = 1; int i = 2; short s = 3; }; // padding after c and s
struct Helper : SerdesByteCopy { char c = 1; double d = 2; En e{}; };
struct NonIn { long double ld = 0; char c = 4; };
struct Macro { short s = 1; void* p = nullptr; char c = 2; };
struct Odd { using isByteCopyable = std::true_type; char raw[13] = {}; };
struct Bits : SerdesByteCopy { unsigned a : 3; unsigned b : 17; union { float f; char z; } u; char* ptr; Bits() : a(0), b(0), ptr(nullptr) { u.f = 0; } };
struct Nested { using isByteCopyable = std::true_type; Member m; Helper h; int a[3] = {}; };
struct Derived : Helper { char more = 7; long l = 1; };
struct DerivedM : Member { double q = 0; };
template <class T, int N> struct Tmpl : SerdesByteCopy { T v[N] = {}; char t = 0; };
template <class T> struct TmplN { T v{}; char t = 0; };
struct Big { int n = 0; char b[300] = {}; };
struct WithFn { using isByteCopyable = std::true_type; int a = 0; char c = 0; int kept = 0; template <class S> void serialize(S& s) { s | a; } }; // the declaration, not the function, decides
struct NoDef { using isByteCopyable = std::true_type; char c; long l; NoDef() = delete; explicit NoDef(int) : c(0), l(0) {} static NoDef& reconstruct(void* p) { return *new (p) NoDef(0); } };
struct Al : SerdesByteCopy { alignas(32) char c = 1; int k = 0; };
// never byte-copied
inline int gCalls = 0;
struct Cnt { int a = 0; char c = 0; int skip = 9; template <class S> void serialize(S& s) { gCalls++; s | a; s | c; } bool same(const Cnt& o) const { return (a == o.a) & (c == o.c) & (o.skip == 9); } };
struct CntF { int a = 0; char c = 0; int skip = 9; bool same(const CntF& o) const { return (a == o.a) & (c == o.c) & (o.skip == 9); } };
template <class S> void serialize(S& s, CntF& f) { gCalls++; s | f.a; s | f.c; }
struct Off : Helper { using isByteCopyable = std::false_type; int a = 0; int skip = 9; template <class S> void serialize(S& s) { gCalls++; s | static_cast<Helper&>(*this); s | a; } bool same(const Off& o) const { return (a == o.a) & (c == o.c) & gen::same(d, o.d) & (o.skip == 9); } };
struct OffM { using isByteCopyable = std::false_type; int a = 0; char c = 0; int skip = 9; template <class S> void serialize(S& s) { gCalls++; s | a; s | c; } bool same(const OffM& o) const { return (a == o.a) & (c == o.c) & (o.skip == 9); } };
struct OfBytes { Member m; Helper h; int a = 0; int skip = 9; template <class S> void serialize(S& s) { gCalls++; s | m; s | a; s | h; } bool same(const OfBytes& o) const { return (a == o.a) & (m.c == o.m.c) & (m.i == o.m.i) & (m.s == o.m.s) & (h.c == o.h.c) & gen::same(h.d, o.h.d) & (h.e == o.h.e) & (o.skip == 9); } };
struct SplitC { int a = 0; char c = 0; int skip = 9; template <class S> void serialize(S&) { gCalls++; } template <class S> void serializeParent(S& s) { s | a; } template <class S> void serializeThis(S& s) { s | c; } bool same(const SplitC& o) const { return (a == o.a) & (c == o.c) & (o.skip == 9); } };
struct Pad { char c = 0; double d = 0; }; // declared for another type only
template <class S> void serialize(S& s, Pad& p) { gCalls++; s | p.c; s | p.d; }
}
namespace checkpoint { template <> struct ByteCopyNonIntrusive<bc::NonIn> { using isByteCopyable = std::true_type; }; template <> struct ByteCopyNonIntrusive<bc::Big> { using isByteCopyable = std::true_type; }; template <class T> struct ByteCopyNonIntrusive<bc::TmplN<T>> { using isByteCopyable = std::true_type; }; }
CHECKPOINT_BYTES(bc::Macro)
namespace bc {
template <class T> void raw(T& t) { vp_sym_mem("raw", (void*)&t, sizeof(T)); }
template <class T> bool eq(const T& a, const T& b) { return memcmp((const void*)&a, (const void*)&b, sizeof(T)) == 0; }
template <class T> T mk() { if constexpr (std::is_default_constructible_v<T>) return T{}; else return T(0); }
// a user-written serializer; the object lies on the heap, so what the functions hold on the stack is not counted
struct Rec : BaseSerializer { struct R { char* p; size_t n; } r[600]; int k = 0; Rec() : BaseSerializer(eSerializationMode::Packing) {} void contiguousBytes(void* p, SerialSizeType size, SerialSizeType n) { if (!n || !size || !vp_is_heap(p)) return; CHECK(k < 600); r[k++] = R{(char*)p, (size_t)(size * n)}; }
  void covers(const void* q, size_t n) { const char* b = (const char*)q; const char* at = b; for (int i = 0; i < k; i++) if (r[i].p < b + n && b < r[i].p + r[i].n) { vp_check(r[i].p == at, "contiguous, once"); at = r[i].p + r[i].n; } vp_check(at == b + n, "exactly its sizeof bytes"); }
  void within(const void* q, size_t n) { const char* b = (const char*)q; for (int i = 0; i < k; i++) if (r[i].p < b + n && b < r[i].p + r[i].n) { vp_check(r[i].p >= b && r[i].p + r[i].n <= b + n, "only the member itself"); } } };
template <class T> bool contains(const char* buf, size_t n, const T* p, size_t cnt) { size_t len = cnt * sizeof(T), over = n - len; bool any = false; for (size_t off = 0; off <= over; off++) any |= memcmp(buf + off, (const void*)p, len) == 0; return any; }
inline size_t overhead() { char c = 0; return getSize(c) - 1; }
template <class T> struct Hold { int before = 1; T t = mk<T>(); string mid = "ab"; T arr[3] = {mk<T>(), mk<T>(), mk<T>()}; vector<T> v; array<T, 2> sa = {mk<T>(), mk<T>()}; unique_ptr<T> u; long after = 2;
  template <class S> void serialize(S& s) { s | before; s | t; s | mid; dispatch::serializeArray(s, arr, 3); s | v; s | sa; s | u; s | after; }
  bool same(const Hold& o) const { bool r = eq(t, o.t) & eq(arr[0], o.arr[0]) & eq(arr[1], o.arr[1]) & eq(arr[2], o.arr[2]) & eq(sa[0], o.sa[0]) & eq(sa[1], o.sa[1]); if (v.size() != o.v.size() || !u != !o.u) return false; for (size_t i = 0; i < v.size(); i++) r &= eq(v[i], o.v[i]); if (u) r &= eq(*u, *o.u); return r & (before == o.before) & (after == o.after) & (mid == o.mid); } };
template <class T> void one() {
  vp_cover("declared"); auto t = std::make_unique<T>(mk<T>()); raw(*t);
  vp_check(getSize(*t) == sizeof(T) + overhead(), "sizeof bytes");
  auto r = checkpoint::serialize(*t); CHECK(r->getSize() == sizeof(T) + overhead()); vp_check(contains(r->getBuffer(), r->getSize(), t.get(), 1), "the object's own bytes");
  { auto o = checkpoint::deserialize<T>(r->getBuffer()); vp_check(eq(*o, *t), "every byte restored"); }
  { auto o = std::make_unique<T>(mk<T>()); checkpoint::deserializeInPlace<T>(r->getBuffer(), o.get()); vp_check(eq(*o, *t), "every byte restored in place"); }
  { size_t n = r->getSize(); strm::OStr os(new char[n], n); serializeToStream(*t, os); CHECK(os.n == n); CHECK(memcmp(os.p, r->getBuffer(), n) == 0); strm::IStr is(os.p, n); auto o = deserializeFromStream<T>(is); CHECK(is.n == n); vp_check(eq(*o, *t), "every byte restored from a stream"); delete[] os.p; }
  Rec rec; dispatch::Traverse::with(*t, rec); rec.covers(t.get(), sizeof(T));
}
template <class T> void seq() {
  size_t k = vp::pick("n", VP_N(5, 8)), n = k == VP_N(5, 8) ? 33 : k; auto v = std::make_unique<vector<T>>(); v->reserve(n + 2); for (size_t i = 0; i < n; i++) { v->push_back(mk<T>()); } for (auto& x : *v) raw(x);
  vector<T> single; single.push_back(mk<T>()); if (n) vp_check(getSize(*v) - getSize(single) == (n - 1) * sizeof(T), "n times sizeof");
  auto r = checkpoint::serialize(*v); if (n && n < 33) vp_check(contains(r->getBuffer(), r->getSize(), v->data(), n), "the elements' own bytes, contiguous");
  auto o = checkpoint::deserialize<vector<T>>(r->getBuffer()); CHECK(o->size() == n); for (size_t i = 0; i < n && i < o->size(); i++) vp_check(eq((*o)[i], (*v)[i]), "every byte of every element");
  Rec rec; dispatch::Traverse::with(*v, rec); if (n) rec.covers(v->data(), n * sizeof(T));
}
template <class T> void held() {
  auto h = std::make_unique<Hold<T>>(); raw(h->t); for (auto& x : h->arr) raw(x); for (auto& x : h->sa) raw(x); size_t n = vp::pick("n", 2); for (size_t i = 0; i < n; i++) h->v.push_back(mk<T>()); for (auto& x : h->v) raw(x); if (vp::pick("u", 1)) { h->u = std::make_unique<T>(mk<T>()); raw(*h->u); }
  auto r = checkpoint::serialize(*h); auto o = checkpoint::deserialize<Hold<T>>(r->getBuffer()); vp_check(h->same(*o), "every byte as a member, array, vector, std::array and pointee");
  { Hold<T> q; raw(q.t); q.v.resize(3, mk<T>()); checkpoint::deserializeInPlace<Hold<T>>(r->getBuffer(), &q); vp_check(h->same(q), "in place"); }
  Rec rec; dispatch::Traverse::with(*h, rec); rec.covers(&h->t, sizeof(T)); rec.covers(h->arr, 3 * sizeof(T)); if (n) rec.covers(h->v.data(), n * sizeof(T)); rec.covers(&h->sa, 2 * sizeof(T)); if (h->u) rec.covers(h->u.get(), sizeof(T));
}
// through containers that build the element elsewhere and move it in: padding is not the library's to keep there
template <class T> struct Cont { list<T> l; map<int, T> m; optional<T> o; variant<T, string> a; variant<int, T, string> b; pair<char, T> p{1, T{}}; tuple<T, char> t; std::deque<T> d; template <class S> void serialize(S& s) { s | l; s | m; s | o; s | a; s | b; s | p; s | t; s | d; } };
template <class T, class F> void cont(F same) {
  auto h = std::make_unique<Cont<T>>(); auto mkr = [] { T t{}; raw(t); return t; }; h->l.push_back(mkr()); h->l.push_back(mkr()); h->m.emplace(3, mkr()); h->m.emplace(1, mkr()); size_t w = vp::pick("w", 2); if (w) h->o = mkr(); if (w == 1) h->a = mkr(); else h->a = string("xyz"); if (w == 0) h->b = mkr(); else if (w == 1) h->b = string("q"); h->p.second = mkr(); std::get<0>(h->t) = mkr(); h->d.push_back(mkr());
  auto r = checkpoint::serialize(*h); auto q = checkpoint::deserialize<Cont<T>>(r->getBuffer()); auto& g = *q;
  CHECK(g.l.size() == 2 && g.m.size() == 2 && g.d.size() == 1); vp_check(same(h->l.front(), g.l.front()) & same(h->l.back(), g.l.back()) & same(h->m.at(3), g.m.at(3)) & same(h->m.at(1), g.m.at(1)) & same(h->d[0], g.d[0]) & same(h->p.second, g.p.second) & same(std::get<0>(h->t), std::get<0>(g.t)), "restored in containers");
  CHECK(g.o.has_value() == (w != 0)); if (w) CHECK(same(*h->o, *g.o)); CHECK(g.a.index() == h->a.index()); if (w == 1) CHECK(same(std::get<0>(h->a), std::get<0>(g.a))); else CHECK(std::get<1>(g.a) == "xyz"); CHECK(g.b.index() == h->b.index()); if (w == 0) CHECK(same(std::get<1>(h->b), std::get<1>(g.b)));
  Rec rec; dispatch::Traverse::with(*h, rec); for (auto& x : h->l) rec.covers(&x, sizeof x); for (auto& x : h->m) rec.covers(&x.second, sizeof(T)); if (w) rec.covers(&*h->o, sizeof(T)); if (w == 1) rec.covers(&std::get<0>(h->a), sizeof(T)); if (w == 0) rec.covers(&std::get<1>(h->b), sizeof(T)); rec.covers(&h->p.second, sizeof(T)); rec.covers(&std::get<0>(h->t), sizeof(T)); rec.covers(&h->d[0], sizeof(T));
}
// never byte-copied: the serialize function runs once per object and pass, and what it leaves out stays out
template <class T> T mkD() { T t; t.a = gen::make<int>(); t.c = gen::make<char>(); t.skip = 5; return t; }
template <> OfBytes mkD<OfBytes>() { OfBytes t; t.a = gen::make<int>(); raw(t.m); t.skip = 5; return t; }
template <class T> struct Deep { T t; T arr[2]; vector<T> v; array<T, 2> sa; list<T> l; map<int, T> m; optional<T> o; variant<T, int> a; variant<int, T, double> b; variant<int, double, T> c; pair<T, int> p; tuple<char, T> tu; unique_ptr<T> u; variant<int, variant<char, T>> vv; vector<variant<int, T>> va; array<variant<T, char>, 2> av;
  template <class S> void serialize(S& s) { s | t; dispatch::serializeArray(s, arr, 2); s | v; s | sa; s | l; s | m; s | o; s | a; s | b; s | c; s | p; s | tu; s | u; s | vv; s | va; s | av; } };
template <class T> void deep() {
  vp_cover("not declared"); gen::C = gen::Ctx(); auto h = std::make_unique<Deep<T>>(); auto& d = *h; size_t w = vp::pick("w", 1), n = vp::pick("n", 2); int e = 0; auto k = [&] { e++; return mkD<T>(); };
  d.t = k(); d.arr[0] = k(); d.arr[1] = k(); d.sa[0] = k(); d.sa[1] = k(); for (size_t i = 0; i < n; i++) { d.v.push_back(k()); d.l.push_back(k()); d.m.emplace((int)i, k()); if (i) d.va.emplace_back(k()); else d.va.emplace_back(3); } d.p.first = k(); std::get<1>(d.tu) = k(); d.av[1] = k(); e++; /* d.av[0] holds the first alternative */
  if (w) { d.o = k(); d.a = 4; d.b = k(); d.c = k(); d.u = std::make_unique<T>(k()); d.vv = variant<char, T>(k()); } else { d.a = k(); d.b = 2.5; d.c = 7; d.vv = variant<char, T>('x'); }
  gCalls = 0; size_t sz = getSize(d); vp_check(gCalls == e, "its serialize function, once per object (sizing)");
  gCalls = 0; auto r = checkpoint::serialize(d); vp_check(gCalls == 2 * e, "its serialize function, once per object and pass"); CHECK(r->getSize() == sz);
  gCalls = 0; auto o = checkpoint::deserialize<Deep<T>>(r->getBuffer()); vp_check(gCalls == e, "its serialize function, once per object (unpacking)"); auto& g = *o;
  CHECK(g.v.size() == n && g.l.size() == n && g.m.size() == n && g.va.size() == n); bool s = d.t.same(g.t) & d.arr[0].same(g.arr[0]) & d.arr[1].same(g.arr[1]) & d.sa[0].same(g.sa[0]) & d.sa[1].same(g.sa[1]) & d.p.first.same(g.p.first) & std::get<1>(d.tu).same(std::get<1>(g.tu)); for (size_t i = 0; i < n; i++) s &= d.v[i].same(g.v[i]) & d.m.at((int)i).same(g.m.at((int)i)); if (n) s &= d.l.back().same(g.l.back()); if (n > 1) { CHECK(g.va[1].index() == 1); s &= std::get<1>(d.va[1]).same(std::get<1>(g.va[1])); } CHECK(g.av[1].index() == 0 && g.av[0].index() == 0); s &= std::get<0>(d.av[1]).same(std::get<0>(g.av[1]));
  CHECK(g.a.index() == d.a.index() && g.b.index() == d.b.index() && g.c.index() == d.c.index() && g.vv.index() == 1); if (w) { CHECK(g.o && g.u); s &= d.o->same(*g.o) & d.u->same(*g.u) & std::get<1>(d.b).same(std::get<1>(g.b)) & std::get<2>(d.c).same(std::get<2>(g.c)); CHECK(std::get<1>(g.vv).index() == 1); s &= std::get<1>(std::get<1>(d.vv)).same(std::get<1>(std::get<1>(g.vv))); } else s &= std::get<0>(d.a).same(std::get<0>(g.a));
  vp_check(s, "serialized members restored, others as constructed");
  gCalls = 0; Rec rec; dispatch::Traverse::with(d, rec); vp_check(gCalls == e, "also for a user-written serializer");
}
// variants with a deep alternative: only the alternative's own members are passed, never the variant's storage
template <class V> void var(V& v, void (*check)(Rec&, V&)) { Rec rec; dispatch::Traverse::with(v, rec); check(rec, v); for (int i = 0; i < rec.k; i++) vp_check(!(rec.r[i].p <= (char*)&v && rec.r[i].p + rec.r[i].n >= (char*)&v + sizeof v), "a variant with a deep alternative is not byte-copied"); auto r = checkpoint::serialize(v); auto o = checkpoint::deserialize<V>(r->getBuffer()); CHECK(o->index() == v.index()); vp_check(gen::same(*o, v), "restored"); vector<V> two; two.push_back(std::move(v)); Rec r2; dispatch::Traverse::with(two, r2); for (int i = 0; i < r2.k; i++) vp_check(!(r2.r[i].p <= (char*)two.data() && r2.r[i].p + r2.r[i].n >= (char*)two.data() + sizeof(V)), "nor in a vector"); auto rr = checkpoint::serialize(two); auto oo = checkpoint::deserialize<vector<V>>(rr->getBuffer()); CHECK(oo->size() == 1 && gen::same((*oo)[0], two[0])); }
template <class V, size_t I> void setAlt(V& v, size_t k) { if constexpr (I < std::variant_size_v<V>) { if (k == I) { using A = std::variant_alternative_t<I, V>; v.template emplace<I>(gen::make<A>()); return; } setAlt<V, I + 1>(v, k); } }
template <class V> void alts() { gen::shape(0, 2); gen::C.maxPicks = 2; size_t k = vp::pick("alt", std::variant_size_v<V> - 1); auto v = std::make_unique<V>(); setAlt<V, 0>(*v, k); var<V>(*v, [](Rec& rec, V& x) { std::visit([&](auto& e) { rec.within(&e, sizeof e); }, x); }); vp_cover("variant"); }
// pairs, tuples, optionals and arrays of them have no padding in the bytes
template <class T> void packed(T& t, std::initializer_list<std::pair<void*, size_t>> mem) { Rec rec; dispatch::Traverse::with(t, rec); size_t total = 0, want = 0; for (int i = 0; i < rec.k; i++) total += rec.r[i].n; for (auto& m : mem) { rec.covers(m.first, m.second); want += m.second; } vp_check(total == want, "only the members"); }
}
#define B(n, ...) HARNESS(one_##n) { bc::one<__VA_ARGS__>(); } HARNESS(seq_##n) { bc::seq<__VA_ARGS__>(); }
#define BH(n, ...) B(n, __VA_ARGS__) HARNESS(held_##n) { bc::held<__VA_ARGS__>(); }
using tm1 = bc::Tmpl<short, 3>; using tm2 = bc::Tmpl<bc::Member, 2>; using tn1 = bc::TmplN<int>; using tn2 = bc::TmplN<double>;
#if BG(GROUP) == 0
BH(member, bc::Member)
B(odd, bc::Odd)
B(derivedm, bc::DerivedM)
B(tn2, tn2)
B(al, bc::Al)
#endif
#if BG(GROUP) == 1
BH(helper, bc::Helper)
BH(bits, bc::Bits)
B(tm1, tm1)
B(big, bc::Big)
#endif
#if BG(GROUP) == 2
BH(nonin, bc::NonIn)
BH(nested, bc::Nested)
B(tm2, tm2)
BH(withfn, bc::WithFn)
#endif
#if BG(GROUP) == 3
BH(macro, bc::Macro)
BH(derived, bc::Derived)
B(tn1, tn1)
B(nodef, bc::NoDef)
#endif
#define C(n, e, ...) HARNESS(cont_##n) { bc::cont<__VA_ARGS__>([](const __VA_ARGS__& a, const __VA_ARGS__& b) { return e; }); }
#if BG(GROUP) == 4
C(member, (a.c == b.c) & (a.i == b.i) & (a.s == b.s), bc::Member)
C(helper, (a.c == b.c) & gen::same(a.d, b.d) & (a.e == b.e), bc::Helper)
C(macro, (a.s == b.s) & (a.p == b.p) & (a.c == b.c), bc::Macro)
#endif
#if BG(GROUP) == 5
C(nonin, gen::same(a.ld, b.ld) & (a.c == b.c), bc::NonIn)
C(odd, bc::eq(a, b), bc::Odd)
C(derived, (a.c == b.c) & (a.more == b.more) & (a.l == b.l) & gen::same(a.d, b.d), bc::Derived)
#endif
#define D(n, ...) HARNESS(deep_##n) { bc::deep<__VA_ARGS__>(); }
#if BG(GROUP) == 6
D(cnt, bc::Cnt)
D(cntf, bc::CntF)
#endif
#if BG(GROUP) == 7
D(off, bc::Off)
D(offm, bc::OffM)
#endif
#if BG(GROUP) == 8
D(ofbytes, bc::OfBytes)
D(split, bc::SplitC)
#endif
namespace bc { struct Ptr { unique_ptr<int> p; template <class S> void serialize(S& s) { s | p; } static Ptr gen() { Ptr r; r.p = std::make_unique<int>(gen::make<int>()); return r; } bool same(const Ptr& o) const { return p && o.p && *p == *o.p; } };
struct MemberG : Member { static MemberG gen() { MemberG r; r.i = gen::make<int>(); return r; } bool same(const MemberG& o) const { return i == o.i; } }; struct MacroG { int k = 0; char c = 0; static MacroG gen() { MacroG r; r.k = gen::make<int>(); return r; } bool same(const MacroG& o) const { return k == o.k; } }; }
CHECKPOINT_BYTES(bc::MacroG)
#define V(n, ...) HARNESS(var_##n) { bc::alts<__VA_ARGS__>(); }
using namespace bc;
#if BG(GROUP) == 9
V(v1, variant<string>)
V(v6, variant<int, double, char, vector<int>>)
V(v11, variant<unique_ptr<int>, MemberG>)
V(v16, variant<int, MacroG, string>)
#endif
#if BG(GROUP) == 10
V(v2, variant<int, string>)
V(v7, variant<int, variant<char, string>>)
V(v12, variant<char, optional<string>, MemberG>)
V(v17, variant<array<string, 2>, char>)
#endif
#if BG(GROUP) == 11
V(v3, variant<string, int>)
V(v8, variant<variant<char, string>, int>)
V(v13, variant<int, std::pair<int, string>>)
V(v18, variant<bool, char, short, int, long, float, double, string>)
#endif
#if BG(GROUP) == 12
V(v4, variant<int, string, double>)
V(v9, variant<MemberG, string>)
V(v14, variant<double, variant<MemberG, variant<char, vector<int>>>>)
V(v19, variant<map<int, int>, MemberG, long>)
#endif
#if BG(GROUP) == 13
V(v5, variant<vector<int>, int, double, char>)
V(v10, variant<MemberG, long, Ptr>)
V(v15, variant<zoo::Pt, int>)
V(v20, variant<MemberG, char, tuple<int, string>>)
#endif
#if BG(GROUP) == 4
HARNESS(packed) {
  vp_cover("packed"); auto p = std::make_unique<pair<char, int>>(1, 2); packed(*p, {{&p->first, 1}, {&p->second, 4}}); auto t = std::make_unique<tuple<char, double, short>>(); packed(*t, {{&std::get<0>(*t), 1}, {&std::get<1>(*t), 8}, {&std::get<2>(*t), 2}});
  auto o = std::make_unique<optional<int>>(3); packed(*o, {{&**o, 4}}); auto d = std::make_unique<Pad>(); gCalls = 0; packed(*d, {{&d->c, 1}, {&d->d, 8}}); CHECK(gCalls == 1); auto a = std::make_unique<array<pair<char, int>, 2>>(); packed(*a, {{&(*a)[0].first, 1}, {&(*a)[0].second, 4}, {&(*a)[1].first, 1}, {&(*a)[1].second, 4}});
  auto v = std::make_unique<vector<Pad>>(3); gCalls = 0; packed(*v, {{&(*v)[0].c, 1}, {&(*v)[0].d, 8}, {&(*v)[1].c, 1}, {&(*v)[1].d, 8}, {&(*v)[2].c, 1}, {&(*v)[2].d, 8}}); CHECK(gCalls == 3); auto ob = std::make_unique<OfBytes>(); packed(*ob, {{&ob->m, sizeof(Member)}, {&ob->a, 4}, {&ob->h, sizeof(Helper)}});
}
#endif
