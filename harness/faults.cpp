// An exception thrown at any point of any operation comes out unchanged and leaves everything as it was.
#include "fault.h"
using namespace checkpoint; using namespace flt;
namespace {
using vFz = std::vector<Fz>; using vTag = std::vector<Tag>; using lFz = std::list<Fz>; using dRec = std::deque<Rec>; using mFz = std::map<int, Fz>; using qFz = std::queue<Fz>; using oFz = std::optional<Fz>; using varFz = std::variant<int, Fz, std::string>; using uFz = std::unique_ptr<Fz>; using uVB = std::unique_ptr<VB>; using aFz = std::array<Fz, 2>; using pFz = std::pair<Fz, Fz>; using tFz = std::tuple<Fz, std::string, Fz>; using sFz = std::set<Fz>; using umFz = std::unordered_map<int, Fz>; using vvFz = std::vector<std::vector<Fz>>; using oRec = std::optional<Rec>; using uTag = std::unique_ptr<Tag>; using lTag = std::list<Tag>; using mTag = std::multimap<int, Fz>;
struct Graph { Fz a; vFz v; oFz o; uFz u; uVB w; mFz m; template <class S> void serialize(S& s) { s | a; s | v; tick(); s | o; s | u; s | w; s | m; } bool same(const Graph& q) const { return a.same(q.a) & gen::same(v, q.v) & gen::same(o, q.o) & gen::same(u, q.u) & gen::same(w, q.w) & gen::same(m, q.m); } };
struct Nested { Graph g; std::vector<Graph> h; template <class S> void serialize(S& s) { s | g; s | h; } bool same(const Nested& o) const { return g.same(o.g) & gen::same(h, o.h); } };
template <class T> struct Mk { static T make() { T t; return t; } };
template <class C> C fill() { C c; for (int i = 0; i < 2; i++) c.emplace_back(num()); return c; }
template <> struct Mk<vFz> { static vFz make() { return fill<vFz>(); } }; template <> struct Mk<vTag> { static vTag make() { return fill<vTag>(); } }; template <> struct Mk<lFz> { static lFz make() { return fill<lFz>(); } }; template <> struct Mk<lTag> { static lTag make() { return fill<lTag>(); } }; template <> struct Mk<dRec> { static dRec make() { return fill<dRec>(); } };
template <> struct Mk<mFz> { static mFz make() { mFz m; m.emplace(3, num()); m.emplace(1, num()); return m; } }; template <> struct Mk<mTag> { static mTag make() { mTag m; m.emplace(3, num()); m.emplace(3, num()); return m; } }; template <> struct Mk<umFz> { static umFz make() { umFz m; m.emplace(3, num()); m.emplace(1, num()); return m; } };
template <> struct Mk<qFz> { static qFz make() { qFz q; q.emplace(num()); q.emplace(num()); return q; } }; template <> struct Mk<oFz> { static oFz make() { return oFz(num()); } }; template <> struct Mk<oRec> { static oRec make() { return oRec(num()); } }; template <> struct Mk<varFz> { static varFz make() { return varFz(std::in_place_index<1>, num()); } };
template <> struct Mk<uFz> { static uFz make() { return std::make_unique<Fz>(num()); } }; template <> struct Mk<uTag> { static uTag make() { return std::make_unique<Tag>(num()); } }; template <> struct Mk<uVB> { static uVB make() { auto p = std::make_unique<VD>(); p->b = num(); p->d = fill<vFz>(); return p; } };
template <> struct Mk<aFz> { static aFz make() { aFz a; a[0].x = num(); a[1].s = "a string that needs the heap, again"; return a; } }; template <> struct Mk<pFz> { static pFz make() { return pFz(Fz(num()), Fz(num())); } }; template <> struct Mk<tFz> { static tFz make() { return tFz(Fz(num()), "in between", Fz(num())); } }; template <> struct Mk<sFz> { static sFz make() { sFz s; s.emplace(4); s.emplace(1); return s; } }; template <> struct Mk<vvFz> { static vvFz make() { vvFz v(2); v[1].emplace_back(num()); return v; } };
template <> struct Mk<Graph> { static Graph make() { Graph g; g.a.x = num(); g.v.emplace_back(num()); g.o.emplace(num()); g.u = std::make_unique<Fz>(num()); g.w = Mk<uVB>::make(); g.m.emplace(1, num()); return g; } }; template <> struct Mk<Nested> { static Nested make() { Nested n; n.g.a.x = num(); n.h.push_back(Mk<Graph>::make()); return n; } };
template <class T> struct Stable { T src; char* bytes; size_t n; };
template <class T> void op(int k, T& src, char* good, char* out, size_t n, char* mem, T* target) {
  switch (k) {
    case 0: CHECK(getSize(src) == n); break;
    case 1: getMemoryFootprint(src); break;
    case 2: { auto r = serialize(src); CHECK(r->getSize() == n); CHECK(memcmp(r->getBuffer(), good, n) == 0); break; }
    case 3: { auto r = serialize(src, [&](size_t) { return out; }); CHECK(memcmp(out, good, n) == 0); break; }
    case 4: { strm::OStr os(out, n); serializeToStream(src, os); CHECK(os.n == n); CHECK(memcmp(out, good, n) == 0); break; }
    case 5: { auto o = deserialize<T>(good); CHECK(gen::same(src, *o)); break; }
    case 6: { T* o = deserialize<T>(good, mem); CHECK(gen::same(src, *o)); o->~T(); break; }
    case 7: { strm::IStr is(good, n); auto o = deserializeFromStream<T>(is); CHECK(gen::same(src, *o)); break; }
    case 8: { strm::IStr is(good, n); deserializeInPlaceFromStream<T>(is, target); CHECK(gen::same(src, *target)); break; }
    default: { deserializeInPlace<T>(good, target); CHECK(gen::same(src, *target)); break; }
  }
}
template <class T> void body(bool allocs) {
  strm::inst<VB, VD>();
  { T w = Mk<T>::make(); getMemoryFootprint(w); auto r = serialize(w); auto o = deserialize<T>(r->getBuffer()); } // lazily created tables exist
  long live00 = gLive;
  constexpr bool inplace = std::is_default_constructible_v<T>;
  constexpr size_t al = alignof(T) > 16 ? alignof(T) : 16;
  {
    T src = Mk<T>::make(); size_t n = getSize(src); auto base = serialize(src); char* good = base->getBuffer(); char* snap = new char[n]; memcpy(snap, good, n); char* out = new char[n]; char* mem = (char*)::operator new(sizeof(T), std::align_val_t(al));
    { auto target = inplace ? deserialize<T>(good) : std::unique_ptr<T>();
    int k = (int)vp::pick("op", inplace ? 9 : 7);
    long lv = gLive, bl = vp_live();
    unsigned long id = vp::any<unsigned long>("id"); bool thrown = false;
    long at = (long)vp::pick("at", allocs ? VP_N(14, 40) : VP_N(10, 40));
    if (allocs) vp_fail_alloc(at); else { gAt = at; gId = id; gKind = (int)vp::pick("kind", at == 0 ? 3 : 1); gCtor = k >= 5 && vp::pick("ctor", 1); }
    try { op<T>(k, src, good, out, n, mem, target.get()); }
    catch (Boom const& b) { CHECK(!allocs); CHECK(gKind == 0); CHECK(b.id == id); thrown = true; vp_cover("user type"); }
    catch (UserError const& b) { CHECK(!allocs); CHECK(gKind == 1); CHECK(b.id == id); CHECK(strcmp(b.what(), "user error") == 0); thrown = true; vp_cover("std type"); }
    catch (std::bad_alloc const&) { CHECK(allocs || gKind == 2); thrown = true; vp_cover("bad_alloc"); }
    catch (int i) { CHECK(i == 7); CHECK(gKind == 3); thrown = true; }
    if (allocs) vp_fail_alloc(-1); else { CHECK(thrown == (gAt < 0)); gAt = -1; } gCtor = false;
    if (!thrown) vp_cover("position beyond the operation");
    if (k < 8) { CHECK(gLive == lv); CHECK(vp_live() == bl); }
    CHECK(!vp_dead(mem)); CHECK(!vp_dead(out)); CHECK(memcmp(good, snap, n) == 0);
    // as if it had never been attempted
    auto again = serialize(src); CHECK(again->getSize() == n); CHECK(memcmp(again->getBuffer(), snap, n) == 0); again.reset();
    op<T>(k, src, good, out, n, mem, target.get());
    if constexpr (inplace) { deserializeInPlace<T>(good, target.get()); CHECK(gen::same(src, *target)); }
    CHECK(vp_live() == bl || k >= 8); vp_cover("retried"); }
    ::operator delete(mem, std::align_val_t(al)); delete[] out; delete[] snap;
    CHECK(gen::same(src, *deserialize<T>(good)));
  }
  CHECK(gLive == live00);
}
}
#define FOR_FAULT(X) X(vFz) X(vTag) X(lFz) X(lTag) X(dRec) X(mFz) X(mTag) X(umFz) X(qFz) X(oFz) X(oRec) X(varFz) X(uFz) X(uTag) X(uVB) X(aFz) X(pFz) X(tFz) X(sFz) X(vvFz) X(Graph) X(Nested)
#define X(t) HARNESS(cb_##t) { body<t>(false); } HARNESS(al_##t) { body<t>(true); }
FOR_FAULT(X)
