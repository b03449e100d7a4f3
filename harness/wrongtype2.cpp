// Pairwise distinct tags over many types, nested tags (error checking on), polymorphic identifiers.
#define GROUP POLY
#include "streams.h"
#include "tags.h"
#include <sstream>
using namespace checkpoint;
namespace {
template <class... T> struct TL {};
struct Other1 { int x = 0; SER { s | x; } }; struct Other2 { int x = 0; SER { s | x; } };
enum class OE : int { a };
using All = TL<bool, char, signed char, unsigned char, wchar_t, char16_t, char32_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, OE, zoo::E8, zoo::E64, Other1, Other2, zoo::Pt, zoo::Scalars, zoo::Inherit, std::string,
  std::vector<int>, std::vector<unsigned>, std::vector<long>, std::vector<bool>, std::vector<char>, std::vector<Other1>, std::vector<Other2>, std::vector<std::vector<int>>, std::list<int>, std::deque<int>, std::queue<int>, std::array<int, 2>, std::array<int, 3>, std::set<int>, std::multiset<int>, std::unordered_set<int>, std::unordered_multiset<int>, std::map<int, int>, std::map<int, unsigned>, std::multimap<int, int>, std::unordered_map<int, int>, std::unordered_multimap<int, int>,
  std::optional<int>, std::optional<unsigned>, std::variant<int, std::string>, std::variant<std::string, int>, std::pair<int, int>, std::pair<int, long>, std::tuple<int, int>, std::tuple<int>, std::unique_ptr<int>, std::unique_ptr<Other1>, std::chrono::nanoseconds, std::chrono::milliseconds, zoo::PBase, zoo::PD1, zoo::PD2, zoo::PD11, zoo::MD1, zoo::MD2, std::unique_ptr<zoo::PBase>, std::unique_ptr<zoo::MBase>>;
template <class T> uint32_t tagOf() { T t{}; auto r = serialize(t); uint32_t v; memcpy(&v, r->getBuffer(), 4); return v; }
template <class... T> void tags(TL<T...>, uint32_t* out) { int i = 0; ((out[i++] = tagOf<T>()), ...); }
template <class... T> constexpr size_t count(TL<T...>) { return sizeof...(T); }
template <class T> bool rej(char* b) { try { auto o = deserialize<T>(b); } catch (dispatch::serialization_error const&) { return true; } return false; }
template <class... T> void rejAll(TL<T...>, char* b, uint32_t own, const uint32_t* tag) { int i = 0; (([&] { if (tag[i] != own) CHECK(rej<T>(b)); i++; }()), ...); }
}
HARNESS(distinct) {
  constexpr size_t N = count(All{}); uint32_t a[N], b[N];
  tags(All{}, a); tags(All{}, b);
  for (size_t i = 0; i < N; i++) { CHECK(a[i] == b[i]); for (size_t j = 0; j < i; j++) if (a[i] == a[j]) { vp_check(false, "two types share a tag"); } }
  vp_cover("distinct");
}
HARNESS(pairs) { // bytes of one type against every other type, several sources
  constexpr size_t N = count(All{}); uint32_t a[N]; tags(All{}, a);
  size_t k = vp::pick("source", 3); char* keep = new char[512]; memset(keep, 0, 512);
  auto put = [&](auto& t) { auto r = serialize(t); CHECK(r->getSize() <= 512); memcpy(keep, r->getBuffer(), r->getSize()); };
  if (k == 0) { Other1 o; o.x = vp::any<int>("x"); put(o); } else if (k == 1) { std::vector<int> v(3); for (auto& x : v) x = vp::any<int>("x"); put(v); } else if (k == 2) { std::map<int, int> m; m[1] = vp::any<int>("x"); put(m); } else { std::unique_ptr<zoo::PBase> p(new zoo::PD2); p->b = vp::any<int>("x"); put(p); }
  uint32_t own; memcpy(&own, keep, 4); rejAll(All{}, keep, own, a); vp_cover("pairwise");
  delete[] keep;
}
// polymorphic identifiers: [tag][null flag][id]...: find the id position from the layout by comparing two dynamic types
HARNESS(poly_id) {
  strm::warm<zoo::pu_b>();
  std::unique_ptr<zoo::PBase> a(new zoo::PBase), b(new zoo::PD1), c(new zoo::PD2); static_cast<zoo::PD1*>(b.get())->s = "q";
  auto ra = serialize(a), rb = serialize(b), rc = serialize(c);
  size_t n = ra->getSize(), m = n < rb->getSize() ? n : rb->getSize(), pos = m; // the first byte that depends on the dynamic type is the identifier's
  for (size_t i = m; i-- > 0;) if (ra->getBuffer()[i] != rb->getBuffer()[i]) pos = i;
  CHECK(pos < m); CHECK(rc->getBuffer()[pos] != ra->getBuffer()[pos]); CHECK(rc->getBuffer()[pos] != rb->getBuffer()[pos]);
  int32_t ida, idb, idc; memcpy(&ida, ra->getBuffer() + pos, 4); memcpy(&idb, rb->getBuffer() + pos, 4); memcpy(&idc, rc->getBuffer() + pos, 4);
  int32_t id = vp::any<int32_t>("id"); bool valid = false;
  { std::unique_ptr<zoo::PBase> d(new zoo::PD11), e(new zoo::PD3); for (auto* p : {&d, &e}) { auto r = serialize(*p); int32_t v; memcpy(&v, r->getBuffer() + pos, 4); vp_assume(id != v); } }
  vp_assume(id != ida); vp_assume(id != idb); vp_assume(id != idc); vp_cover("identifier outside the registered ones");
  memcpy(ra->getBuffer() + pos, &id, 4);
  // nothing but an exception may come of it: using the identifier is an invalid access
  bool thrown = false; size_t big = n + 256; char* buf = new char[big]; memset(buf, 0, big); memcpy(buf, ra->getBuffer(), n);
  try { auto o = deserialize<std::unique_ptr<zoo::PBase>>(buf); valid = o && *o; } catch (std::exception const&) { thrown = true; }
  CHECK(thrown || !valid); CHECK(thrown); delete[] buf;
}
HARNESS(poly_id_macro) {
  strm::warm<zoo::pu_m>();
  std::unique_ptr<zoo::MBase> a(new zoo::MD1), b(new zoo::MD2), c(new zoo::MD3);
  auto ra = serialize(a), rb = serialize(b), rc = serialize(c);
  size_t n = ra->getSize(), m = n < rb->getSize() ? n : rb->getSize(), pos = m;
  for (size_t i = m; i-- > 0;) if (ra->getBuffer()[i] != rb->getBuffer()[i]) pos = i;
  CHECK(pos < m);
  int32_t ida, idb, idc; memcpy(&ida, ra->getBuffer() + pos, 4); memcpy(&idb, rb->getBuffer() + pos, 4); memcpy(&idc, rc->getBuffer() + pos, 4);
  int32_t id = vp::any<int32_t>("id"); vp_assume((id < 0) | (id > ida + 8)); vp_assume(id != idb); vp_assume(id != idc);
  memcpy(ra->getBuffer() + pos, &id, 4);
  bool thrown = false; size_t big = n + 256; char* buf = new char[big]; memset(buf, 0, big); memcpy(buf, ra->getBuffer(), n);
  try { auto o = deserialize<std::unique_ptr<zoo::MBase>>(buf); } catch (std::exception const&) { thrown = true; }
  CHECK(thrown); vp_cover("identifier outside, macro form"); delete[] buf;
}
#ifdef SERIALIZATION_ERROR_CHECKING
namespace {
struct Mid { short a = 0; std::vector<zoo::Pt> v; SER { s | a; s | v; } bool same(const Mid& o) const { return (a == o.a) & gen::same(v, o.v); } };
struct TopN { int i = 0; Mid m; std::optional<int> o; std::string st; SER { s | i; s | m; s | o; s | st; } bool same(const TopN& q) const { return (i == q.i) & m.same(q.m) & gen::same(o, q.o) & gen::same(st, q.st); } };
}
HARNESS(nested_tags) { // every nested tag, wherever it is written: any other value is rejected
  TopN t; t.i = 77; t.m.a = -3; t.m.v.resize(2); t.m.v[1].x = 5; t.o = 4; t.st = "xy";
  { auto r0 = serialize(t); auto o = deserialize<TopN>(r0->getBuffer()); CHECK(t.same(*o)); }
  auto r = serialize(t); size_t n = r->getSize(); char* b = r->getBuffer();
  // tag positions: every word that equals the leading tag of one of the types involved
  uint32_t known[] = {tagOf<TopN>(), tagOf<Mid>(), tagOf<int>(), tagOf<short>(), tagOf<std::vector<zoo::Pt>>(), tagOf<zoo::Pt>(), tagOf<std::optional<int>>(), tagOf<std::string>(), tagOf<char>(), tagOf<bool>(), tagOf<size_t>()};
  size_t pos[96]; size_t np = 0; uint32_t own[96];
  for (size_t i = 0; i + 4 <= n && np < 96; i++) { uint32_t w; memcpy(&w, b + i, 4); bool is = false; for (uint32_t q : known) is |= w == q; if (is) { pos[np] = i; own[np++] = w; i += 3; } }
  CHECK(np >= 12); size_t k = vp::range("which", 0, np - 1); uint32_t v = vp::any<uint32_t>("tag"); vp_assume(v != own[k]); memcpy(b + pos[k], &v, 4);
  bool thrown = false; try { auto o = deserialize<TopN>(b); } catch (dispatch::serialization_error const&) { thrown = true; vp_cover("nested tag rejected"); }
  CHECK(thrown);
}
#endif
