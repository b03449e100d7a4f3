// The footprint of a value is the established sum over what it holds, plus the offset; opaque pointers are never followed.
#define GROUP POLY
#include "streams.h"
#include <atomic>
#include <functional>
#include <stack>
#include <thread>
#include <cstdio>
struct ompi_communicator_t; struct ompi_group_t; struct ompi_request_t; struct ompi_win_t;
using namespace checkpoint;
using namespace std;
namespace {
template <class T, class = void> struct Fp { static size_t of(const T& t) { return t.fp(); } };
template <class T> size_t fp(const T& t) { return Fp<T>::of(t); }
template <class T> size_t sumOf(const T& c) { size_t n = 0; for (auto& x : c) n += fp(x); return n; }
template <class T> struct Fp<T, enable_if_t<is_arithmetic_v<T> || is_enum_v<T>>> { static size_t of(const T&) { return sizeof(T); } };
template <> struct Fp<string> { static size_t of(const string& s) { return sizeof s + s.capacity(); } };
template <class T, class A> struct Fp<vector<T, A>> { static size_t of(const vector<T, A>& v) { if constexpr (is_same_v<T, bool>) return sizeof v; else { size_t n = sizeof v; for (size_t i = 0; i < v.size(); i++) n += fp(v[i]); return n + (v.capacity() - v.size()) * sizeof(T); } } };
template <class T, size_t N> struct Fp<array<T, N>> { static size_t of(const array<T, N>& v) { return sumOf(v); } };
#define FP_SEQ(C) template <class... X> struct Fp<C<X...>> { static size_t of(const C<X...>& c) { return sizeof c + sumOf(c); } };
FP_SEQ(list) FP_SEQ(deque) FP_SEQ(set) FP_SEQ(multiset) FP_SEQ(unordered_set) FP_SEQ(unordered_multiset) FP_SEQ(map) FP_SEQ(multimap) FP_SEQ(unordered_map) FP_SEQ(unordered_multimap)
template <class A, class B> struct Fp<pair<A, B>> { static size_t of(const pair<A, B>& p) { return sizeof p + fp(p.first) + fp(p.second); } };
template <class T> struct Fp<const T> : Fp<T> {};
template <class... A> struct Fp<tuple<A...>> { static size_t of(const tuple<A...>& t) { return apply([](auto&... x) { return (size_t(0) + ... + fp(x)); }, t); } };
template <class T> struct Fp<optional<T>> { static size_t of(const optional<T>& o) { return sizeof o + (o ? sizeof(T) : 0); } };
template <class... A> struct Fp<variant<A...>> { static size_t of(const variant<A...>& v) { if constexpr (SerializableTraits<variant<A...>>::is_bytecopyable) return sizeof v; else return sizeof(size_t) + visit([](auto& x) { return fp(x); }, v); } };
template <class R, class P> struct Fp<chrono::duration<R, P>> { static size_t of(const chrono::duration<R, P>&) { return sizeof(R); } };
template <class T, class D> struct Fp<unique_ptr<T, D>> { static size_t of(const unique_ptr<T, D>& p) { return sizeof p + (p ? fp(*p) : 0); } };
template <class T> struct Fp<shared_ptr<T>> { static size_t of(const shared_ptr<T>& p) { return sizeof p + (p ? fp(*p) : 0); } };
template <class T> struct Fp<T*> { static size_t of(T* const& p) { return sizeof p + (p ? fp(*p) : 0); } };
#define FP_OPAQUE(T) template <> struct Fp<T*> { static size_t of(T* const&) { return sizeof(T*); } };
FP_OPAQUE(void) FP_OPAQUE(FILE) FP_OPAQUE(ompi_communicator_t) FP_OPAQUE(ompi_group_t) FP_OPAQUE(ompi_request_t) FP_OPAQUE(ompi_win_t)
template <class T, class... X> struct Fp<queue<T, X...>> { static size_t of(const queue<T, X...>& q) { return sizeof q + q.size() * sizeof(T); } };
template <class T, class... X> struct Fp<stack<T, X...>> { static size_t of(const stack<T, X...>& q) { return sizeof q + q.size() * sizeof(T); } };
template <class T, class... X> struct Fp<priority_queue<T, X...>> { static size_t of(const priority_queue<T, X...>& q) { return sizeof q + q.size() * sizeof(T); } };
template <class T> struct Fp<atomic<T>> { static size_t of(const atomic<T>&) { return sizeof(atomic<T>); } };
template <class R, class... A> struct Fp<function<R(A...)>> { static size_t of(const function<R(A...)>&) { return sizeof(function<R(A...)>); } };
template <> struct Fp<thread> { static size_t of(const thread&) { return sizeof(thread); } };
// ---- user classes: the sum of what their serialize function lists
struct Opaque { double d = 0; int i = 0; static Opaque gen() { return {}; } bool operator<(const Opaque& o) const { return i < o.i; } size_t fp() const { return sizeof(Opaque); } }; // no serialize function
struct Padded { char c = 0; double d = 0; template <class S> void serialize(S& s) { s | c; s | d; } static Padded gen() { return {}; } size_t fp() const { return 9; } };
struct Mixed { char c = 0; vector<string> v; unique_ptr<Padded> p; map<int, vector<short>> m; Opaque o; void* q = nullptr; template <class S> void serialize(S& s) { s | c; s | v; s | p; s | m; s | o; s | q; }
  static Mixed gen() { Mixed x; x.v = gen::make<vector<string>>(); x.p = gen::make<unique_ptr<Padded>>(); x.m = gen::make<map<int, vector<short>>>(); x.q = (void*)vp::any<uintptr_t>("q"); return x; }
  size_t fp() const { return 1 + ::fp(v) + ::fp(p) + ::fp(m) + sizeof o + sizeof q; } };
struct Hidden { int a = 0; vector<int> unseen; template <class S> void serialize(S& s) { s | a; } static Hidden gen() { Hidden h; h.unseen = gen::make<vector<int>>(); return h; } size_t fp() const { return 4; } }; // only listed members are followed
struct BytesT { using isByteCopyable = std::true_type; char x[11]{}; static BytesT gen() { return {}; } size_t fp() const { return 11; } };
struct Arr { BytesT b[3]; Padded p[2]; string s[2]; template <class S> void serialize(S& z) { dispatch::serializeArray(z, b, 3); dispatch::serializeArray(z, p, 2); dispatch::serializeArray(z, s, 2); } static Arr gen() { Arr a; a.s[0] = gen::make<string>(); a.s[1] = gen::make<string>(); return a; } size_t fp() const { return 33 + 18 + ::fp(s[0]) + ::fp(s[1]); } };
struct Extra { vector<char> v; template <class S> void serialize(S& s) { if (s.isFootprinting()) { s.countBytes(*this); s.addBytes(v.capacity()); } else s | v; } static Extra gen() { Extra e; e.v = gen::make<vector<char>>(); return e; } size_t fp() const { return sizeof(Extra) + v.capacity(); } };
size_t pfp(const zoo::PBase& p) {
  size_t n = 4;
  if (auto* q = dynamic_cast<const zoo::PD11*>(&p)) return n + 8 + fp(q->s) + 2 + 8;
  if (auto* q = dynamic_cast<const zoo::PD1*>(&p)) return n + 8 + fp(q->s);
  if (auto* q = dynamic_cast<const zoo::PD2*>(&p)) return n + 1 + fp(q->v);
  if (auto* q = dynamic_cast<const zoo::PD3*>(&p)) return n + sizeof(q->in) + (q->in ? pfp(*q->in) : 0) + 4;
  return n;
}
template <> struct Fp<zoo::PBase> { static size_t of(const zoo::PBase& p) { return pfp(p); } };
template <> struct Fp<zoo::PD2> { static size_t of(const zoo::PD2& p) { return pfp(p); } };
template <> struct Fp<zoo::Pt> { static size_t of(const zoo::Pt&) { return 8; } };
template <> struct Fp<zoo::NoDef> { static size_t of(const zoo::NoDef& p) { return 4 + fp(p.t); } };
template <class T> void verify(T& t) {
  size_t want = fp(t) > sizeof t ? fp(t) : sizeof t;
  CHECK(getMemoryFootprint(t) == want);
  size_t off = vp::any<size_t>("offset"); CHECK(getMemoryFootprint(t, off) == off + want);
  CHECK(getMemoryFootprint(t) >= sizeof t); vp_cover("footprint");
}
template <class T> void sized() { gen::shape(2, 3); T t = gen::make<T>(); verify(t); }
}
#define F(n, ...) HARNESS(fp_##n) { sized<__VA_ARGS__>(); }
enum class FE : short { a };
F(bool, bool) F(char, char) F(short, short) F(int, int) F(long, long) F(ull, unsigned long long) F(float, float) F(double, double) F(longdouble, long double) F(enum, FE)
F(arr_i, array<int, 3>) F(arr_s, array<string, 2>) F(str, string) F(vec_i, vector<int>) F(vec_c, vector<char>) F(vec_s, vector<string>) F(vec_vv, vector<vector<long>>) F(vec_pad, vector<Padded>) F(vec_opq, vector<Opaque>) F(vec_by, vector<BytesT>) F(vec_nd, vector<zoo::NoDef>)
F(list, list<int>) F(list_s, list<string>) F(list_v, list<vector<int>>) F(deq, deque<short>) F(deq_pt, deque<zoo::Pt>) F(deq_s, deque<string>)
F(map_is, map<int, string>) F(map_gt, map<int, vector<char>, greater<int>>) F(map_u, map<int, unique_ptr<double>>) F(mmap, multimap<int, string>) F(set, set<int>) F(set_s, set<string>) F(mset, multiset<char>)
F(umap, unordered_map<int, string>) F(ummap, unordered_multimap<int, int>) F(uset, unordered_set<long>) F(umset, unordered_multiset<int>) F(umap_opq, unordered_map<int, Opaque>)
F(pair, pair<int, string>) F(pair_v, pair<vector<int>, char>) F(tup, tuple<int, double, string>) F(tup_v, tuple<vector<int>, char, tuple<short>>) F(opt, optional<int>) F(opt_s, optional<string>) F(opt_b, optional<bool>) F(var, variant<int, string, vector<long>>) F(var_b, variant<int, char>) F(dur, chrono::duration<long, milli>) F(dur_d, chrono::duration<double>)
F(u_i, unique_ptr<int>) F(u_pad, unique_ptr<Padded>) F(u_v, unique_ptr<vector<string>>) F(u_u, unique_ptr<unique_ptr<string>>) F(vu, vector<unique_ptr<string>>)
F(q_i, queue<int>) F(q_s, queue<string>) F(mixed, Mixed) F(hidden, Hidden) F(user_arr, Arr) F(extra, Extra) F(opaque, Opaque) F(padded, Padded) F(bytes, BytesT)
F(poly, unique_ptr<zoo::PBase>) F(polyvec, vector<unique_ptr<zoo::PBase>>) F(polyval, vector<zoo::PD2>)
// ---- values the generators do not make
HARNESS(fp_capacity) { // unused capacity, after growing and shrinking
  gen::C = gen::Ctx(); vector<int> v; v.reserve(vp::pick("reserve", 9)); size_t n = vp::pick("n", 5); for (size_t i = 0; i < n; i++) v.push_back(1); size_t k = vp::pick("pop", 5); for (size_t i = 0; i < k && !v.empty(); i++) v.pop_back();
  CHECK(getMemoryFootprint(v) == sizeof v + v.capacity() * sizeof(int)); CHECK(v.capacity() >= n); verify(v);
}
HARNESS(fp_capacity_str) {
  string s; s.reserve(10 * vp::pick("reserve", 5)); size_t n = vp::pick("n", 20); for (size_t i = 0; i < n; i++) s.push_back('a'); s.resize(vp::pick("cut", 1) ? n / 2 : n);
  CHECK(getMemoryFootprint(s) == sizeof s + s.capacity()); verify(s);
}
HARNESS(fp_capacity_vecstr) { vector<string> v; v.reserve(7); size_t n = vp::pick("n", 4); for (size_t i = 0; i < n; i++) { v.emplace_back(); v.back().reserve(20 * i); } verify(v); }
HARNESS(fp_stack) { gen::C = gen::Ctx(); size_t n = vp::pick("n", 6); stack<int> s; stack<string, vector<string>> t; priority_queue<int> p; for (size_t i = 0; i < n; i++) { s.push(1); t.push("abc"); p.push((int)i); } verify(s); verify(p); queue<long> q; for (size_t i = 0; i < n; i++) q.push(3); q.push(1); q.pop(); verify(q); }
HARNESS(fp_shared) { size_t k = vp::pick("k", 3); shared_ptr<vector<int>> p; if (k) { p = make_shared<vector<int>>(); p->reserve(k * 3); p->push_back(2); } verify(p); shared_ptr<Padded> q = p ? make_shared<Padded>() : nullptr; verify(q); vector<shared_ptr<string>> v(k); if (k) v[0] = make_shared<string>("a rather long string value"); verify(v); }
HARNESS(fp_raw) { int i = 5; int* p = vp::pick("null", 1) ? nullptr : &i; verify(p); Padded d; Padded* pd = p ? &d : nullptr; verify(pd); int** pp = &p; verify(pp); const char* str = "12345"; CHECK(getMemoryFootprint(str) == sizeof str + 1); vector<int*> v(3, p); v.reserve(5); verify(v); vector<int> big(40); auto* bp = &big; verify(bp); }
namespace { template <class T> void opaquePtr() { T* p = (T*)vp::any<uintptr_t>("where"); CHECK(getMemoryFootprint(p) == sizeof p); vector<T*> v(3, p); CHECK(getMemoryFootprint(v) == sizeof v + v.capacity() * sizeof p); pair<int, T*> q(1, p); CHECK(getMemoryFootprint(q) == sizeof q + 4 + sizeof p); tuple<T*, T*> t(p, p); CHECK(getMemoryFootprint(t) == 2 * sizeof p); map<int, T*> m; m[1] = p; CHECK(getMemoryFootprint(m) == sizeof m + sizeof(pair<const int, T*>) + 4 + sizeof p); vp_cover("opaque"); } }
HARNESS(fp_void) { opaquePtr<void>(); }
HARNESS(fp_file) { opaquePtr<FILE>(); }
HARNESS(fp_ompi_comm) { opaquePtr<ompi_communicator_t>(); }
HARNESS(fp_ompi_group) { opaquePtr<ompi_group_t>(); }
HARNESS(fp_ompi_req) { opaquePtr<ompi_request_t>(); }
HARNESS(fp_ompi_win) { opaquePtr<ompi_win_t>(); }
HARNESS(fp_atomic) { atomic<bool> b{false}; atomic<long> l{4}; CHECK(getMemoryFootprint(b) == sizeof b); CHECK(getMemoryFootprint(l) == sizeof l); function<int(int)> f; CHECK(getMemoryFootprint(f) == sizeof f); int z = 3; f = [z](int x) { return x + z; }; CHECK(getMemoryFootprint(f) == sizeof f); thread t; CHECK(getMemoryFootprint(t) == sizeof t); }
HARNESS(fp_grows) { // follows the contents
  vector<string> v; size_t last = getMemoryFootprint(v); for (int i = 0; i < 6; i++) { v.push_back(string(vp::pick("n", 1) * 30, 'x')); size_t f = getMemoryFootprint(v); CHECK(f > last); last = f; }
  map<int, string> m; last = getMemoryFootprint(m); for (int i = 0; i < 4; i++) { m[i] = "s"; size_t f = getMemoryFootprint(m); CHECK(f > last); last = f; }
}
