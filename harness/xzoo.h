// Long containers and odd shapes: filled with a fixed pattern of values with symbolic ones at spread-out positions.
#pragma once
#include "streams.h"
namespace ext {
using namespace std;
inline unsigned long gSym[8]; inline size_t gAt = 0;
inline void fresh() { for (auto& x : gSym) x = vp::any<unsigned long>("s"); }
template <class T> T val(size_t i) { // every 97th value is symbolic
  unsigned long z = (i % 97 == 5) ? gSym[(i / 97) % 8] : i * 2654435761u + 12345;
  if constexpr (is_arithmetic_v<T> && !is_floating_point_v<T>) { if constexpr (is_same_v<T, bool>) return z & 1; else return (T)z; }
  else if constexpr (is_same_v<T, double>) { double d; memcpy(&d, &z, 8); return d; }
  else if constexpr (is_same_v<T, string>) { string s((i * 7) % 19, 0); for (auto& c : s) c = (char)(z >>= 3); return s; }
  else return T::val(i);
}
struct P2 { int x = 0; short y = 0; SER { s | x; s | y; } static P2 val(size_t i) { P2 p; p.x = ext::val<int>(i); p.y = ext::val<short>(i + 1); return p; } bool eq(const P2& o) const { return (x == o.x) & (y == o.y); } };
template <class T> struct Pool { // an allocator of one's own
  using value_type = T; Pool() = default; template <class U> Pool(const Pool<U>&) {} T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { ::operator delete(p); }
  template <class U> bool operator==(const Pool<U>&) const { return true; } template <class U> bool operator!=(const Pool<U>&) const { return false; } };
template <size_t I> struct Alt { int v = 0; SER { s | v; } bool eq(const Alt& o) const { return v == o.v; } };
template <class S> struct AltV; template <size_t... I> struct AltV<index_sequence<I...>> { using V = variant<Alt<I>...>; using T = tuple<Alt<I>...>; };
using Many = AltV<make_index_sequence<300>>::V; using Wide = AltV<make_index_sequence<40>>::T;
template <class T, class = void> struct E { static bool eq(const T& a, const T& b) { if constexpr (is_floating_point_v<T>) return memcmp(&a, &b, sizeof a) == 0; else if constexpr (is_arithmetic_v<T>) return a == b; else return a.eq(b); } };
template <class T> bool eq(const T& a, const T& b) { return E<T>::eq(a, b); }
template <class C> bool seq(const C& a, const C& b) { if (a.size() != b.size()) return false; bool r = true; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) { if (j == b.end()) return false; r &= eq<typename C::value_type>(*i, *j); } return r & (j == b.end()); }
template <class T, class A> struct E<vector<T, A>> { static bool eq(const vector<T, A>& a, const vector<T, A>& b) { return seq(a, b); } };
template <class A> struct E<vector<bool, A>> { static bool eq(const vector<bool, A>& a, const vector<bool, A>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) { r &= bool(a[i]) == bool(b[i]); if (i % 512 == 511) { CHECK(r); r = true; } } return r; } };
template <class T> struct E<list<T>> { static bool eq(const list<T>& a, const list<T>& b) { return seq(a, b); } };
template <class T> struct E<deque<T>> { static bool eq(const deque<T>& a, const deque<T>& b) { return seq(a, b); } };
template <> struct E<string> { static bool eq(const string& a, const string& b) { return seq(a, b) & (a.c_str()[a.size()] == 0); } };
template <class T> struct E<queue<T>> { struct O : queue<T> { static const deque<T>& get(const queue<T>& q) { return q.*&O::c; } }; static bool eq(const queue<T>& a, const queue<T>& b) { return seq(O::get(a), O::get(b)); } };
template <class A, class B> struct E<pair<A, B>> { static bool eq(const pair<A, B>& a, const pair<A, B>& b) { return ext::eq<remove_const_t<A>>(a.first, b.first) & ext::eq<remove_const_t<B>>(a.second, b.second); } };
template <class K, class V, class... R> struct E<map<K, V, R...>> { static bool eq(const map<K, V, R...>& a, const map<K, V, R...>& b) { return seq(a, b); } };
template <class K, class V, class... R> struct E<multimap<K, V, R...>> { static bool eq(const multimap<K, V, R...>& a, const multimap<K, V, R...>& b) { return seq(a, b); } };
template <class K, class... R> struct E<set<K, R...>> { static bool eq(const set<K, R...>& a, const set<K, R...>& b) { return seq(a, b); } };
template <class K, class... R> struct E<unordered_set<K, R...>> { static bool eq(const unordered_set<K, R...>& a, const unordered_set<K, R...>& b) { if (a.size() != b.size()) return false; size_t n = 0; for (auto& x : a) { if (!b.count(x)) return false; n++; } return n == b.size(); } };
template <class K, class V, class... R> struct E<unordered_map<K, V, R...>> { static bool eq(const unordered_map<K, V, R...>& a, const unordered_map<K, V, R...>& b) { if (a.size() != b.size()) return false; bool r = true; size_t n = 0; for (auto& x : a) { auto f = b.find(x.first); if (f == b.end()) return false; r &= ext::eq(x.second, f->second); n++; } return r & (n == b.size()); } };
template <class T> struct E<optional<T>> { static bool eq(const optional<T>& a, const optional<T>& b) { if (a.has_value() != b.has_value()) return false; return !a || ext::eq(*a, *b); } };
template <class T, class D> struct E<unique_ptr<T, D>> { static bool eq(const unique_ptr<T, D>& a, const unique_ptr<T, D>& b) { if (!a || !b) return !a && !b; return a != b && ext::eq(*a, *b); } };
template <class T, size_t N> struct E<array<T, N>> { static bool eq(const array<T, N>& a, const array<T, N>& b) { return seq(a, b); } };
template <class... A> struct E<tuple<A...>> { template <size_t... I> static bool go(const tuple<A...>& a, const tuple<A...>& b, index_sequence<I...>) { bool r = true; ((r &= ext::eq(get<I>(a), get<I>(b))), ...); return r; } static bool eq(const tuple<A...>& a, const tuple<A...>& b) { return go(a, b, index_sequence_for<A...>()); } };
template <class T> struct Fill;
template <class T> T fill(size_t n) { return Fill<T>::make(n); }
template <class T, class A> struct Fill<vector<T, A>> { static vector<T, A> make(size_t n) { vector<T, A> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(val<T>(i)); return v; } };
template <class T> struct Fill<list<T>> { static list<T> make(size_t n) { list<T> v; for (size_t i = 0; i < n; i++) v.push_back(val<T>(i)); return v; } };
template <class T> struct Fill<deque<T>> { static deque<T> make(size_t n) { deque<T> v; for (size_t i = 0; i < n; i++) v.push_back(val<T>(i)); return v; } };
template <class T> struct Fill<queue<T>> { static queue<T> make(size_t n) { queue<T> v; for (size_t i = 0; i < n; i++) v.push(val<T>(i)); return v; } };
template <> struct Fill<string> { static string make(size_t n) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = val<char>(i); return s; } };
template <class K, class V, class... R> struct Fill<map<K, V, R...>> { static map<K, V, R...> make(size_t n) { map<K, V, R...> m; for (size_t i = 0; i < n; i++) m.emplace_hint(m.end(), (K)i, val<V>(i)); return m; } };
template <class K, class V, class... R> struct Fill<multimap<K, V, R...>> { static multimap<K, V, R...> make(size_t n) { multimap<K, V, R...> m; for (size_t i = 0; i < n; i++) m.emplace_hint(m.end(), (K)(i / 3), val<V>(i)); return m; } };
template <class K, class... R> struct Fill<set<K, R...>> { static set<K, R...> make(size_t n) { set<K, R...> m; for (size_t i = 0; i < n; i++) m.emplace_hint(m.end(), (K)i); return m; } };
template <class K, class... R> struct Fill<unordered_set<K, R...>> { static unordered_set<K, R...> make(size_t n) { unordered_set<K, R...> m; for (size_t i = 0; i < n; i++) m.insert((K)(i * 3)); return m; } };
template <class K, class V, class... R> struct Fill<unordered_map<K, V, R...>> { static unordered_map<K, V, R...> make(size_t n) { unordered_map<K, V, R...> m; for (size_t i = 0; i < n; i++) m.emplace((K)(i * 3), val<V>(i)); return m; } };
using lv_s = vector<string>; using lv_p = vector<P2>; using lv_b = vector<bool>; using ll_i = list<int>; using ld_s = deque<short>; using lq_i = queue<int>; using lm_i = map<int, double>; using lmm_i = multimap<int, int>; using ls_l = set<long>; using lus_i = unordered_set<int>; using lum_i = unordered_map<long, int>; using lv_pool = vector<int, Pool<int>>; using lstr = string;
#define EXT_LONGQ(X) X(lv_s) X(lv_p) X(lv_b) X(ll_i) X(ld_s) X(lq_i) X(lv_pool) X(lstr)
#define EXT_LONGA(X) X(lm_i) X(lmm_i) X(ls_l) X(lus_i) X(lum_i)
using hv_b = vector<bool>; using hl_c = list<char>; using hd_c = deque<char>; using hq_c = queue<char>; using hv_p = vector<P2>; using hs_i = set<int>; using hm_c = map<int, char>; using hus_i = unordered_set<int>;
#define EXT_HUGEQ(X) X(hv_b) X(hl_c) X(hd_c) X(hq_c) X(hv_p)
#define EXT_HUGEA(X) X(hs_i) X(hm_c) X(hus_i)
// ---- odd shapes, filled in four ways
template <class T> struct Box { T v; SER { s | v; } };
template <int D> struct Nested { Nested<D - 1> in; char c = 0; template <class S> void serialize(S& s) { s | c; s | in; } static Nested val(size_t i) { Nested n; n.c = ext::val<char>(i + D); n.in = Nested<D - 1>::val(i); return n; } bool eq(const Nested& o) const { return (c == o.c) & in.eq(o.in); } };
template <> struct Nested<0> { int e = 0; template <class S> void serialize(S& s) { s | e; } static Nested val(size_t i) { Nested n; n.e = ext::val<int>(i * 97 + 5); return n; } bool eq(const Nested& o) const { return e == o.e; } };
using Deep30 = Nested<30>;
template <> struct Fill<Deep30> { static Deep30 make(size_t n) { return Deep30::val(n); } };
using Opt6 = optional<optional<optional<optional<optional<optional<int>>>>>>;
template <class T> struct MkOpt { static T make(size_t) { return ext::val<int>(5); } }; template <class T> struct MkOpt<optional<T>> { static optional<T> make(size_t n) { if (n == 0) return nullopt; return optional<T>(in_place, MkOpt<T>::make(n - 1)); } };
template <> struct Fill<Opt6> { static Opt6 make(size_t n) { return MkOpt<Opt6>::make(n == 3 ? 6 : n * 2); } };
using VVV = vector<vector<vector<vector<short>>>>;
template <> struct Fill<VVV> { static VVV make(size_t n) { VVV v(n); for (auto& a : v) { a.resize(n); for (auto& b : a) { b.resize(2); b[1].resize(n, ext::val<short>(5)); } } return v; } };
using Arr0 = array<int, 0>; using Arr0s = array<string, 0>; using Arr300 = array<short, 300>; using ArrP = array<P2, 70>;
template <> struct Fill<Arr0> { static Arr0 make(size_t) { return {}; } }; template <> struct Fill<Arr0s> { static Arr0s make(size_t) { return {}; } };
template <> struct Fill<Arr300> { static Arr300 make(size_t n) { Arr300 a; for (size_t i = 0; i < 300; i++) a[i] = val<short>(i * 5 + n); return a; } }; template <> struct Fill<ArrP> { static ArrP make(size_t n) { ArrP a; for (size_t i = 0; i < 70; i++) a[i] = P2::val(i * 5 + n); return a; } };
template <> struct E<Many> { template <size_t I> static bool alt(const Many& a, const Many& b) { return eq(*get_if<I>(&a), *get_if<I>(&b)); }
  template <size_t... I> static bool go(const Many& a, const Many& b, index_sequence<I...>) { bool r = false; ((a.index() == I ? (r = alt<I>(a, b), true) : false) || ...); return r; }
  static bool eq(const Alt<0>& a, const Alt<0>& b) { return a.eq(b); } template <size_t I> static bool eq(const Alt<I>& a, const Alt<I>& b) { return a.eq(b); }
  static bool eq(const Many& a, const Many& b) { if (a.index() != b.index()) return false; return *(const int*)&a == *(const int*)&b; } };
template <> struct Fill<Many> { static Many make(size_t n) { int v = ext::val<int>(5); switch (n) { case 0: return Alt<3>{v}; case 1: return Alt<127>{v}; case 2: return Alt<128>{v}; default: return Alt<299>{v}; } } };
template <> struct Fill<Wide> { template <size_t... I> static void set(Wide& w, size_t n, index_sequence<I...>) { ((get<I>(w).v = ext::val<int>(I * 9 + 5 + n)), ...); } static Wide make(size_t n) { Wide w; set(w, n, make_index_sequence<40>()); return w; } };
struct Roomy { vector<int> v; vector<bool> b; vector<string> s; vector<vector<int>> in; optional<vector<int>> o; variant<int, vector<short>> a; map<int, vector<int>> m; list<vector<char>> l; unique_ptr<vector<int>> p; pair<int, vector<int>> q; tuple<vector<int>, char> t; deque<vector<int>> d; queue<vector<int>> k; array<vector<int>, 2> r; // unused capacity everywhere
  template <class S> void serialize(S& z) { z | v; z | b; z | s; z | in; z | o; z | a; z | m; z | l; z | p; z | q; z | t; z | d; z | k; z | r; }
  template <class T> static vector<T> mk(size_t n, size_t cap) { vector<T> x; x.reserve(cap); for (size_t i = 0; i < n; i++) x.push_back(ext::val<T>(i * 97 + 5)); return x; }
  static Roomy make(size_t n) { Roomy r; size_t c = n == 0 ? 0 : n == 1 ? 9 : n == 2 ? 300 : 5000; r.v = mk<int>(n, c); r.b = mk<bool>(n, c); r.s = mk<string>(n, c); r.in.reserve(c); r.in.push_back(mk<int>(n, c)); r.o = mk<int>(n, c); r.o->reserve(c); r.a = mk<short>(n, c); r.m.emplace(1, mk<int>(n, c)); r.l.push_back(mk<char>(n, c)); r.p.reset(new vector<int>(mk<int>(n, c))); r.p->reserve(c); r.q.second = mk<int>(n, c); get<0>(r.t) = mk<int>(n, c); r.d.push_back(mk<int>(n, c)); r.k.push(mk<int>(n, c)); r.r[1] = mk<int>(n, c); return r; }
  template <class T> static bool one(const vector<T>& a, const vector<T>& b) { return ext::eq(a, b) & (b.capacity() >= a.capacity()); }
  bool eq(const Roomy& x) const { const vector<short> *va = get_if<1>(&a), *vb = get_if<1>(&x.a); if (!o || !x.o || !va || !vb || !p || !x.p || m.size() != 1 || x.m.size() != 1 || l.size() != 1 || x.l.size() != 1 || in.size() != 1 || x.in.size() != 1 || d.size() != 1 || x.d.size() != 1 || k.size() != 1 || x.k.size() != 1) return false;
    bool z = one(v, x.v) & one(b, x.b) & one(s, x.s) & one(in[0], x.in[0]) & one(*o, *x.o) & one(*va, *vb) & one(m.begin()->second, x.m.begin()->second) & one(l.front(), x.l.front()) & one(*p, *x.p) & one(q.second, x.q.second) & one(get<0>(t), get<0>(x.t)) & one(d[0], x.d[0]) & one(k.front(), x.k.front()) & one(r[1], x.r[1]); return z & (in.capacity() <= x.in.capacity()); } };
template <> struct Fill<Roomy> { static Roomy make(size_t n) { return Roomy::make(n); } };
#define EXT_ODDQ(X) X(VVV) X(Arr0) X(Arr0s) X(Arr300) X(ArrP) X(Roomy)
#define EXT_ODDS(X) X(Deep30) X(Opt6) X(Wide)
}
