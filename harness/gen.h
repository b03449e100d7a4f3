// Symbolic values of every supported container kind, and structural equality on them.
#pragma once
#include "vp.h"
#include <checkpoint/checkpoint.h>
#include <array>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace gen {
// How container lengths are chosen. A large shape fixes the outermost length; a small one leaves it to the solver.
struct Ctx { bool big = false; size_t outer = 0; size_t small = 2; unsigned depth = 0; unsigned ctr = 0; unsigned picks = 0, strs = 0; unsigned keys = 0; bool concKeys = false; unsigned maxPicks = VP_N(4, 6); };
inline Ctx C;
struct Deeper { Deeper() { C.depth++; } ~Deeper() { C.depth--; } };
inline size_t len(size_t fixedPattern3 = 3) {
  if (C.big) return C.depth == 0 ? C.outer : (C.ctr++) % fixedPattern3;
  if (C.picks >= C.maxPicks) return (C.ctr++) % 2;
  C.picks++;
  return vp::pick("len", C.depth == 0 ? C.small : 1);
}
inline size_t slen() { // string lengths include both sides of the inline-storage limit
  static const size_t pat[] = {0, 3, 15, 16, 1, 20};
  if (C.big) return C.depth == 0 ? C.outer : pat[(C.ctr++) % 6];
  if (C.picks >= C.maxPicks) return pat[(C.ctr++) % 4];
  C.picks++;
  return pat[vp::pick("slen", C.depth == 0 ? 5 : 2)];
}

inline size_t choose(const char* n, size_t max) { if (C.big || C.picks >= C.maxPicks) return (C.ctr++) % (max + 1); C.picks++; return vp::pick(n, max); } // 0..max
template <class T, class = void> struct Gen { static T make() { return T::gen(); } };
template <class T> T make() { return Gen<T>::make(); }
template <class T> struct Gen<T, std::enable_if_t<std::is_arithmetic_v<T>>> { static T make() { return vp::any<T>("x"); } };
template <class T> struct Gen<T, std::enable_if_t<std::is_enum_v<T>>> { static T make() { return static_cast<T>(vp::any<std::underlying_type_t<T>>("e")); } };
template <> struct Gen<std::string> { static std::string make() { size_t n = slen(); std::string s(n, 0); if (C.strs++ % 3 == 0) s.reserve(2 * n + 9); for (size_t i = 0; i < n; i++) s[i] = vp::any<char>("c"); return s; } };
template <class T, class A> struct Gen<std::vector<T, A>> {
  static std::vector<T, A> make() { size_t n = len(); std::vector<T, A> v; if ((C.ctr & 1) == 0) v.reserve(n + n / 2); Deeper d; for (size_t i = 0; i < n; i++) v.push_back(gen::make<T>()); return v; }
};
template <class T> struct Gen<std::list<T>> { static std::list<T> make() { size_t n = len(); std::list<T> v; Deeper d; for (size_t i = 0; i < n; i++) v.push_back(gen::make<T>()); return v; } };
template <class T> struct Gen<std::deque<T>> { static std::deque<T> make() { size_t n = len(); std::deque<T> v; Deeper d; for (size_t i = 0; i < n; i++) { if (i % 3 == 2) v.push_front(gen::make<T>()); else v.push_back(gen::make<T>()); } return v; } };
template <class T> struct Gen<std::queue<T>> { static std::queue<T> make() { size_t n = len(); std::queue<T> v; Deeper d; for (size_t i = 0; i < n; i++) v.push(gen::make<T>()); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make() { std::array<T, N> v{}; Deeper d; for (size_t i = 0; i < N; i++) v[i] = gen::make<T>(); return v; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make() { Deeper d; A a = gen::make<A>(); B b = gen::make<B>(); return std::pair<A, B>(std::move(a), std::move(b)); } };
template <class... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> make() { Deeper d; return std::tuple<A...>{gen::make<A>()...}; } };
template <class T> struct Gen<std::optional<T>> { static std::optional<T> make() { if (!choose("has", 1)) return std::nullopt; Deeper d; return std::optional<T>(std::in_place, gen::make<T>()); } };
template <class V, size_t I> V mkAlt(size_t k) { if constexpr (I < std::variant_size_v<V>) { if (k == I) return V(std::in_place_index<I>, gen::make<std::variant_alternative_t<I, V>>()); return mkAlt<V, I + 1>(k); } else { vp_fail("alt"); } }
template <class... A> struct Gen<std::variant<A...>> { static std::variant<A...> make() { size_t k = choose("alt", sizeof...(A) - 1); Deeper d; return mkAlt<std::variant<A...>, 0>(k); } };
template <class R, class P> struct Gen<std::chrono::duration<R, P>> { static std::chrono::duration<R, P> make() { return std::chrono::duration<R, P>(gen::make<R>()); } };
template <class T, class D> struct Gen<std::unique_ptr<T, D>> { static std::unique_ptr<T, D> make() {
  bool null = C.big ? C.ctr++ % 4 == 3 : choose("null", 1);
  if (null) return nullptr; Deeper d; if constexpr (std::is_polymorphic_v<T>) return std::unique_ptr<T, D>(T::genPtr()); else return std::unique_ptr<T, D>(new T(gen::make<T>())); } };
// keys: symbolic for the small shapes, distinct concrete ones for the large shapes (values stay symbolic)
template <class K> struct Key { static K make() { return gen::make<K>(); } };
template <class M, class = void> struct StdHash { static constexpr bool v = false; };
template <class M> struct StdHash<M, std::void_t<typename M::hasher>> { static constexpr bool v = std::is_same_v<typename M::hasher, std::hash<typename M::key_type>>; };
template <class K, class M = int> K key() { // keys hashed by std::hash are concrete: its output modulo a prime is out of the solver's reach
  if (C.big || C.concKeys || StdHash<M>::v) {
    unsigned i = C.keys++; unsigned z = (i * 7919u + 13u) ^ (i << 9);
    if constexpr (std::is_arithmetic_v<K>) return static_cast<K>(sizeof(K) == 1 ? i * 37 : (i & 1) ? -(long)z : (long)z);
    else if constexpr (std::is_same_v<K, std::string>) { std::string s = std::to_string(z); if (i % 3 == 1) s += "-a rather long key"; return s; }
    else return K::key(i);
  }
  return gen::make<K>();
}
#define GEN_MAP(M) template <class K, class V, class... X> struct Gen<std::M<K, V, X...>> { static std::M<K, V, X...> make() { size_t n = len(); std::M<K, V, X...> m; Deeper d; for (size_t i = 0; i < n; i++) { K k = key<K, decltype(m)>(); m.emplace(std::move(k), gen::make<V>()); } return m; } };
#define GEN_SET(M) template <class K, class... X> struct Gen<std::M<K, X...>> { static std::M<K, X...> make() { size_t n = len(); std::M<K, X...> m; Deeper d; for (size_t i = 0; i < n; i++) m.insert(key<K, decltype(m)>()); return m; } };
GEN_MAP(map) GEN_MAP(unordered_map)
GEN_SET(set) GEN_SET(unordered_set)
// multi-containers: repeat keys
#define GEN_MMAP(M) template <class K, class V, class... X> struct Gen<std::M<K, V, X...>> { static std::M<K, V, X...> make() { size_t n = len(); std::M<K, V, X...> m; Deeper d; for (size_t i = 0; i < n; i++) { if (C.big && i % 3 == 1) { K k = m.begin()->first; m.emplace(k, gen::make<V>()); } else { K k = key<K, decltype(m)>(); m.emplace(std::move(k), gen::make<V>()); } } return m; } };
#define GEN_MSET(M) template <class K, class... X> struct Gen<std::M<K, X...>> { static std::M<K, X...> make() { size_t n = len(); std::M<K, X...> m; Deeper d; for (size_t i = 0; i < n; i++) { if (C.big && i % 3 == 1) { K k = *m.begin(); m.insert(k); } else m.insert(key<K, decltype(m)>()); } return m; } };
GEN_MMAP(multimap) GEN_MMAP(unordered_multimap) GEN_MSET(multiset) GEN_MSET(unordered_multiset)

// ---- structural equality (bit for bit on scalars), without branching on symbolic data where possible
template <class T, class = void> struct Eq { static bool same(const T& a, const T& b) { return a.same(b); } };
template <class T> bool same(const T& a, const T& b) { return Eq<T>::same(a, b); }
template <class T> struct Eq<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static bool same(const T& a, const T& b) {
    if constexpr (std::is_same_v<T, long double>) return memcmp(&a, &b, 10) == 0;
    else if constexpr (std::is_floating_point_v<T>) { std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t> x, y; memcpy(&x, &a, sizeof x); memcpy(&y, &b, sizeof y); return x == y; }
    else return a == b;
  }
};
template <class It> bool sameSeq(It a, It ae, It b, It be) { bool r = true; for (; a != ae; ++a, ++b) { if (b == be) return false; r &= gen::same(*a, *b); } return r & (b == be); }
template <> struct Eq<std::string> { static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r & (a.c_str()[a.size()] == 0); } };
#define EQ_SEQ(S) template <class T, class... A> struct Eq<std::S<T, A...>> { static bool same(const std::S<T, A...>& a, const std::S<T, A...>& b) { return (a.size() == b.size()) && sameSeq(a.begin(), a.end(), b.begin(), b.end()); } };
EQ_SEQ(vector) EQ_SEQ(list) EQ_SEQ(deque) EQ_SEQ(map) EQ_SEQ(multimap) EQ_SEQ(set) EQ_SEQ(multiset)
template <class A> struct Eq<std::vector<bool, A>> { static bool same(const std::vector<bool, A>& a, const std::vector<bool, A>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= bool(a[i]) == bool(b[i]); return r; } };
template <class T, class... A> struct Eq<std::queue<T, A...>> {
  struct Open : std::queue<T, A...> { static const typename std::queue<T, A...>::container_type& get(const std::queue<T, A...>& q) { return q.*&Open::c; } };
  static bool same(const std::queue<T, A...>& a, const std::queue<T, A...>& b) { return gen::same(Open::get(a), Open::get(b)); } };
template <class T, size_t N> struct Eq<std::array<T, N>> { static bool same(const std::array<T, N>& a, const std::array<T, N>& b) { return sameSeq(a.begin(), a.end(), b.begin(), b.end()); } };
template <class A, class B> struct Eq<std::pair<A, B>> { static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return gen::same<std::remove_const_t<A>>(a.first, b.first) & gen::same<std::remove_const_t<B>>(a.second, b.second); } };
template <class... A> struct Eq<std::tuple<A...>> {
  template <size_t... I> static bool go(const std::tuple<A...>& a, const std::tuple<A...>& b, std::index_sequence<I...>) { return (true & ... & gen::same(std::get<I>(a), std::get<I>(b))); }
  static bool same(const std::tuple<A...>& a, const std::tuple<A...>& b) { return go(a, b, std::index_sequence_for<A...>()); } };
template <class T> struct Eq<std::optional<T>> { static bool same(const std::optional<T>& a, const std::optional<T>& b) { if (a.has_value() != b.has_value()) return false; return !a || gen::same(*a, *b); } };
template <class V, size_t I> bool sameAlt(const V& a, const V& b) { if constexpr (I < std::variant_size_v<V>) { if (a.index() == I) return gen::same(*std::get_if<I>(&a), *std::get_if<I>(&b)); return sameAlt<V, I + 1>(a, b); } else return false; }
template <class... A> struct Eq<std::variant<A...>> { static bool same(const std::variant<A...>& a, const std::variant<A...>& b) { if (a.index() != b.index()) return false; return sameAlt<std::variant<A...>, 0>(a, b); } };
template <class R, class P> struct Eq<std::chrono::duration<R, P>> { static bool same(const std::chrono::duration<R, P>& a, const std::chrono::duration<R, P>& b) { return gen::same(a.count(), b.count()); } };
template <class T, class D> struct Eq<std::unique_ptr<T, D>> { static bool same(const std::unique_ptr<T, D>& a, const std::unique_ptr<T, D>& b) { if (!a || !b) return !a && !b; if (a.get() == b.get()) return &a == &b; if constexpr (std::is_polymorphic_v<T>) return a->same(*b); else return gen::same(*a, *b); } };
// unordered: every entry occurs equally often on both sides
template <class M> bool sameUnordered(const M& a, const M& b) {
  if (a.size() != b.size()) return false;
  bool r = true; size_t na = 0, nb = 0;
  for (auto& x : a) { size_t ca = 0, cb = 0; for (auto& y : a) ca += gen::same(x, y); for (auto& y : b) cb += gen::same(x, y); r &= ca == cb; na++; }
  for (auto& y : b) { (void)y; nb++; }
  return r & (na == nb) & (nb == b.size());
}
#define EQ_UN(S) template <class... A> struct Eq<std::S<A...>> { static bool same(const std::S<A...>& a, const std::S<A...>& b) { return sameUnordered(a, b); } };
EQ_UN(unordered_map) EQ_UN(unordered_multimap) EQ_UN(unordered_set) EQ_UN(unordered_multiset)

// shapes: 0 is the small, fully symbolic one; the others have a fixed large outer length
inline const size_t kBig[] = {VP_N(17, 17), 33, 65, VP_N(130, 130), VP_N(260, 260)
#ifdef VP_THOROUGH
  , 5, 8, 9, 31, 64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025
#endif
};
constexpr size_t kNBig = sizeof(kBig) / sizeof(kBig[0]);
inline void shape(size_t nbig = kNBig, size_t small = VP_N(3, 4)) {
  C = Ctx(); C.small = small;
  size_t k = vp::pick("shape", nbig);
  if (k) { C.big = true; C.outer = kBig[k - 1]; vp_cover("large shape"); }
}
struct Mark { // repeats the construction that followed, with the same inputs: an independent value to compare with
  long m; Ctx c; Mark() : m(vp_mark()), c(C) {}
  template <class T> T ref() const { vp_again(m); C = c; T t = make<T>(); vp_again(-1); return t; }
};
inline void again() { C.depth = 0; C.picks = 0; } // second value of the same shape
}
