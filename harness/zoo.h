// Types the properties quantify over. Each group X-macro lists (name, alias).
#pragma once
#include "gen.h"
#ifndef GROUP
#define GROUP USER
#endif

namespace zoo {
using namespace std;
using gen::make; using gen::same;
#define SER template <class S> void serialize(S& s)
enum class E8 : unsigned char { a, b, c };
enum class E64 : long long { a = -5, b };
enum EOld { eo_a, eo_b };
enum class ES16 : short { p = -7 };

// ---- user classes
struct Pt { int x = 0; int y = 0; SER { s | x; s | y; } static Pt gen() { Pt p; p.x = make<int>(); p.y = make<int>(); return p; } bool same(const Pt& o) const { return (x == o.x) & (y == o.y); } static Pt key(unsigned i) { Pt p; p.x = i / 3; p.y = -(int)i; return p; }
  bool operator<(const Pt& o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(const Pt& o) const { return x == o.x && y == o.y; } };
struct Scalars {
  bool b = 0; char c = 0; signed char sc = 0; unsigned char uc = 0; wchar_t wc = 0; char16_t c16 = 0; char32_t c32 = 0; short s = 0; unsigned short us = 0; int i = 0; unsigned u = 0;
  long l = 0; unsigned long ul = 0; long long ll = 0; unsigned long long ull = 0; float f = 0; double d = 0;
  template <class S> void serialize(S& z) { z | b; z | c; z | sc; z | uc; z | wc; z | c16; z | c32; z | s; z | us; z | i; z | u; z | l; z | ul; z | ll; z | ull; z | f; z | d; }
  static Scalars gen() { Scalars r; r.b = make<bool>(); r.c = make<char>(); r.sc = make<signed char>(); r.uc = make<unsigned char>(); r.wc = make<wchar_t>(); r.c16 = make<char16_t>(); r.c32 = make<char32_t>(); r.s = make<short>(); r.us = make<unsigned short>(); r.i = make<int>(); r.u = make<unsigned>();
    r.l = make<long>(); r.ul = make<unsigned long>(); r.ll = make<long long>(); r.ull = make<unsigned long long>(); r.f = make<float>(); r.d = make<double>(); return r; }
  bool same(const Scalars& o) const { using zoo::same; return (b == o.b) & (c == o.c) & (sc == o.sc) & (uc == o.uc) & (wc == o.wc) & (c16 == o.c16) & (c32 == o.c32) & (s == o.s) & (us == o.us) & (i == o.i) & (u == o.u) & (l == o.l) & (ul == o.ul) & (ll == o.ll) & (ull == o.ull) & same(f, o.f) & same(d, o.d); }
};
struct Enums { E8 a{}; E64 b{}; EOld c{}; ES16 d{}; E8 arr[3]{}; vector<E64> v; SER { s | a; s | b; s | c; s | d; checkpoint::dispatch::serializeArray(s, arr, 3); s | v; }
  static Enums gen() { Enums r; r.a = make<E8>(); r.b = make<E64>(); r.c = static_cast<EOld>(vp::any<bool>("e")); r.d = make<ES16>(); for (auto& x : r.arr) x = make<E8>(); r.v = make<vector<E64>>(); return r; }
  bool same(const Enums& o) const { return (a == o.a) & (b == o.b) & (c == o.c) & (d == o.d) & (arr[0] == o.arr[0]) & (arr[1] == o.arr[1]) & (arr[2] == o.arr[2]) & zoo::same(v, o.v); } };
struct Arrays { int a[4]{}; Pt p[3]; double d[2]{}; array<short, 5> s{}; array<Pt, 2> ap; array<array<char, 3>, 2> aa{}; template <class S> void serialize(S& z) { checkpoint::dispatch::serializeArray(z, a, 4); checkpoint::dispatch::serializeArray(z, p, 3); checkpoint::dispatch::serializeArray(z, d, 2); z | s; z | ap; z | aa; }
  static Arrays gen() { Arrays r; for (auto& x : r.a) x = make<int>(); for (auto& x : r.p) x = make<Pt>(); for (auto& x : r.d) x = make<double>(); r.s = make<array<short, 5>>(); r.ap = make<array<Pt, 2>>(); r.aa = make<array<array<char, 3>, 2>>(); return r; }
  bool same(const Arrays& o) const { bool r = true; for (int i = 0; i < 4; i++) r &= a[i] == o.a[i]; for (int i = 0; i < 3; i++) r &= p[i].same(o.p[i]); for (int i = 0; i < 2; i++) r &= zoo::same(d[i], o.d[i]); return r & zoo::same(s, o.s) & zoo::same(ap, o.ap) & zoo::same(aa, o.aa); } };
struct Base0 { int b = 0; short q = 0; SER { s | b; s | q; } };
struct Base1 { double z = 0; SER { s | z; } };
struct Inherit : Base0, Base1 { char c = 0; SER { Base0::serialize(s); Base1::serialize(s); s | c; }
  static Inherit gen() { Inherit r; r.b = make<int>(); r.q = make<short>(); r.z = make<double>(); r.c = make<char>(); return r; }
  bool same(const Inherit& o) const { return (b == o.b) & (q == o.q) & zoo::same(z, o.z) & (c == o.c); } };
struct InheritOp : Base0, Base1 { long l = 0; SER { s | static_cast<Base0&>(*this); s | static_cast<Base1&>(*this); s | l; } // bases as sub-objects
  static InheritOp gen() { InheritOp r; r.b = make<int>(); r.q = make<short>(); r.z = make<double>(); r.l = make<long>(); return r; }
  bool same(const InheritOp& o) const { return (b == o.b) & (q == o.q) & zoo::same(z, o.z) & (l == o.l); } };
struct FreeFn { int a = 0; string s; static FreeFn gen() { FreeFn r; r.a = make<int>(); r.s = make<string>(); return r; } bool same(const FreeFn& o) const { return (a == o.a) & zoo::same(s, o.s); } };
template <class S> void serialize(S& s, FreeFn& f) { s | f.a; s | f.s; }
struct FreeArr { FreeFn f[2]; FreeFn g; SER { checkpoint::dispatch::serializeArray(s, f, 2); s | g; } static FreeArr gen() { FreeArr r; r.f[0] = FreeFn::gen(); r.f[1] = FreeFn::gen(); r.g = FreeFn::gen(); return r; } bool same(const FreeArr& o) const { return f[0].same(o.f[0]) & f[1].same(o.f[1]) & g.same(o.g); } };
struct SplitPar { int pa = 0; SER { s | pa; } };
struct Split : SplitPar { int th = 0; string str; SER { (void)s; } template <class S> void serializeParent(S& s) { SplitPar::serialize(s); } template <class S> void serializeThis(S& s) { s | th; s | str; }
  static Split gen() { Split r; r.pa = make<int>(); r.th = make<int>(); r.str = make<string>(); return r; } bool same(const Split& o) const { return (pa == o.pa) & (th == o.th) & zoo::same(str, o.str); } };
struct SplitArr { Split c[2]; array<Split, 2> a; vector<Split> v; list<Split> l; SER { checkpoint::dispatch::serializeArray(s, c, 2); s | a; s | v; s | l; } // split classes as array elements
  static SplitArr gen() { SplitArr r; r.c[0] = Split::gen(); r.c[1] = Split::gen(); r.a = make<array<Split, 2>>(); r.v = make<vector<Split>>(); r.l = make<list<Split>>(); return r; }
  bool same(const SplitArr& o) const { return c[0].same(o.c[0]) & c[1].same(o.c[1]) & zoo::same(a, o.a) & zoo::same(v, o.v) & zoo::same(l, o.l); } };
struct alignas(64) Over { int a = 0; alignas(32) char b = 0; string s; template <class S> void serialize(S& z) { z | a; z | b; z | s; } static Over gen() { Over r; r.a = make<int>(); r.b = make<char>(); r.s = "ov"; return r; } bool same(const Over& o) const { return (a == o.a) & (b == o.b) & zoo::same(s, o.s); } };
struct OverHold { Over o; vector<Over> v; list<Over> l; optional<Over> p; unique_ptr<Over> u; Over arr[2]; map<int, Over> m; SER { s | o; s | v; s | l; s | p; s | u; checkpoint::dispatch::serializeArray(s, arr, 2); s | m; } // stricter alignment than operator new guarantees
  static OverHold gen() { OverHold r; r.o = Over::gen(); r.v = make<vector<Over>>(); r.l = make<list<Over>>(); r.p = make<optional<Over>>(); r.u = make<unique_ptr<Over>>(); r.arr[1] = Over::gen(); r.m[3] = Over::gen(); return r; }
  bool same(const OverHold& q) const { return o.same(q.o) & zoo::same(v, q.v) & zoo::same(l, q.l) & zoo::same(p, q.p) & zoo::same(u, q.u) & arr[0].same(q.arr[0]) & arr[1].same(q.arr[1]) & zoo::same(m, q.m); } };
struct Nest { Pt p; Scalars* unused = nullptr; FreeFn f; Inherit in; vector<Pt> v; string s; map<int, string> m; optional<Pt> o; SER { s | p; s | f; s | in; s | v; s | this->s; s | m; s | o; }
  static Nest gen() { Nest r; r.p = Pt::gen(); r.f = FreeFn::gen(); r.in = Inherit::gen(); r.v = make<vector<Pt>>(); r.s = make<string>(); r.m = make<map<int, string>>(); r.o = make<optional<Pt>>(); return r; }
  bool same(const Nest& q) const { return p.same(q.p) & f.same(q.f) & in.same(q.in) & zoo::same(v, q.v) & zoo::same(s, q.s) & zoo::same(m, q.m) & zoo::same(o, q.o); } };
struct L1 { int a = 0; SER { s | a; } }; struct L2 { L1 x, y; char c = 0; SER { s | x; s | c; s | y; } }; struct L3 { L2 x; L1 z; L2 y; SER { s | x; s | z; s | y; } };
struct Deep { L3 a; double d = 0; L3 b; SER { s | a; s | d; s | b; }
  static void fill(L2& l) { l.x.a = make<int>(); l.y.a = make<int>(); l.c = make<char>(); }
  static Deep gen() { Deep r; fill(r.a.x); fill(r.a.y); r.a.z.a = make<int>(); fill(r.b.x); fill(r.b.y); r.b.z.a = make<int>(); r.d = make<double>(); return r; }
  static bool eq(const L2& a, const L2& b) { return (a.x.a == b.x.a) & (a.y.a == b.y.a) & (a.c == b.c); }
  bool same(const Deep& o) const { return eq(a.x, o.a.x) & eq(a.y, o.a.y) & (a.z.a == o.a.z.a) & eq(b.x, o.b.x) & eq(b.y, o.b.y) & (b.z.a == o.b.z.a) & zoo::same(d, o.d); } };
struct ModeDep { int n = 0; int* p = nullptr; ModeDep() = default; ModeDep(const ModeDep&) = delete; ModeDep(ModeDep&& o) noexcept : n(o.n), p(o.p) { o.p = nullptr; o.n = 0; } ~ModeDep() { delete[] p; } ModeDep& operator=(ModeDep&& o) noexcept { swap(n, o.n); swap(p, o.p); return *this; }
  SER { s | n; if (s.isUnpacking()) { delete[] p; p = n ? new int[n] : nullptr; } checkpoint::dispatch::serializeArray(s, p, n); } // storage allocated by the serialize function
  static ModeDep gen() { ModeDep r; size_t n = gen::len(); r.n = (int)n; r.p = n ? new int[n] : nullptr; for (size_t i = 0; i < n; i++) r.p[i] = make<int>(); return r; }
  bool same(const ModeDep& o) const { if (n != o.n) return false; bool r = true; for (int i = 0; i < n; i++) r &= p[i] == o.p[i]; return r; } };
// ---- byte-copied classes
struct ByteM { using isByteCopyable = std::true_type; int a = 0; int b = 0; static ByteM gen() { ByteM r; r.a = make<int>(); r.b = make<int>(); return r; } bool same(const ByteM& o) const { return (a == o.a) & (b == o.b); } };
struct ByteB : checkpoint::SerdesByteCopy { double d = 0; char c[8]{}; static ByteB gen() { ByteB r; r.d = make<double>(); for (auto& x : r.c) x = make<char>(); return r; } bool same(const ByteB& o) const { bool r = zoo::same(d, o.d); for (int i = 0; i < 8; i++) r &= c[i] == o.c[i]; return r; } };
struct ByteN { long l = 0; static ByteN gen() { ByteN r; r.l = make<long>(); return r; } bool same(const ByteN& o) const { return l == o.l; } };
struct ByteMac { int k = 0; int m = 0; static ByteMac gen() { ByteMac r; r.k = make<int>(); r.m = make<int>(); return r; } bool same(const ByteMac& o) const { return (k == o.k) & (m == o.m); } };
}
namespace checkpoint { template <> struct ByteCopyNonIntrusive<zoo::ByteN> { using isByteCopyable = std::true_type; }; }
CHECKPOINT_BYTES(zoo::ByteMac)
namespace zoo {
struct Bytes { ByteM m; ByteB b; ByteN n; ByteMac k; vector<ByteM> vm; ByteB ab[2]; vector<ByteMac> vk; array<ByteN, 2> an; SER { s | m; s | b; s | n; s | k; s | vm; checkpoint::dispatch::serializeArray(s, ab, 2); s | vk; s | an; }
  static Bytes gen() { Bytes r; r.m = ByteM::gen(); r.b = ByteB::gen(); r.n = ByteN::gen(); r.k = ByteMac::gen(); r.vm = make<vector<ByteM>>(); r.ab[0] = ByteB::gen(); r.ab[1] = ByteB::gen(); r.vk = make<vector<ByteMac>>(); r.an = make<array<ByteN, 2>>(); return r; }
  bool same(const Bytes& o) const { return m.same(o.m) & b.same(o.b) & n.same(o.n) & k.same(o.k) & zoo::same(vm, o.vm) & ab[0].same(o.ab[0]) & ab[1].same(o.ab[1]) & zoo::same(vk, o.vk) & zoo::same(an, o.an); } };
// ---- without default constructor
struct NoDef { int v; string t; NoDef() = delete; explicit NoDef(checkpoint::SERIALIZE_CONSTRUCT_TAG) : v(-1) {} NoDef(int a, string b) : v(a), t(std::move(b)) {} SER { s | v; s | t; } static NoDef gen() { int a = make<int>(); return NoDef(a, make<string>()); } bool same(const NoDef& o) const { return (v == o.v) & zoo::same(t, o.t); } };
struct MoveOnly { int v = 0; unique_ptr<int> p; MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; SER { s | v; s | p; } static MoveOnly gen() { MoveOnly m; m.v = make<int>(); m.p = make<unique_ptr<int>>(); return m; } bool same(const MoveOnly& o) const { return (v == o.v) & zoo::same(p, o.p); } };
struct MoveNoDef { int v; string t; MoveNoDef() = delete; explicit MoveNoDef(checkpoint::SERIALIZE_CONSTRUCT_TAG) : v(-2) {} explicit MoveNoDef(int a) : v(a) {} MoveNoDef(MoveNoDef&&) = default; MoveNoDef& operator=(MoveNoDef&&) = default; SER { s | v; s | t; } static MoveNoDef gen() { MoveNoDef m(make<int>()); m.t = make<string>(); return m; } bool same(const MoveNoDef& o) const { return (v == o.v) & zoo::same(t, o.t); } };
struct RecNoDef { int v; RecNoDef() = delete; explicit RecNoDef(int a) : v(a) {} static RecNoDef& reconstruct(void* b) { return *new (b) RecNoDef(77); } SER { s | v; } static RecNoDef gen() { return RecNoDef(make<int>()); } bool same(const RecNoDef& o) const { return v == o.v; } };

using s_i = vector<int>; using s_c = vector<unsigned char>; using s_d = vector<double>; using s_l = vector<long>; using s_b = vector<bool>; using s_e = vector<E8>; using s_s = vector<string>; using s_vv = vector<vector<short>>; using s_pt = vector<Pt>; using s_nd = vector<NoDef>; using s_rnd = vector<RecNoDef>;
using s_mo = vector<MoveOnly>; using s_mnd = vector<MoveNoDef>; using s_pr = vector<pair<int, string>>; using s_op = vector<optional<int>>; using s_ar = vector<array<short, 3>>; using s_tp = vector<tuple<char, string>>; using s_li = vector<list<int>>; using s_vb = vector<vector<bool>>;
using str = string; using l_i = list<int>; using l_s = list<string>; using l_nd = list<NoDef>; using l_up = list<unique_ptr<int>>; using l_v = list<vector<int>>; using d_i = deque<int>; using d_s = deque<string>; using d_mnd = deque<MoveNoDef>; using d_pt = deque<Pt>;
using a_i = array<int, 5>; using a_s = array<string, 3>; using a_0 = array<vector<int>, 2>; using q_i = queue<int>; using q_s = queue<string>; using q_pt = queue<Pt>; using q_nd = queue<NoDef>; using l_l = list<list<char>>; using s_f = vector<float>; using s_str2 = vector<FreeFn>; using s_by = vector<ByteB>;
#define ZOO_SEQ1(X) X(s_i) X(s_c) X(s_b) X(s_e) X(s_s) X(s_vv) X(s_pt) X(s_nd) X(s_mo) X(s_mnd) X(s_pr) X(s_by)
#define ZOO_SEQ2(X) X(str) X(l_i) X(l_s) X(l_nd) X(l_up) X(d_i) X(d_s) X(d_mnd) X(a_i) X(a_s) X(q_i) X(q_s) X(q_nd)
#define ZOO_SEQ3(X) X(s_d) X(s_l) X(s_f) X(s_rnd) X(s_op) X(s_ar) X(s_tp) X(s_li) X(s_vb) X(l_v) X(d_pt) X(a_0) X(q_pt) X(l_l) X(s_str2)

struct HFew { size_t operator()(int x) const { return (size_t)(x & 1); } }; // many collisions
struct HPt { size_t operator()(const Pt& p) const { return (size_t)(p.x & 1); } };
struct EqMod { bool operator()(int a, int b) const { return a == b; } };
struct ByAbs { bool operator()(int a, int b) const { return (a & 0xff) < (b & 0xff); } }; // a custom order that identifies distinct keys
struct HStr { size_t operator()(const string& s) const { return s.size(); } };
using m_is = map<int, string>; using m_si = map<string, int>; using m_gt = map<int, int, greater<int>>; using m_mm = map<int, map<short, char>>; using m_iv = map<int, vector<int>>; using m_iu = map<int, unique_ptr<int>>; using m_pt = map<Pt, Pt>; using m_ab = map<int, char, ByAbs>;
using mm_ii = multimap<int, int>; using mm_is = multimap<char, string>; using st_i = set<int>; using st_s = set<string>; using st_pt = set<Pt>; using st_gt = set<long, greater<long>>; using mst_i = multiset<int>; using mst_ab = multiset<int, ByAbs>;
using um_ii = unordered_map<int, int, HFew>; using um_is = unordered_map<int, string, HFew, EqMod>; using um_si = unordered_map<string, int>; using umm_ii = unordered_multimap<int, int, HFew>; using us_i = unordered_set<int, HFew>; using us_pt = unordered_set<Pt, HPt>; using ums_i = unordered_multiset<int, HFew>; using us_std = unordered_set<unsigned char>; using um_std = unordered_map<int, vector<char>>; using umm_s = unordered_multimap<string, int, HStr>;
#define ZOO_ASSOC1(X) X(m_is) X(m_si) X(m_gt) X(m_iv) X(m_iu) X(m_ab) X(mm_ii) X(mm_is) X(st_i) X(st_s) X(mst_i) X(mst_ab)
#define ZOO_ASSOC2(X) X(um_ii) X(um_is) X(um_si) X(umm_ii) X(us_i) X(us_pt) X(ums_i) X(m_mm) X(m_pt) X(st_pt) X(st_gt) X(us_std) X(um_std)

using o_i = optional<int>; using o_s = optional<string>; using o_v = optional<vector<int>>; using o_o = optional<optional<char>>; using o_pt = optional<Pt>; using o_nd = optional<NoDef>; using o_b = optional<bool>; using o_m = optional<map<int, int>>;
using v_3 = variant<int, double, string>; using v_c = variant<char, vector<int>, map<int, string>, NoDef>; using v_b = variant<int, char, double>; using v_6 = variant<bool, short, Pt, optional<int>, list<string>, E8, string>; using v_v = variant<variant<int, string>, double>; using v_mo = variant<unique_ptr<int>, MoveOnly, string>; using v_1 = variant<string>; using v_up = variant<int, ByteM>;
using t_3 = tuple<int, string, double>; using t_0 = tuple<>; using t_6 = tuple<bool, vector<int>, optional<string>, pair<char, long>, Pt, variant<int, string>>; using t_m = tuple<unique_ptr<int>, string>; using t_t = tuple<tuple<int, char>, tuple<>, string>; using t_nd = tuple<NoDef, int>;
using p_is = pair<int, string>; using p_pp = pair<pair<char, int>, pair<string, double>>; using p_vo = pair<vector<int>, optional<Pt>>; using p_m = pair<unique_ptr<Pt>, int>; using c_ns = chrono::nanoseconds; using c_d = chrono::duration<double>; using c_m = chrono::duration<int, ratio<60>>; using c_sh = chrono::duration<short, milli>;
using o_v3 = optional<variant<int, string>>; using v_o = variant<optional<int>, pair<int, string>, tuple<char, string>>;
#define ZOO_SUM1(X) X(o_i) X(o_s) X(o_v) X(o_o) X(o_nd) X(o_b) X(o_m) X(v_3) X(v_c) X(v_b) X(v_6) X(v_mo)
#define ZOO_SUM2(X) X(t_3) X(t_6) X(t_m) X(t_t) X(p_is) X(p_pp) X(p_vo) X(p_m) X(c_ns) X(c_d) X(c_m) X(c_sh) X(o_v3) X(v_o) X(v_v) X(v_1) X(v_up) X(o_pt)

// ---- owning pointers
struct Chain { int v = 0; unique_ptr<Chain> next; SER { s | v; s | next; } static Chain gen() { Chain c; c.v = make<int>(); size_t n = gen::len(); Chain* p = &c; for (size_t i = 0; i < n && i < 40; i++) { p->next = std::make_unique<Chain>(); p = p->next.get(); p->v = make<int>(); } return c; }
  bool same(const Chain& o) const { bool r = true; const Chain *a = this, *b = &o; while (a && b) { r &= a->v == b->v; a = a->next.get(); b = b->next.get(); if (a && a == b) return false; } return r & (a == nullptr) & (b == nullptr); } };
struct Tree { short v = 0; unique_ptr<Tree> l, r; string s; template <class S> void serialize(S& z) { z | l; z | v; z | s; z | r; }
  static Tree gen(int d = 0) { Tree t; t.v = make<short>(); t.s = "n" + std::string(d * 9, 'x'); if (d < 2) { if (gen::C.big || gen::choose("l", 1)) t.l = std::make_unique<Tree>(gen(d + 1)); if (!gen::C.big && gen::choose("r", 1)) t.r = std::make_unique<Tree>(gen(d + 1)); } return t; }
  bool same(const Tree& o) const { bool q = v == o.v; q &= zoo::same(s, o.s); if (!l || !o.l) q &= !l && !o.l; else q &= (l.get() != o.l.get()) && l->same(*o.l); if (!r || !o.r) q &= !r && !o.r; else q &= (r.get() != o.r.get()) && r->same(*o.r); return q; } };
inline int gDel = 0;
struct MyDel { template <class T> void operator()(T* p) const { gDel++; delete p; } };
struct NoMove { int a = 0; string s; NoMove() = default; NoMove(const NoMove&) = delete; SER { z(s); } template <class S> void z(S& x) { x | a; x | s; } bool same(const NoMove& o) const { return (a == o.a) & zoo::same(s, o.s); } };
struct HoldNoMove { unique_ptr<NoMove> p; unique_ptr<NoMove> q; SER { s | p; s | q; } static HoldNoMove gen() { HoldNoMove h; if (gen::choose("p", 1)) { h.p = std::make_unique<NoMove>(); h.p->a = make<int>(); h.p->s = make<string>(); } if (gen::choose("q", 1)) { h.q = std::make_unique<NoMove>(); h.q->a = make<int>(); } return h; } bool same(const HoldNoMove& o) const { return zoo::same(p, o.p) & zoo::same(q, o.q); } };
using u_i = unique_ptr<int>; using u_pt = unique_ptr<Pt>; using u_v = unique_ptr<vector<int>>; using u_s = unique_ptr<string>; using u_u = unique_ptr<unique_ptr<int>>; using u_nd = unique_ptr<NoDef>; using u_del = unique_ptr<Pt, MyDel>; using v_u = vector<unique_ptr<Pt>>; using m_u = map<int, unique_ptr<string>>; using p_u = pair<unique_ptr<int>, unique_ptr<int>>; using u_m = unique_ptr<map<int, string>>; using v_uu = vector<unique_ptr<vector<unique_ptr<int>>>>; using u_rec = unique_ptr<RecNoDef>; using l_u = list<unique_ptr<Pt>>;
#define ZOO_PTR(X) X(u_i) X(u_pt) X(u_v) X(u_s) X(u_u) X(u_nd) X(u_del) X(v_u) X(m_u) X(p_u) X(u_m) X(Chain) X(Tree) X(HoldNoMove) X(u_rec) X(l_u)
#define ZOO_USER(X) X(Pt) X(Scalars) X(Enums) X(Arrays) X(Inherit) X(InheritOp) X(FreeFn) X(FreeArr) X(Split) X(Nest) X(Deep) X(ModeDep) X(Bytes) X(MoveOnly) X(NoDef) X(SplitArr) X(Over) X(OverHold)
}

#define ZG_POLY 1
#define ZG2(x) ZG_##x
#define ZG(x) ZG2(x)
#if ZG(GROUP)
#include "poly.h"
#endif

#define ZC2(a, b) a##b
#define ZC(a, b) ZC2(a, b)
#define ZOO_FOREACH(X) ZC(ZOO_, GROUP)(X)
// byte-copied variants carry the unused part of their storage verbatim (their bytes need not be determined by their value)
template <class T> constexpr bool kRawBytes = std::is_same_v<T, zoo::v_b> || std::is_same_v<T, zoo::v_up>;
