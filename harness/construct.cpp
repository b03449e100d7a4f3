// Each deserialized object is constructed once, by the first available of: tagged constructor, reconstruct function, default constructor.
#include "fakefs.h"
using namespace checkpoint;
namespace con {
enum Via { MADE = 0, TAG = 1, REC = 2, DEF = 3 };
inline int gFresh[4]; inline const void* gLive[400]; inline int gN = 0; inline const void* gBuf = nullptr; inline int gSer = 0; inline size_t gAlign = 1;
inline int at(const void* p) { for (int i = 0; i < gN; i++) if (gLive[i] == p) return i; return -1; }
struct Made {}; struct FromRec {};
struct Trk { // bookkeeping of who is alive where, and how it came to be
  int via; bool copied;
  explicit Trk(int v) : via(v), copied(false) { enter(); gFresh[v]++; } Trk(const Trk& o) : via(o.via), copied(true) { vp_check(at(&o) >= 0, "copied from a live object"); enter(); }
  Trk& operator=(const Trk& o) { vp_check(at(this) >= 0, "assigned to a live object"); vp_check(at(&o) >= 0, "assigned from a live object"); via = o.via; return *this; }
  ~Trk() { int i = at(this); vp_check(i >= 0, "destroyed once"); if (i >= 0) gLive[i] = gLive[--gN]; }
  void enter() { vp_check(at(this) < 0, "constructed once"); CHECK(gN < 400); gLive[gN++] = this; }
  void use() const { vp_check(at(this) >= 0, "unpacked into a constructed object"); gSer++; }
};
template <class T> T* rec(void* b) { vp_check((uintptr_t)b % alignof(T) == 0, "the memory is aligned for the object"); gBuf = b; return new (b) T(FromRec{}); }
#define CON(n) int v = 0; explicit n(FromRec) : Trk(REC) {} n(Made, int x) : Trk(MADE), v(x) {} template <class S> void serialize(S& s) { use(); s | v; } bool operator<(const n& o) const { return v < o.v; } bool operator==(const n& o) const { return v == o.v; }
#define TAGC(n) explicit n(checkpoint::SERIALIZE_CONSTRUCT_TAG) : Trk(TAG) {}
#define DEFC(n) n() : Trk(DEF) {}
#define RECC(n) static n& reconstruct(void* b) { return *rec<n>(b); }
#define MOVE(n) n(const n&) = delete; n(n&&) = default; n& operator=(n&&) = default;
struct T : Trk { CON(T) TAGC(T) }; struct TD : Trk { CON(TD) TAGC(TD) DEFC(TD) }; struct TR : Trk { CON(TR) TAGC(TR) RECC(TR) }; struct TRD : Trk { CON(TRD) TAGC(TRD) RECC(TRD) DEFC(TRD) }; struct R : Trk { CON(R) RECC(R) }; struct RD : Trk { CON(RD) RECC(RD) DEFC(RD) }; struct D : Trk { CON(D) DEFC(D) };
struct N : Trk { CON(N) }; struct ND : Trk { CON(ND) DEFC(ND) }; struct TND : Trk { CON(TND) TAGC(TND) DEFC(TND) }; struct S : Trk { CON(S) }; struct SD : Trk { CON(SD) DEFC(SD) }; struct TS : Trk { CON(TS) TAGC(TS) };
inline void reconstruct(N*& p, void* b) { p = rec<N>(b); } inline void reconstruct(ND*& p, void* b) { p = rec<ND>(b); } inline void reconstruct(TND*& p, void* b) { p = rec<TND>(b); }
struct MT : Trk { CON(MT) TAGC(MT) MOVE(MT) }; struct MR : Trk { CON(MR) RECC(MR) MOVE(MR) }; struct MD : Trk { CON(MD) DEFC(MD) MOVE(MD) }; struct MTR : Trk { CON(MTR) TAGC(MTR) RECC(MTR) MOVE(MTR) };
struct alignas(64) AT : Trk { CON(AT) TAGC(AT) }; struct alignas(64) AR : Trk { CON(AR) RECC(AR) }; // over-aligned
template <class X> constexpr int kWant = SerializableTraits<X, void>::is_tagged_constructible ? TAG : 0;
#define WANT(X, w) template <> inline constexpr int kWant<X> = w;
WANT(T, TAG) WANT(TD, TAG) WANT(TR, TAG) WANT(TRD, TAG) WANT(R, REC) WANT(RD, REC) WANT(D, DEF) WANT(N, REC) WANT(ND, REC) WANT(TND, TAG) WANT(S, REC) WANT(SD, REC) WANT(TS, TAG) WANT(MT, TAG) WANT(MR, REC) WANT(MD, DEF) WANT(MTR, TAG) WANT(AT, TAG) WANT(AR, REC)
// polymorphic
struct PB : Trk, SerializableBase<PB> { int b = 0; PB() : Trk(DEF) {} explicit PB(SERIALIZE_CONSTRUCT_TAG) : Trk(TAG) {} virtual ~PB() = default; template <class Z> void serialize(Z& s) { use(); s | b; } virtual int id() const { return 0; } };
struct PT : SerializableDerived<PT, PB> { int t = 0; PT() = default; explicit PT(SERIALIZE_CONSTRUCT_TAG g) : SerializableDerived<PT, PB>(g) {} template <class Z> void serialize(Z& s) { s | t; } int id() const override { return 1; } };
struct QB { checkpoint_virtual_serialize_root()
  Trk k; int b = 0; QB() : k(DEF) {} explicit QB(FromRec) : k(REC) {} virtual ~QB() = default; static QB& reconstruct(void* p) { gBuf = p; return *new (p) QB(FromRec{}); } template <class Z> void serialize(Z& s) { k.use(); s | b; } virtual int id() const { return 0; } };
struct QR : QB { checkpoint_virtual_serialize_derived_from(QB)
  int t = 0; QR() = default; explicit QR(FromRec f) : QB(f) {} static QR& reconstruct(void* p) { gBuf = p; return *new (p) QR(FromRec{}); } template <class Z> void serialize(Z& s) { s | t; } int id() const override { return 1; } };
struct QD : QB { checkpoint_virtual_serialize_derived_from(QB)
  int t = 0; template <class Z> void serialize(Z& s) { s | t; } int id() const override { return 2; } }; // default only
}
namespace checkpoint { template <> struct CheckpointReconstructor<con::S> { static void reconstruct(con::S*& p, void* b) { p = con::rec<con::S>(b); } }; template <> struct CheckpointReconstructor<con::SD> { static void reconstruct(con::SD*& p, void* b) { p = con::rec<con::SD>(b); } }; template <> struct CheckpointReconstructor<con::TS> { static void reconstruct(con::TS*& p, void* b) { p = con::rec<con::TS>(b); } }; }
namespace {
using namespace con;
int num() { return vp::any<int>("v"); }
void start() { for (int& f : gFresh) f = 0; gBuf = nullptr; gSer = 0; }
template <class X> void only(int lo, int hi) { for (int k = 0; k < 4; k++) if (k != kWant<X>) vp_check(gFresh[k] == 0, "no other way of construction is used"); vp_check(gFresh[kWant<X>] >= lo && gFresh[kWant<X>] <= hi, "constructed as often as needed"); }
template <class X> void is(const X& o, int v) { vp_check(o.via == kWant<X>, "constructed by the first available way"); CHECK(o.v == v); }
template <class X> void top() {
  { X a(Made{}, num()); auto r = serialize(a); char* b = r->getBuffer(); size_t n = r->getSize(); int live = gN;
  start(); size_t how = vp::pick("how", 5);
  if (how == 0) { auto o = deserialize<X>(b); only<X>(1, 1); is(*o, a.v); CHECK(!o->copied); CHECK(gN == live + 1); CHECK(gSer == 1); if (gBuf) vp_check(gBuf == o.get(), "reconstruct receives the final memory"); }
  else if (how == 1) { char* m = (char*)::operator new(sizeof(X), std::align_val_t(64)); X* o = deserialize<X>(b, m); only<X>(1, 1); is(*o, a.v); CHECK((char*)o == m); CHECK(!o->copied); if (gBuf) CHECK(gBuf == m); o->~X(); ::operator delete(m, std::align_val_t(64)); vp_cover("caller memory"); }
  else if (how == 2) { strm::IStr is1(b, n); auto o = deserializeFromStream<X>(is1); only<X>(1, 1); is(*o, a.v); CHECK(!o->copied); if (gBuf) CHECK(gBuf == o.get()); }
  else if (how == 3) { fsim::reset(); serializeToFile(a, "ckpt.bin"); start(); auto o = deserializeFromFile<X>("ckpt.bin"); only<X>(1, 1); is(*o, a.v); CHECK(!o->copied); if (gBuf) CHECK(gBuf == o.get()); }
  else { X t(Made{}, num()); start(); if (how == 4) deserializeInPlace<X>(b, &t); else { strm::IStr is1(b, n); deserializeInPlaceFromStream<X>(is1, &t); } for (int f : gFresh) vp_check(f == 0, "in place constructs nothing"); CHECK(t.via == MADE); CHECK(t.v == a.v); CHECK(gN == live + 1); vp_cover("in place"); }
  CHECK(gN == live); }
  CHECK(gN == 0);
}
template <class C, class X> void seq() { // elements of a sequence
  { C c; size_t n = vp::pick("n", VP_N(3, 5)); for (size_t i = 0; i < n; i++) c.emplace_back(Made{}, num()); auto r = serialize(c); int live = gN;
  start(); bool ip = vp::pick("inplace", 1);
  if (!ip) { auto o = deserialize<C>(r->getBuffer()); only<X>(0, (int)n + 1); CHECK(n == 0 || gFresh[kWant<X>] > 0); CHECK(o->size() == n); auto it = c.begin(); for (auto& e : *o) is(e, (it++)->v); CHECK(gN == live + (int)n); }
  else { C t; t.emplace_back(Made{}, num()); start(); deserializeInPlace<C>(r->getBuffer(), &t); only<X>(0, (int)n + 1); auto it = c.begin(); CHECK(t.size() == n); for (auto& e : t) CHECK(e.v == (it++)->v); CHECK(gN == live + (int)n); vp_cover("sequence in place"); } }
  CHECK(gN == 0);
}
template <class X> void que() { { std::queue<X> q; size_t n = vp::pick("n", 2); for (size_t i = 0; i < n; i++) q.emplace(Made{}, num()); int live = gN; auto r = serialize(q); CHECK(gN == live); start(); auto o = deserialize<std::queue<X>>(r->getBuffer()); only<X>(0, (int)n + 1); CHECK(o->size() == n); while (n--) { is(o->front(), q.front().v); o->pop(); q.pop(); } } CHECK(gN == 0); }
template <class X> void opt() { { std::optional<X> q; if (vp::pick("has", 1)) q.emplace(Made{}, num()); auto r = serialize(q); start(); if (vp::pick("inplace", 1)) { std::optional<X> t; if (vp::pick("old", 1)) t.emplace(Made{}, num()); start(); deserializeInPlace<std::optional<X>>(r->getBuffer(), &t); only<X>(0, 2); CHECK(t.has_value() == q.has_value()); if (q) CHECK(t->v == q->v); } else { auto o = deserialize<std::optional<X>>(r->getBuffer()); only<X>(q ? 1 : 0, 2); CHECK(o->has_value() == q.has_value()); if (q) is(**o, q->v); } } CHECK(gN == 0); }
template <class X> void var() { { using V = std::variant<int, X, std::string>; V q(3); size_t k = vp::pick("alt", 2); if (k == 1) q.template emplace<1>(Made{}, num()); else if (k == 2) q = std::string("x"); auto r = serialize(q); start(); auto o = deserialize<V>(r->getBuffer()); only<X>(k == 1, k == 1); CHECK(o->index() == k); if (k == 1) is(std::get<1>(*o), std::get<1>(q).v); } CHECK(gN == 0); }
template <class X> void ptr() { { using U = std::unique_ptr<X>; U q; if (vp::pick("set", 1)) q.reset(new X(Made{}, num())); auto r = serialize(q); start();
  if (vp::pick("inplace", 1)) { U t; bool old = vp::pick("old", 1); if (old) t.reset(new X(Made{}, num())); start(); deserializeInPlace<U>(r->getBuffer(), &t); if (q) { if (!old) { only<X>(1, 1); CHECK(!t->copied); if (gBuf) CHECK(gBuf == t.get()); } else { for (int f : gFresh) vp_check(f == 0, "an existing pointee is reused"); } CHECK(t->v == q->v); } else CHECK(!t); }
  else { auto o = deserialize<U>(r->getBuffer()); only<X>(!!q, !!q); CHECK(!!*o == !!q); if (q) { is(**o, q->v); CHECK(!(*o)->copied); if (gBuf) vp_check(gBuf == o->get(), "reconstruct receives the final memory"); } } } CHECK(gN == 0); }
template <class X> void tup() { { using T3 = std::tuple<int, X, std::string, X>; T3 q(1, X(Made{}, num()), "s", X(Made{}, num())); auto r = serialize(q); start(); auto o = deserialize<T3>(r->getBuffer()); only<X>(2, 2); is(std::get<1>(*o), std::get<1>(q).v); is(std::get<3>(*o), std::get<3>(q).v); CHECK(!std::get<1>(*o).copied); if (gBuf) { vp_check(gBuf == &std::get<1>(*o) || gBuf == &std::get<3>(*o), "reconstruct receives the final memory"); vp_cover("tuple component"); } } CHECK(gN == 0); }
template <class X> void nest() { // containers within containers
  { using C = std::list<std::optional<std::unique_ptr<X>>>; using L = std::list<std::unique_ptr<X>>; L q; size_t n = vp::pick("n", 2); for (size_t i = 0; i < n; i++) q.emplace_back(new X(Made{}, num())); auto r = serialize(q); start(); auto o = deserialize<L>(r->getBuffer()); only<X>((int)n, (int)n); CHECK(o->size() == n); auto it = q.begin(); for (auto& e : *o) is(*e, (*it++)->v); } CHECK(gN == 0); }
template <class X> void setc() { { std::set<X> q; size_t n = vp::pick("n", 2); for (size_t i = 0; i < n; i++) q.emplace(Made{}, (int)i * 7); auto r = serialize(q); start(); auto o = deserialize<std::set<X>>(r->getBuffer()); only<X>(0, (int)n + 1); CHECK(o->size() == n); auto it = q.begin(); for (auto& e : *o) is(e, (it++)->v); } CHECK(gN == 0); }
}
#define ALL_CA(X) X(T) X(TD) X(TR) X(TRD)
#define COPY_CA(X) ALL_CA(X)
#define ALL_CB(X) X(R) X(RD) X(D) X(N)
#define COPY_CB(X) ALL_CB(X)
#define ALL_CC(X) X(ND) X(TND) X(S) X(SD) X(TS)
#define COPY_CC(X) ALL_CC(X)
#define ALL_CD(X) X(MT) X(MR) X(MD) X(MTR) X(AT) X(AR)
#define COPY_CD(X) X(AT) X(AR)
#define X(t) HARNESS(top_##t) { top<t>(); } HARNESS(list_##t) { seq<std::list<t>, t>(); } HARNESS(deq_##t) { seq<std::deque<t>, t>(); } HARNESS(var_##t) { var<t>(); } HARNESS(ptr_##t) { ptr<t>(); } HARNESS(tup_##t) { tup<t>(); } HARNESS(nest_##t) { nest<t>(); } HARNESS(set_##t) { setc<t>(); } HARNESS(vec_##t) { seq<std::vector<t>, t>(); }
ZC(ALL_, GROUP)(X)
#undef X
#define X(t) HARNESS(que_##t) { que<t>(); } HARNESS(opt_##t) { opt<t>(); }
ZC(COPY_, GROUP)(X)
#undef X
#define IS_CA 1
#define CG2(x) IS_##x
#define CG(x) CG2(x)
#if CG(GROUP)
HARNESS(pair_members) { { using P = std::pair<D, D>; P q(D(Made{}, num()), D(Made{}, num())); auto r = serialize(q); start(); auto o = deserialize<P>(r->getBuffer()); only<D>(2, 2); is(o->first, q.first.v); is(o->second, q.second.v); } CHECK(gN == 0); }
HARNESS(map_values) { { using M = std::map<int, D>; M q; size_t n = vp::pick("n", 2); for (size_t i = 0; i < n; i++) q.emplace((int)i, D(Made{}, num())); auto r = serialize(q); start(); auto o = deserialize<M>(r->getBuffer()); only<D>(0, (int)n + 1); CHECK(o->size() == n); for (auto& e : q) is(o->at(e.first), e.second.v); } CHECK(gN == 0); }
HARNESS(poly_tagged) {
  { std::unique_ptr<PB> q; size_t k = vp::pick("dyn", 1); if (k) q = std::make_unique<PT>(); else q = std::make_unique<PB>(); q->b = num(); auto r = serialize(q); start(); auto o = deserialize<std::unique_ptr<PB>>(r->getBuffer());
    CHECK(gFresh[TAG] == 1); CHECK(gFresh[DEF] == 0); CHECK((*o)->via == TAG); CHECK((*o)->id() == (int)k); CHECK((*o)->b == q->b); CHECK(!(*o)->copied);
    start(); deserializeInPlace<std::unique_ptr<PB>>(r->getBuffer(), o.get()); for (int f : gFresh) CHECK(f == 0); } CHECK(gN == 0); }
HARNESS(poly_reconstruct) {
  { std::unique_ptr<QB> q; size_t k = vp::pick("dyn", 2); if (k == 1) q = std::make_unique<QR>(); else if (k == 2) q = std::make_unique<QD>(); else q = std::make_unique<QB>(); q->b = num(); auto r = serialize(q); start(); auto o = deserialize<std::unique_ptr<QB>>(r->getBuffer());
    int w = k == 2 ? DEF : REC; CHECK(gFresh[w] == 1); CHECK(gFresh[REC + DEF - w] == 0); CHECK((*o)->k.via == w); CHECK((*o)->id() == (int)k); CHECK((*o)->b == q->b); if (k != 2) vp_check(gBuf == o->get(), "reconstruct receives the final memory");
    start(); deserializeInPlace<std::unique_ptr<QB>>(r->getBuffer(), o.get()); for (int f : gFresh) CHECK(f == 0); vp_cover("polymorphic in place"); } CHECK(gN == 0); }
#endif
