// User callbacks that throw at a chosen position, with construct/destroy accounting.
#pragma once
#include "streams.h"
#include <stdexcept>
#include <new>
namespace flt {
struct Boom { unsigned long id; };
struct UserError : std::runtime_error { unsigned long id; explicit UserError(unsigned long i) : std::runtime_error("user error"), id(i) {} };
inline long gAt = -1; inline int gKind = 0; inline unsigned long gId = 0; inline long gLive = 0; inline bool gCtor = false;
inline void tick() { if (gAt < 0) return; if (gAt-- > 0) return; gAt = -1; switch (gKind) { case 0: throw Boom{gId}; case 1: throw UserError(gId); case 2: throw std::bad_alloc(); default: throw 7; } }
struct Counted { // magic detects double destruction and use before construction
  unsigned magic = 0x5afe; Counted() { if (gCtor) tick(); gLive++; } Counted(const Counted& o) { CHECK(o.magic == 0x5afe); gLive++; } Counted(Counted&& o) noexcept { vp_check(o.magic == 0x5afe, "move from a live object"); gLive++; }
  Counted& operator=(const Counted& o) { CHECK(magic == 0x5afe); CHECK(o.magic == 0x5afe); return *this; }
  ~Counted() { vp_check(magic == 0x5afe, "destroyed exactly once"); magic = 0xdead; gLive--; }
};
struct Fz : Counted { int x = 0; std::string s; Fz() = default; explicit Fz(int v) : x(v), s(v & 1 ? "a string that needs the heap" : "s") {}
  template <class S> void serialize(S& z) { CHECK(magic == 0x5afe); tick(); z | x; z | s; tick(); } bool same(const Fz& o) const { return (x == o.x) & (s == o.s); } bool operator<(const Fz& o) const { return x < o.x; } };
struct Tag : Counted { int x = 0; explicit Tag(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} explicit Tag(int v) : x(v) {} template <class S> void serialize(S& z) { CHECK(magic == 0x5afe); tick(); z | x; } bool same(const Tag& o) const { return x == o.x; } };
struct Rec : Counted { int x; explicit Rec(int v) : x(v) {} static Rec& reconstruct(void* b) { return *new (b) Rec(0); } template <class S> void serialize(S& z) { CHECK(magic == 0x5afe); z | x; tick(); } bool same(const Rec& o) const { return x == o.x; } };
struct VB : Counted, checkpoint::SerializableBase<VB> { int b = 0; VB() = default; explicit VB(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~VB() = default; template <class S> void serialize(S& z) { tick(); z | b; } virtual bool same(const VB& o) const { return typeid(*this) == typeid(o) && b == o.b; } };
struct VD : checkpoint::SerializableDerived<VD, VB> { std::vector<Fz> d; VD() = default; explicit VD(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} template <class S> void serialize(S& z) { z | d; tick(); } bool same(const VB& o) const override { if (!VB::same(o)) return false; auto& q = static_cast<const VD&>(o); if (d.size() != q.d.size()) return false; bool r = true; for (size_t i = 0; i < d.size(); i++) r &= d[i].same(q.d[i]); return r; } };
inline int num() { return vp::any<int>("n") | 1; }
}
