// Type tags stay distinct with more than 256 types in one program.
#include <utility>
#include "zoo.h"
using namespace checkpoint;
namespace { constexpr int N = VP_N(264, 520); using Seq = std::make_integer_sequence<int, N>;
 template <int I> struct Flat { int x = 0; SER { s | x; } };
template <int I> uint32_t tag() { Flat<I> t; auto r = serialize(t); uint32_t v; memcpy(&v, r->getBuffer(), 4); return v; }
template <int I> bool takes(char* b) { try { auto o = deserialize<Flat<I>>(b); return true; } catch (dispatch::serialization_error const&) { return false; } }
template <int... I> void all(uint32_t* t, bool (**f)(char*), std::integer_sequence<int, I...>) { uint32_t a[] = {tag<I>()...}; bool (*b[])(char*) = {takes<I>...}; memcpy(t, a, sizeof a); memcpy(f, b, sizeof b); } }
HARNESS(many_tags) {
  static uint32_t t[N]; static bool (*f[N])(char*); all(t, f, Seq()); bool distinct = true;
  for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) distinct &= t[i] != t[j];
  vp_check(distinct, "two types share a tag"); vp_cover("many tags distinct");
  int k = (int)vp::pick("type", N - 1), w = (k + 256) % N; Flat<0> z; z.x = vp::any<int>("x"); auto r = serialize(z); char* b = r->getBuffer(); memcpy(b, &t[k], 4); // bytes of type k
  CHECK(f[k](b)); CHECK(!f[w](b)); CHECK(!f[(k + 1) % N](b)); CHECK(!f[(k + 128) % N](b)); vp_cover("accepted as its own type only");
}
