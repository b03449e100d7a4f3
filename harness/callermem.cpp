// Caller-supplied memory: the buffer callback, the object buffer, ownership on success and on failure.
#include "streams.h"
using namespace checkpoint;
template <class T> void body() {
  strm::warm<T>(); gen::shape(1, 2);
  constexpr size_t al = alignof(T) > 16 ? alignof(T) : 16;
  gen::Mark mk; T src = gen::make<T>(); T ref = mk.ref<T>();
  size_t n = getSize(src);
  const size_t tail = 24;
  char* blk = new char[n + tail]; char before[tail]; vp_sym_mem("tail", blk + n, tail); memcpy(before, blk + n, tail);
  long l0 = vp_live();
  size_t asked = 0; int calls = 0;
  switch (vp::pick("callback", 2)) {
    case 0: { // memory, larger than needed
      auto r = serialize(src, [&](size_t k) { calls++; asked = k; return blk; });
      CHECK(calls == 1); CHECK(asked == n); CHECK(r->getBuffer() == blk); CHECK(r->getSize() == n);
      CHECK(memcmp(blk + n, before, tail) == 0); vp_cover("caller memory");
      { auto o = deserialize<T>(blk); CHECK(gen::same(ref, *o)); }
      if (vp::pick("again", 1)) { auto o = deserialize<T>(std::move(r)); CHECK(gen::same(ref, *o)); }
      r.reset(); CHECK(!vp_dead(blk)); CHECK(vp_live() == l0); blk[0] = blk[0]; CHECK(memcmp(blk + n, before, tail) == 0);
      break; }
    case 1: { // null: library memory
      auto r = serialize(src, [&](size_t k) -> char* { calls++; asked = k; return nullptr; });
      CHECK(calls == 1); CHECK(asked == n); CHECK(r->getBuffer() != nullptr); CHECK(vp_is_heap(r->getBuffer())); CHECK(r->getSize() == n); vp_cover("null callback result");
      char* p = r->getBuffer(); memcpy(blk, p, n); r.reset(); CHECK(vp_dead(p)); CHECK(vp_live() == l0);
      break; }
    default: { auto r = serialize(src); CHECK(vp_is_heap(r->getBuffer())); CHECK(r->getSize() == n); memcpy(blk, r->getBuffer(), n); r.reset(); CHECK(vp_live() == l0); }
  }
  { // the object buffer
    char* mem = (char*)::operator new(sizeof(T), std::align_val_t(al)); vp_undef_mem(mem, sizeof(T)); long l1 = vp_live();
    T* o = deserialize<T>(blk, mem); CHECK((char*)o == mem); CHECK(gen::same(ref, *o)); vp_cover("object memory");
    CHECK(!vp_dead(mem)); o->~T(); CHECK(!vp_dead(mem)); CHECK(vp_live() == l1);
    // failure before and after the contents are read
    size_t at = vp::pick("fail", 1) ? n - 8 : 0; blk[at] ^= 1; bool thrown = false;
    try { deserialize<T>(blk, mem); } catch (dispatch::serialization_error const&) { thrown = true; vp_cover("failed"); }
    CHECK(thrown); CHECK(!vp_dead(mem)); CHECK(vp_live() == l1); mem[0] = 1; mem[sizeof(T) - 1] = 2;
    blk[at] ^= 1; o = deserialize<T>(blk, mem); CHECK((char*)o == mem); CHECK(gen::same(ref, *o)); o->~T();
    ::operator delete(mem, std::align_val_t(al));
  }
  CHECK(memcmp(blk + n, before, tail) == 0); delete[] blk; CHECK(vp_live() == l0 - 1);
}
#define X(t) HARNESS(cm_##t) { body<zoo::t>(); }
ZOO_FOREACH(X)
