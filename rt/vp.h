// Harness interface: symbolic inputs, assumptions, assertions. The same source runs under the symbolic
// executor (bitcode) and natively (replay of counterexamples, validation of sampled paths).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits);
void vp_sym_mem(const char* name, void* p, size_t n);
void vp_undef_mem(void* p, size_t n);
void vp_assume(bool c);
void vp_check(bool c, const char* msg);
[[noreturn]] void vp_fail(const char* msg);
uint64_t vp_pick(uint64_t v);          // one path per feasible value
void vp_cover(const char* tag);
void vp_observe(const char* tag, uint64_t v);
long vp_live();                         // number of live heap blocks
void vp_symsize(bool on);               // allocations of symbolic size stay symbolic
void vp_freeze(int mode);               // 1: writes to pre-existing globals/heap are violations, 2: heap only, 0: off
void vp_allow(const void* p);
void vp_protect(const void* p, size_t n, bool on); // writes that change this object are violations
void vp_fail_alloc(long k);             // the (k+1)-th operator new from now throws bad_alloc (k<0: none)
void* vp_map(size_t n);
void vp_unmap(void* p);
bool vp_is_heap(const void* p);
bool vp_dead(const void* p);
bool vp_is_init(const void* p, size_t n);
bool vp_native();
long vp_mark();                         // number of inputs so far
void vp_again(long from);               // following inputs repeat the recorded ones, until vp_again(-1)
}
#ifdef VP_NATIVE
void vp_register(const char* name, void (*fn)());
#define HARNESS(name) extern "C" void h_##name(); static int reg_##name = (vp_register("h_" #name, h_##name), 0); extern "C" void h_##name()
#else
#define HARNESS(name) extern "C" void h_##name()
#endif
namespace vp {
template <class T> inline T any(const char* n) {
  static_assert(std::is_trivially_copyable<T>::value, "any<T>");
  T t{}; vp_sym_mem(n, &t, sizeof(T)); return t;
}
template <> inline bool any<bool>(const char* n) { return vp_sym(n, 1) & 1; }
template <class T> inline void fill(const char* n, T& t) { t = any<T>(n); }
inline size_t pick(const char* n, size_t max) { // 0..max, one path each
  uint64_t v = vp_sym(n, 32); vp_assume(v <= max); return (size_t)vp_pick(v);
}
inline size_t range(const char* n, size_t lo, size_t hi) { uint64_t v = vp_sym(n, 32); vp_assume(v >= lo); vp_assume(v <= hi); return (size_t)vp_pick(v); }
template <class T> inline bool bits_eq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> inline void observe(const char* tag, const T& t) {
  static_assert(std::is_trivially_copyable<T>::value, "observe"); uint64_t v = 0; memcpy(&v, &t, sizeof(T) < 8 ? sizeof(T) : 8); vp_observe(tag, v);
}
inline void observe_bytes(const char* tag, const char* p, size_t n) { for (size_t i = 0; i < n; i++) vp_observe(tag, (unsigned char)p[i]); }
}
#ifdef VP_THOROUGH
#define VP_N(q, t) (t)
#else
#define VP_N(q, t) (q)
#endif
// stand-in for an external function: the executor calls vpx_NAME, the native build links with --wrap=NAME
#ifdef VP_NATIVE
#define VPX(ret, name, args) extern "C" ret __wrap_##name args
#else
#define VPX(ret, name, args) extern "C" ret vpx_##name args
#endif
#define CHECK(c) vp_check((c), #c)
