// Out-of-line parts of libstdc++ and libc that the symbolically executed code needs, in plain C++.
// These stand for the platform, not for the code under test; sampled paths are compared with the real libstdc++.
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <system_error>
#include <cerrno>
#include <cmath>

extern "C" { int __vp_errno; int* __errno_location() noexcept { return &__vp_errno; } }
extern "C" char* strerror(int) noexcept { static char s[] = "error"; return s; }
extern "C" int snprintf(char* b, size_t n, const char*, ...) { if (n) b[0] = 0; return 0; }

// std::_Bit_reference::operator=(bool) without a branch on the value (one path instead of two per element)
extern "C" void* vpx__ZNSt14_Bit_referenceaSEb(void* self, bool b) {
  struct R { unsigned long* p; unsigned long m; }; R* r = (R*)self; unsigned long m = r->m;
  *r->p = (*r->p & ~m) | (m & (0ul - (unsigned long)b)); return self;
}
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

namespace { struct CowHdr { long rc; }; }
static const char* cowNew(const char* s, size_t n) {
  CowHdr* h = (CowHdr*)::operator new(sizeof(CowHdr) + n + 1);
  h->rc = 1; char* p = (char*)(h + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p;
}
static CowHdr* cowHdr(const char* p) { return (CowHdr*)p - 1; }
static void cowDrop(const char* p) { if (p && --cowHdr(p)->rc == 0) ::operator delete((void*)cowHdr(p)); }
__cow_string::__cow_string() : _M_p(nullptr) { _M_p = cowNew("", 0); }
__cow_string::__cow_string(const std::string& s) : _M_p(cowNew(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cowNew(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { if (_M_p) cowHdr(_M_p)->rc++; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (o._M_p) cowHdr(o._M_p)->rc++; cowDrop(_M_p); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { cowDrop(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define STR_EXC(C) C::C(const string& s) : exception(), _M_msg(s) {} C::C(const char* s) : exception(), _M_msg(s, __builtin_strlen(s)) {} \
  C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
  C::C(C&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {} C& C::operator=(C&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
  C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; }
STR_EXC(logic_error)
STR_EXC(runtime_error)
#define SUB_EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
SUB_EXC(out_of_range, logic_error)
SUB_EXC(length_error, logic_error)
SUB_EXC(invalid_argument, logic_error)
SUB_EXC(domain_error, logic_error)
SUB_EXC(range_error, runtime_error)
SUB_EXC(overflow_error, runtime_error)
SUB_EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- red-black tree
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base* y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root);
      }
    } else {
      _Rb_tree_node_base* y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root);
      }
    }
  }
  root->_M_color = _S_black;
}
static _Rb_tree_node_base* rbInc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* rbDec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rbInc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rbInc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rbDec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rbDec(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  // unbalanced deletion keeps the search-tree invariants the containers rely on
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = z->_M_color; y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rm = t; } }
  }
  if (root) root->_M_color = _S_black;
  return y;
}
// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hashing
static const unsigned short primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n < 14) { if (n == 0) return 1; static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; }
  for (unsigned short p : primes) if (p >= n && p >= 13) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; }
  _M_next_resize = n; return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t mx = ne + ni > (_M_next_resize ? 0 : 11) ? ne + ni : (_M_next_resize ? 0 : 11);
    double mb = mx / (double)_M_max_load_factor;
    if (mb >= nb) { size_t a = (size_t)mb + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
    _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
  }
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ n; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i]; return h; }
} // namespace std
extern "C" [[noreturn]] void __vp_throw_bad_alloc() { throw std::bad_alloc(); }
