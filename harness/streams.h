// In-memory stand-ins for the stream types the stream serializers are templates over (the real iostreams are out-of-line library code).
#pragma once
#include "zoo.h"
#include <stdexcept>
namespace strm {
struct State { using char_type = char; using int_type = int; using pos_type = long; using off_type = long; using traits_type = std::char_traits<char>; using iostate = int; enum { goodbit = 0, badbit = 1, eofbit = 2, failbit = 4, beg = 0, cur = 1, end = 2 }; int exceptions() const { return 0; } bool is_open() const { return true; }
  bool bad_ = false, eof_ = false; bool fail() const { return bad_; } bool bad() const { return false; } bool eof() const { return eof_; } bool good() const { return !bad_ && !eof_; } bool operator!() const { return bad_; } explicit operator bool() const { return !bad_; } void clear() { bad_ = eof_ = false; } int rdstate() const { return (bad_ ? 4 : 0) | (eof_ ? 2 : 0); } };
struct OStr : State { // a sink over caller memory
  char* p; size_t cap, n = 0; long failAt = -1; int writes = 0;
  OStr(char* b, size_t c) : p(b), cap(c) {}
  OStr& write(const char* s, long k) { if (bad_) return *this; CHECK(k >= 0); if (failAt >= 0 && writes++ >= failAt) { bad_ = true; return *this; } vp_check(n + (size_t)k <= cap, "stream write stays within the serialized size"); if (n + (size_t)k <= cap) { memcpy(p + n, s, (size_t)k); n += (size_t)k; } return *this; }
  long wid = 0; long width(long w = -1) { long o = wid; if (w >= 0) wid = w; return o; } char fill() const { return ' '; } // formatted output pads to the field width
  OStr& padded(const char* s, long k) { for (; wid > k; wid--) write(" ", 1); wid = 0; return write(s, k); }
  OStr& operator<<(char c) { return padded(&c, 1); } OStr& operator<<(signed char c) { return *this << (char)c; } OStr& operator<<(unsigned char c) { return *this << (char)c; } OStr& operator<<(const char* s) { return padded(s, (long)strlen(s)); } OStr& operator<<(const std::string& s) { return padded(s.data(), (long)s.size()); }
  OStr* rdbuf() { return this; } long sputn(const char* s, long k) { size_t b = n; write(s, k); return (long)(n - b); } int sputc(char c) { write(&c, 1); return (unsigned char)c; }
  OStr& seekp(long k) { n = (size_t)k; return *this; } void setstate(int s) { bad_ |= (s & 5) != 0; } void clear(int s = 0) { bad_ = s != 0; }
  OStr& put(char c) { return write(&c, 1); } OStr& flush() { return *this; } long tellp() const { return bad_ ? -1 : (long)n; }
};
struct ReadError : std::runtime_error { ReadError() : std::runtime_error("read") {} };
struct IStr : State { // a source; a short read delivers what there is and fails, as std::istream does
  const char* p; size_t cap, n = 0; long last = 0;
  IStr(const char* b, size_t c) : p(b), cap(c) {}
  long failAt = -1; bool throws = false; bool failed = false; // the failAt-th read fails outright
  IStr& read(char* d, long k) { last = 0; if (!bad_ && failAt >= 0 && failAt-- == 0) { bad_ = failed = true; if (throws) throw ReadError(); return *this; } if (bad_ || eof_) { bad_ = true; return *this; } CHECK(k >= 0); size_t have = cap - n, m = (size_t)k; if (m > have) { m = have; bad_ = eof_ = true; } memcpy(d, p + n, m); n += m; last = (long)m; return *this; }
  IStr& operator>>(char& c) { int k; do k = get(); while (k == ' ' || (k >= 9 && k <= 13)); if (k >= 0) c = (char)k; return *this; } IStr& operator>>(signed char& c) { return *this >> (char&)c; } IStr& operator>>(unsigned char& c) { return *this >> (char&)c; }
  IStr* rdbuf() { return this; } long sgetn(char* d, long k) { long have = (long)(cap - n); if (failAt >= 0 && failAt-- == 0) { failed = true; have = 0; } if (k > have) k = have; memcpy(d, p + n, (size_t)k); n += (size_t)k; return k; } int sbumpc() { return n < cap ? (unsigned char)p[n++] : -1; }
  void setstate(int s) { bad_ |= (s & 5) != 0; eof_ |= (s & 2) != 0; }
  int get() { char c = 0; read(&c, 1); return bad_ ? -1 : (unsigned char)c; } int peek() { return n < cap ? (unsigned char)p[n] : -1; } long gcount() const { return last; } long tellg() const { return bad_ ? -1 : (long)n; }
  IStr& seekg(long k) { n = (size_t)k; return *this; } IStr& seekg(long k, int dir) { n = (size_t)((dir == 0 ? 0 : dir == 1 ? (long)n : (long)cap) + k); return *this; } IStr& get(char& c) { return read(&c, 1); } IStr& ignore(long k = 1, int = -1) { char c; while (k-- > 0 && !bad_) read(&c, 1); return *this; }
  long readsome(char* d, long k) { size_t m = (size_t)k < cap - n ? (size_t)k : cap - n; memcpy(d, p + n, m); n += m; return last = (long)m; }
};
struct Decoy { char a[3] = {1, 2, 3}; std::vector<short> v{7, 8}; SER { checkpoint::dispatch::serializeArray(s, a, 3); s | v; } };
template <class... T> void inst() { (checkpoint::instantiateObjSerializer<T, checkpoint::StreamPacker<OStr>, checkpoint::StreamUnpacker<IStr>>(), ...); }
inline void ready() { // a new serializer has to be instantiated by hand for the polymorphic types (documented)
#if ZG(GROUP)
  inst<zoo::PBase, zoo::PD1, zoo::PD2, zoo::PD11, zoo::PD3, zoo::MBase, zoo::MD1, zoo::MD2, zoo::MD3, zoo::ABase, zoo::AOver>();
#endif
}
// every lazily created table entry exists afterwards; the last operations concern another type, so nothing remembered from them can be right by accident
inline void warmPoly() {
#if ZG(GROUP)
  for (size_t k = 0; k < 5; k++) { gen::C = gen::Ctx(); gen::C.big = true; gen::C.outer = 1; zoo::RefBase h; h.own.reset(zoo::mkP(k, 2)); checkpoint::getMemoryFootprint(h); auto r = checkpoint::serialize(h); auto o = checkpoint::deserialize<zoo::RefBase>(r->getBuffer()); }
  for (unsigned k = 0; k < 3; k++) { gen::C = gen::Ctx(); gen::C.big = true; gen::C.outer = 1; gen::C.ctr = k; zoo::pu_m h(zoo::MBase::genPtr()); checkpoint::getMemoryFootprint(h); auto r = checkpoint::serialize(h); auto o = checkpoint::deserialize<zoo::pu_m>(r->getBuffer()); }
  for (unsigned k = 0; k < 2; k++) { gen::C = gen::Ctx(); gen::C.big = true; gen::C.ctr = k; zoo::pu_a h(zoo::ABase::genPtr()); checkpoint::getMemoryFootprint(h); auto r = checkpoint::serialize(h); auto o = checkpoint::deserialize<zoo::pu_a>(r->getBuffer()); }
#endif
}
template <class T> void warm() {
  ready(); warmPoly();
  for (unsigned k = 0; k < 6; k++) {
    gen::C = gen::Ctx(); gen::C.big = true; gen::C.outer = 1; gen::C.ctr = k;
    T t = gen::make<T>(); size_t n = checkpoint::getSize(t); checkpoint::getMemoryFootprint(t); auto r = checkpoint::serialize(t); { auto o = checkpoint::deserialize<T>(r->getBuffer()); }
    OStr os(r->getBuffer(), n); checkpoint::serializeToStream(t, os); IStr is(r->getBuffer(), n); auto o = checkpoint::deserializeFromStream<T>(is);
  }
  Decoy d;
  auto r = checkpoint::serialize(d); auto o = checkpoint::deserialize<Decoy>(r->getBuffer()); checkpoint::getMemoryFootprint(d);
  gen::C = gen::Ctx();
}
}
