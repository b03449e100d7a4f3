// Lengths stay exact for contiguous data of any size: element sizes and counts are symbolic 64-bit values, and so are the sizes of the buffers.
#include "streams.h"
#include "tags.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace checkpoint;
namespace big {
using u64 = unsigned long;
constexpr u64 K4G = 1ul << 32, LIM = K4G + (1ul << 24); // solver and native replay both can hold a few of these
inline u64 sz(const char* n, u64 lim) { u64 v = vp_sym(n, 64); vp_assume(v >= 1); vp_assume(v <= lim); return v; } // (empty data: see the other properties; a checked build records less about it)
struct Byte3 { using isByteCopyable = std::true_type; char b[3]; }; struct Byte12 : SerdesByteCopy { int a, b, c; }; struct Byte40 { double d[5]; };
// ---- sizing alone: the data is never looked at, so any count that fits the address space will do
template <class T> struct Far { int a = 1; T* p = nullptr; u64 n = 0; long b = 2; template <class S> void serialize(S& s) { s | a; s | n; dispatch::serializeArray(s, p, n); s | b; } };
template <class T> void sized() {
  vp_symsize(true); static T one; Far<T> f; f.p = &one; f.n = 1; u64 base = getSize(f) - sizeof(T); f.n = sz("n", (1ul << 60) / sizeof(T)); vp_cover("sized");
  vp_check(getSize(f) == base + f.n * sizeof(T), "n times the element size plus a constant");
  Far<T> g; g.p = &one; u64 m = sz("m", (1ul << 60) / sizeof(T)); g.n = m; std::pair<Far<T>, Far<T>> pr(f, g), zero; zero.first.p = zero.second.p = &one; zero.first.n = zero.second.n = 1; vp_check(getSize(pr) - getSize(zero) == (f.n + m - 2) * sizeof(T), "sums of lengths");
}
template <class T> void foot() { vp_symsize(true); static T one; Far<T> f; f.p = &one; f.n = 64; u64 base = getMemoryFootprint(f); f.n = sz("n", (1ul << 60) / sizeof(T)); vp_assume(f.n >= 64); vp_check(getMemoryFootprint(f) - base == (f.n - 64) * sizeof(T), "footprint: n times the element size plus a constant"); vp_cover("footprint"); }
// a user-written serializer is told the true size and count
struct Tell : BaseSerializer { u64 total = 0; const void* at = nullptr; u64 size = 0, n = 0; Tell() : BaseSerializer(ModeType::None) {} void contiguousBytes(void* p, SerialSizeType s, SerialSizeType k) { total += s * k; if (p == at) { size = s; n = k; } } };
template <class T> void told() { vp_symsize(true); static T one; Far<T> f; f.p = &one; f.n = sz("n", (1ul << 60) / sizeof(T)); Tell t; t.at = &one; dispatch::Traverse::with(f, t); vp_check(t.size * t.n == f.n * sizeof(T), "the true size and count"); vp_cover("told"); }
// ---- whole trips; data of symbolic length, compared at a symbolic index
template <class T> struct Blob { int a = 1; T* p = nullptr; u64 n = 0; long b = 2; Blob() = default; Blob(const Blob&) = delete; ~Blob() { delete[] p; }
  template <class S> void serialize(S& s) { s | a; s | n; if (s.isUnpacking()) { delete[] p; p = new T[n]; } dispatch::serializeArray(s, p, n); s | b; } };
template <class T> struct Three { Blob<char> x; std::string mid = "mid"; Blob<T> y; int i = 7; Blob<short> z; char last = 'l'; template <class S> void serialize(S& s) { s | x; s | mid; s | y; s | i; s | z; s | last; } };
template <class T> void one(Blob<T>& o) { o.n = 1; o.p = new T[1]; }
template <class T> void load(Blob<T>& o, const char* nm, u64 lim) { o.n = sz(nm, lim / sizeof(T)); o.p = new T[o.n]; vp_sym_mem("data", o.p, o.n * sizeof(T)); o.a = vp::any<int>("a"); o.b = vp::any<long>("b"); }
template <class T> void eq(const Blob<T>& x, const Blob<T>& y, u64 k) { CHECK(x.a == y.a); vp_check(x.b == y.b, "what follows the data"); vp_check(x.n == y.n, "length"); if (k < x.n * sizeof(T)) { vp_check(((const char*)x.p)[k] == ((const char*)y.p)[k], "every byte of the data"); vp_cover("byte compared"); } }
template <class T> void trip() {
  vp_symsize(true); u64 base; { Blob<T> e; one(e); base = getSize(e) - sizeof(T); } Blob<T> o; load(o, "n", LIM); u64 k = vp_sym("k", 64);
  auto r = serialize(o); vp_check(r->getSize() == base + o.n * sizeof(T), "buffer size"); auto q = deserialize<Blob<T>>(r->getBuffer()); eq(o, *q, k); if (o.n * sizeof(T) > K4G) vp_cover("beyond 4 GiB");
  // at the right address of the buffer, too
  u64 at = 4 + 4 + 8;
#ifndef SERIALIZATION_ERROR_CHECKING
  if (k < o.n * sizeof(T)) vp_check(r->getBuffer()[at + k] == ((const char*)o.p)[k], "in the buffer");
#endif
}
template <class T> void inplace() { vp_symsize(true); Blob<T> o; load(o, "n", LIM); u64 k = vp_sym("k", 64); auto r = serialize(o); Blob<T> t; t.n = 3; t.p = new T[3]; deserializeInPlace<Blob<T>>(r->getBuffer(), &t); eq(o, t, k); }
void middle() {
  vp_symsize(true); Three<int> o; load(o.x, "nx", LIM / 2); load(o.y, "ny", LIM / 2); load(o.z, "nz", LIM / 2); u64 k = vp_sym("k", 64); u64 base; { Three<int> e; one(e.x); one(e.y); one(e.z); base = getSize(e) - 7; }
  auto r = serialize(o); vp_check(r->getSize() == base + o.x.n + o.y.n * 4 + o.z.n * 2, "sum of the lengths"); auto q = deserialize<Three<int>>(r->getBuffer()); eq(o.x, q->x, k); eq(o.y, q->y, k); eq(o.z, q->z, k); CHECK(q->mid == "mid"); CHECK(q->i == 7); CHECK(q->last == 'l');
}
template <class T> void vec() {
  vp_symsize(true); u64 n = sz("n", LIM / sizeof(T)); std::vector<T> v, e(1); u64 base = getSize(e) - sizeof(T); v.resize(n); vp_sym_mem("data", v.data(), n * sizeof(T)); u64 k = vp_sym("k", 64);
  vp_check(getSize(v) == base + n * sizeof(T), "vector size"); auto r = serialize(v); vp_check(r->getSize() == base + n * sizeof(T), "buffer size"); auto q = deserialize<std::vector<T>>(r->getBuffer()); vp_check(q->size() == n, "length"); if (k < n * sizeof(T)) vp_check(((const char*)q->data())[k] == ((const char*)v.data())[k], "every byte"); vp_cover("vector");
  u64 f0; { std::vector<T> w; w.reserve(1); f0 = getMemoryFootprint(w); } vp_check(getMemoryFootprint(v) == f0 + (v.capacity() - 1) * sizeof(T), "footprint");
}
struct OneVec { int a = 1; std::vector<double> v; std::string s; long b = 2; template <class S> void serialize(S& z) { z | a; z | v; z | s; z | b; } };
void str() {
  vp_symsize(true); u64 n = sz("n", LIM); vp_assume(n > 15); std::string s, e("x"); u64 base = getSize(e) - 1; s.resize(n); vp_sym_mem("data", &s[0], n); u64 k = vp_sym("k", 64); vp_check(getSize(s) == base + n, "string size");
  auto r = serialize(s); auto q = deserialize<std::string>(r->getBuffer()); vp_check(q->size() == n, "length"); if (k < n) vp_check((*q)[k] == s[k], "every character"); vp_cover("string");
}
void mixed() {
  vp_symsize(true); OneVec o, e; e.v.resize(1); e.s = "x"; u64 base = getSize(e) - 9, n = sz("n", LIM / 16), m = sz("m", LIM / 2); vp_assume(m > 15); o.v.resize(n); vp_sym_mem("data", o.v.data(), n * 8); o.s.resize(m); vp_sym_mem("text", &o.s[0], m); o.b = vp::any<long>("b"); u64 k = vp_sym("k", 64);
  auto r = serialize(o); vp_check(r->getSize() == base + n * 8 + m, "sum of the lengths"); auto q = deserialize<OneVec>(r->getBuffer()); CHECK(q->b == o.b); CHECK(q->v.size() == n); CHECK(q->s.size() == m); if (k < m) CHECK(q->s[k] == o.s[k]); if (k < n * 8) CHECK(((const char*)q->v.data())[k] == ((const char*)o.v.data())[k]); vp_cover("mixed");
}
// ---- streams
struct Out : strm::State { char* p; u64 cap, n = 0; Out(char* b, u64 c) : p(b), cap(c) {} Out& write(const char* s, long k) { vp_check(k >= 0 && (u64)k <= cap - n, "stays within the serialized size"); memcpy(p + n, s, (u64)k); n += (u64)k; return *this; } long tellp() const { return (long)n; } Out& flush() { return *this; } Out& put(char c) { return write(&c, 1); } Out* rdbuf() { return this; } long sputn(const char* s, long k) { write(s, k); return k; } };
struct In : strm::State { const char* p; u64 cap, n = 0; In(const char* b, u64 c) : p(b), cap(c) {} In& read(char* d, long k) { last = k; vp_check(k >= 0 && (u64)k <= cap - n, "reads what was written"); memcpy(d, p + n, (u64)k); n += (u64)k; return *this; } long last = 0; long gcount() const { return last; } long tellg() const { return (long)n; } In* rdbuf() { return this; } long sgetn(char* d, long k) { read(d, k); return k; } };
template <class T> void stream() {
  vp_symsize(true); Blob<T> o; load(o, "n", LIM); u64 k = vp_sym("k", 64), n = getSize(o); char* b = new char[n]; Out os(b, n); serializeToStream(o, os); vp_check(os.n == n, "exactly the serialized size is written"); In is(b, n); auto q = deserializeFromStream<Blob<T>>(is); vp_check(is.n == n, "exactly the serialized size is read"); eq(o, *q, k); delete[] b; vp_cover("stream");
}
// ---- the caller's buffer, and the packers themselves
template <class T> void caller() { vp_symsize(true); Blob<T> o; load(o, "n", LIM); u64 k = vp_sym("k", 64); u64 asked = 0; char* b = nullptr; auto r = serialize(o, [&](u64 n) { asked = n; return b = new char[n]; }); vp_check(asked == r->getSize(), "size asked for"); auto q = deserialize<Blob<T>>(b); eq(o, *q, k); delete[] b; vp_cover("caller's buffer"); }
void parts() { // several pieces of symbolic length through one packer: the sizer, packer and unpacker agree on every offset
  vp_symsize(true); u64 e1 = sz("e1", 64), n1 = sz("n1", LIM / 64), e2 = sz("e2", 64), n2 = sz("n2", LIM / 64), k = vp_sym("k", 64); u64 l1 = e1 * n1, l2 = e2 * n2; vp_assume(l1 <= LIM / 2); vp_assume(l2 <= LIM / 2);
  char* a = new char[l1]; char* b = new char[l2]; vp_sym_mem("one", a, l1); vp_sym_mem("two", b, l2); int mark = vp::any<int>("mark");
  Sizer z; z.contiguousBytes(a, e1, n1); z.contiguousBytes(&mark, 4, 1); z.contiguousBytes(b, e2, n2); vp_check(z.getSize() == l1 + l2 + 4, "sizer");
  Packer p(z.getSize()); p.contiguousBytes(a, e1, n1); p.contiguousBytes(&mark, 4, 1); p.contiguousBytes(b, e2, n2); vp_check(p.usedBufferSize() == l1 + l2 + 4, "packer"); auto buf = p.extractPackedBuffer();
  char* c = new char[l1]; char* d = new char[l2]; int m = 0; Unpacker u(buf->getBuffer()); u.contiguousBytes(c, e1, n1); u.contiguousBytes(&m, 4, 1); u.contiguousBytes(d, e2, n2); vp_check(u.usedBufferSize() == l1 + l2 + 4, "unpacker"); vp_check(m == mark, "between the pieces"); if (k < l1) vp_check(a[k] == c[k], "first piece"); if (k < l2) vp_check(b[k] == d[k], "second piece"); vp_cover("parts");
  delete[] a; delete[] b; delete[] c; delete[] d;
}
// ---- a file of symbolic size
inline u64 gLen = 0; inline char* gFile = nullptr; inline u64 gMapLen = 0; inline int gMapped = 0;
inline void* map(size_t len) { vp_check(len == gLen, "the whole file is mapped"); gMapped++; gMapLen = len; if (!gFile) gFile = (char*)vp_map(len); return gFile; }
template <class T> void file() {
  vp_symsize(true); Blob<T> o; load(o, "n", LIM); u64 k = vp_sym("k", 64), n = getSize(o); serializeToFile(o, "big.bin"); vp_check(gLen == n, "file size"); CHECK(gMapped == 1); auto q = deserializeFromFile<Blob<T>>("big.bin"); CHECK(gMapped == 2); eq(o, *q, k); vp_cover("file");
}
}
VPX(int, open, (const char*, int, mode_t)) { return 3; }
VPX(int, open64, (const char*, int, mode_t)) { return 3; }
VPX(int, fstat, (int, struct stat* st)) { memset(st, 0, sizeof *st); st->st_size = (off_t)big::gLen; return 0; }
VPX(int, fallocate, (int, int, off_t off, off_t len)) { CHECK(len >= 0); if ((big::u64)(off + len) > big::gLen) big::gLen = (big::u64)(off + len); return 0; }
VPX(int, posix_fallocate, (int, off_t off, off_t len)) { CHECK(len >= 0); if ((big::u64)(off + len) > big::gLen) big::gLen = (big::u64)(off + len); return 0; }
VPX(int, ftruncate, (int, off_t len)) { CHECK(len >= 0); big::gLen = (big::u64)len; return 0; }
VPX(int, fsync, (int)) { return 0; }
VPX(void*, mmap, (void*, size_t len, int, int, int, off_t)) { return big::map(len); }
VPX(void*, mmap64, (void*, size_t len, int, int, int, off_t)) { return big::map(len); }
VPX(int, msync, (void* p, size_t len, int)) { CHECK(p == big::gFile); vp_check(len == big::gLen, "all of it is flushed"); return 0; }
VPX(int, munmap, (void* p, size_t len)) { CHECK(p == big::gFile); vp_check(len == big::gMapLen, "all of it is unmapped"); return 0; }
VPX(int, close, (int)) { return 0; }
#define H(n, ...) HARNESS(n) { big::__VA_ARGS__; }
namespace checkpoint { template <> struct ByteCopyNonIntrusive<big::Byte40> { using isByteCopyable = std::true_type; }; }
H(sized_c, sized<char>()) H(sized_i, sized<int>()) H(sized_d, sized<double>()) H(sized_3, sized<big::Byte3>()) H(sized_12, sized<big::Byte12>()) H(sized_40, sized<big::Byte40>()) H(sized_ld, sized<long double>())
H(foot_c, foot<char>()) H(foot_d, foot<double>()) H(foot_3, foot<big::Byte3>()) H(told_c, told<char>()) H(told_d, told<double>()) H(told_12, told<big::Byte12>())
H(trip_c, trip<char>()) H(trip_s, trip<short>()) H(trip_d, trip<double>()) H(trip_3, trip<big::Byte3>()) H(trip_12, trip<big::Byte12>()) H(trip_40, trip<big::Byte40>()) H(inplace_c, inplace<char>()) H(inplace_d, inplace<double>()) H(middle, middle())
H(vec_c, vec<char>()) H(vec_i, vec<int>()) H(vec_d, vec<double>()) H(vec_u8, vec<unsigned char>()) H(vec_s, vec<short>()) H(str, str()) H(mixed, mixed())
H(stream_c, stream<char>()) H(stream_i, stream<int>()) H(stream_12, stream<big::Byte12>()) H(caller_c, caller<char>()) H(caller_d, caller<double>()) H(parts, parts()) H(file_c, file<char>()) H(file_d, file<double>())
