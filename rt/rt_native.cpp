#include <sys/syscall.h>
#include <unistd.h>
// Native runtime of the harness API: replays one concrete input vector against the really compiled code.
// usage: prog ENTRY INPUTFILE   exit: 0 ok, 42 assertion/violation, 43 assumption false, 44 heap misuse, 45 input desync, 46 usage
#include "vp.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <valgrind/memcheck.h>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
namespace {
struct In { char name[64]; int arr; unsigned w; uint64_t v; uint64_t len; size_t nb; struct B { uint64_t i; unsigned char b; }* bytes; };
struct Blk { void* p; size_t n; unsigned char kind; bool allow; unsigned al; void* q; size_t qn; }; // kind 1 new 2 new[]
constexpr size_t CAP = 1 << 18;
struct RT { // lives in its own mapping, so that watching .data/.bss/heap never sees it
  In* in; size_t nin, pos; bool replay, exhausted;
  Blk* tab; long live; int fill; long failNew;
  bool stepping; int suspend; size_t nw; struct W { char* p; size_t n; char* snap; bool dead; } w[8192];
  char* arena; size_t aoff, acap;
  size_t nallow; const void* allow[64];
  size_t nprot; struct { const void* p; size_t n; } prot[64];
};
RT* rt;
void* raw(size_t n) { void* p = (void*)syscall(SYS_mmap, (void*)nullptr, (n + 4095) & ~4095ul, (long)(PROT_READ | PROT_WRITE), (long)(MAP_PRIVATE | MAP_ANONYMOUS), -1l, 0l); if (p == MAP_FAILED) _exit(47); return p; } // not mmap(): a harness may replace it
void init() { if (!rt) { rt = (RT*)raw(sizeof(RT)); rt->tab = (Blk*)raw(sizeof(Blk) * CAP); rt->failNew = -1; const char* f = getenv("VP_FILL"); rt->fill = f ? (int)strtol(f, nullptr, 0) : -1; rt->replay = getenv("VP_REPLAY") != nullptr; } }
void say(const char* a, const char* b = "") { dprintf(2, "VP: %s%s\n", a, b); }
[[noreturn]] void die(int code) { fflush(stdout); _exit(code); }
Blk* find(void* p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; for (size_t i = 0; i < CAP; i++) { Blk& b = rt->tab[(h + i) & (CAP - 1)]; if (b.p == p) return &b; if (!b.p) return nullptr; } return nullptr; }
Blk* slot(void* p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; for (size_t i = 0;; i++) { Blk& b = rt->tab[(h + i) & (CAP - 1)]; if (!b.p || b.p == (void*)1) return &b; } }
void* alloc(size_t n, unsigned char kind, bool nothrow, size_t al = 0) {
  init();
  if (rt->failNew >= 0) { if (rt->failNew == 0) { rt->failNew = -1; if (nothrow) return nullptr; throw std::bad_alloc(); } rt->failNew--; }
  if (al < 16) al = 16;
  void* p; void* q; size_t qn = 0;
  if (al == 16 && __asan_poison_memory_region && n < (1ul << 30)) { // exactly 16-byte aligned, so that code that needs more cannot be lucky
    qn = n + 32; q = malloc(qn); p = q && ((uintptr_t)q & 31) == 0 ? (char*)q + 16 : q;
    if (q) { if (p != q) __asan_poison_memory_region(q, 16); __asan_poison_memory_region((char*)p + n, (size_t)((char*)q + qn - ((char*)p + n))); }
  } else p = q = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (rt->fill >= 0) { memset(p, rt->fill, n); VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
  Blk* b = slot(p); b->p = p; b->n = n; b->kind = kind; b->al = (unsigned)al; b->q = q; b->qn = qn; b->allow = rt->stepping; rt->live++;
  return p;
}
void dealloc(void* p, unsigned char kind, size_t n, bool sized, size_t al = 16) {
  if (!p) return; init();
  Blk* b = find(p);
  if (!b) { say("heap: delete of a pointer that is not a live block"); die(44); }
  if (b->kind != kind) { say("heap: mismatched new/delete"); die(44); }
  if (b->al != (al < 16 ? 16 : al)) { say("heap: mismatched aligned and ordinary deallocation"); die(44); }
  if (sized && b->n != n) { say("heap: sized delete with the wrong size"); die(44); }
  if (rt->stepping) for (size_t i = 0; i < rt->nw; i++) if (rt->w[i].p == p) rt->w[i].dead = true;
  b->p = (void*)1; rt->live--; if (b->qn) __asan_unpoison_memory_region(b->q, b->qn); free(b->q);
}
void cmpWatch() {
  for (size_t i = 0; i < rt->nw; i++) {
    auto& w = rt->w[i];
    if (!w.dead && memcmp(w.p, w.snap, w.n) != 0) {
      size_t k = 0; while (w.p[k] == w.snap[k]) k++;
      const void* a = w.p + k;
      dprintf(2, "VP: write to watched memory at %p (object %p + %zu, size %zu)\n", a, (void*)w.p, k, w.n);
      die(42);
    }
  }
}
void onTrap(int, siginfo_t*, void* u) {
  if (!rt->stepping) { ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
  cmpWatch();
}
void setTF(bool on) {
  if (on) asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
  else asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
}
void addWatch(void* p, size_t n) {
  if (!n || rt->nw >= 8192) return;
  if (!rt->arena) { rt->acap = 64 << 20; rt->arena = (char*)raw(rt->acap); }
  if (rt->aoff + n > rt->acap) return;
  auto& w = rt->w[rt->nw++]; w.p = (char*)p; w.n = n; w.dead = false; w.snap = rt->arena + rt->aoff; rt->aoff += n; memcpy(w.snap, p, n);
}
bool nextIn(const char* name, In*& r) {
  init();
  if (rt->pos >= rt->nin) { rt->exhausted = true; return false; }
  r = &rt->in[rt->pos++];
  if (strcmp(r->name, name)) { dprintf(2, "VP: input desync: file has %s, harness asks for %s\n", r->name, name); die(45); }
  return true;
}
}
#if !defined(VP_NO_NEW)
void* operator new(size_t n) { return alloc(n, 1, false); }
void* operator new[](size_t n) { return alloc(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 2, true); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, 1, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, 2, false, (size_t)a); }
void operator delete(void* p) noexcept { dealloc(p, 1, 0, false); }
void operator delete[](void* p) noexcept { dealloc(p, 2, 0, false); }
void operator delete(void* p, size_t n) noexcept { dealloc(p, 1, n, true); }
void operator delete[](void* p, size_t n) noexcept { dealloc(p, 2, n, true); }
void operator delete(void* p, std::align_val_t a) noexcept { dealloc(p, 1, 0, false, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { dealloc(p, 2, 0, false, (size_t)a); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { dealloc(p, 1, n, true, (size_t)a); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { dealloc(p, 2, n, true, (size_t)a); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, 1, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, 2, 0, false); }
#endif
static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> m; return m; }
void vp_register(const char* n, void (*f)()) { reg()[n] = f; }
extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits) {
  In* r; if (!nextIn(name, r)) return 0;
  if (r->arr || r->w != bits) { say("input desync: kind of ", name); die(45); }
  return r->v;
}
void vp_sym_mem(const char* name, void* p, size_t n) {
  In* r = nullptr;
  if (rt && rt->pos < rt->nin && rt->in[rt->pos].arr) {
    nextIn(name, r);
    if (r->len != n) { say("input desync: length of ", name); die(45); }
    // the counterexample lists the bytes that matter; the rest gets a fixed position-dependent pattern
    for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)(i * 131 + (i >> 8) * 17 + (i >> 16) * 29 + 7);
    for (size_t i = 0; i < r->nb; i++) if (r->bytes[i].i < n) ((unsigned char*)p)[r->bytes[i].i] = r->bytes[i].b;
    return;
  }
  for (size_t i = 0; i < n; i += 8) {
    unsigned b = (unsigned)(n - i < 8 ? n - i : 8);
    uint64_t v = vp_sym(name, b * 8); memcpy((char*)p + i, &v, b);
  }
}
void vp_undef_mem(void* p, size_t n) { init(); if (rt->fill >= 0) memset(p, rt->fill, n); VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
void vp_assume(bool c) { if (!c) { if (rt->exhausted) die(0); say("assumption false"); die(43); } }
void vp_check(bool c, const char* msg) { if (!c) { if (rt->exhausted) die(0); say("CHECK failed: ", msg); die(42); } }
void vp_fail(const char* msg) { if (rt->exhausted) die(0); say("FAIL: ", msg); die(42); }
uint64_t vp_pick(uint64_t v) { return v; }
void vp_cover(const char*) {}
void vp_observe(const char* tag, uint64_t v) { printf("OBS %s %llu\n", tag, (unsigned long long)v); }
static size_t gReplayEnd;
long vp_mark() { init(); return (long)rt->pos; }
void vp_again(long from) { init(); if (from < 0) rt->pos = gReplayEnd; else { gReplayEnd = rt->pos; rt->pos = (size_t)from; } }
long vp_live() { init(); return rt->live; }
void vp_symsize(bool) {}
void vp_allow(const void* p) { init(); Blk* b = find((void*)p); if (b) b->allow = true; else if (rt->nallow < 64) rt->allow[rt->nallow++] = p; }
static void stepOn() {
  if (rt->stepping || !rt->replay) return;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, nullptr);
  stack_t ss; ss.ss_sp = raw(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  rt->stepping = true; setTF(true);
}
static void stepOff() { if (rt->stepping) { setTF(false); rt->stepping = false; cmpWatch(); } }
static void rebuild() { stepOff(); rt->nw = 0; rt->aoff = 0; for (size_t i = 0; i < rt->nprot; i++) addWatch((void*)rt->prot[i].p, rt->prot[i].n); if (rt->nprot) stepOn(); }
extern char __data_start, _end, edata;
void vp_freeze(int on) {
  init(); if (!rt->replay) return;
  if (!on) { rebuild(); return; }
  stepOff();
  // .data and .bss of the program
  FILE* f = fopen("/proc/self/maps", "r"); char line[512]; char exe[400]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0;
  std::vector<std::pair<char*, char*>> segs; char* lastEnd = nullptr;
  while (f && fgets(line, sizeof line, f)) {
    unsigned long a, b; char perm[8]; char path[400] = ""; if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %399s", &a, &b, perm, path) < 3) continue;
    bool mine = !strcmp(path, exe) || (lastEnd == (char*)a && path[0] == 0);
    if (mine) lastEnd = (char*)b; else lastEnd = nullptr;
    if (mine && perm[1] == 'w') segs.push_back({(char*)a, (char*)b});
  }
  if (f) fclose(f);
  static char* rtp; rtp = (char*)&rt;
  if (on == 2) segs.clear();
  for (auto& s : segs) { // allowed globals are cut out (64 bytes around each allowed pointer's own object are not known, so 8)
    std::vector<char*> cut; cut.push_back(rtp); for (size_t i = 0; i < rt->nallow; i++) if ((char*)rt->allow[i] >= s.first && (char*)rt->allow[i] < s.second) cut.push_back((char*)rt->allow[i]);
    std::vector<char*> c2(cut); for (size_t i = 0; i < c2.size(); i++) for (size_t j = i + 1; j < c2.size(); j++) if (c2[j] < c2[i]) std::swap(c2[i], c2[j]);
    char* p = s.first;
    for (char* c : c2) { if (c < s.first || c >= s.second) continue; if (c > p) addWatch(p, c - p); p = c + 64; }
    if (p < s.second) addWatch(p, s.second - p);
  }
  for (size_t i = 0; i < CAP; i++) { Blk& b = rt->tab[i]; if (b.p && b.p != (void*)1 && !b.allow && b.p != nullptr) addWatch(b.p, b.n); }
  stepOn();
}
void vp_protect(const void* p, size_t n, bool on) {
  init(); if (!rt->replay) return;
  if (on) { if (rt->nprot < 64) { rt->prot[rt->nprot].p = p; rt->prot[rt->nprot++].n = n; } }
  else for (size_t i = 0; i < rt->nprot; i++) if (rt->prot[i].p == p) { rt->prot[i] = rt->prot[--rt->nprot]; break; }
  rebuild();
}
void vp_fail_alloc(long k) { init(); rt->failNew = k; }
void* vp_map(size_t n) { char* p = (char*)raw((n ? n : 1) + 64); if (__asan_poison_memory_region) __asan_poison_memory_region(p + n, 64); return p; }
void vp_unmap(void* p) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, 4096); else syscall(SYS_munmap, p, 4096); }
bool vp_is_heap(const void* p) { init(); if (find((void*)p)) return true; const char* q = (const char*)p; for (size_t i = 0; i < CAP; i++) { Blk& b = rt->tab[i]; if (b.p > (void*)1 && q >= (char*)b.p && q < (char*)b.p + b.n) return true; } return false; }
bool vp_dead(const void* p) { init(); return find((void*)p) == nullptr; }
bool vp_is_init(const void* p, size_t n) { return VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0; }
bool vp_native() { return true; }
}
int main(int argc, char** argv) {
  init();
  if (argc < 2) { for (auto& r : reg()) printf("%s\n", r.first.c_str()); return 0; }
  auto it = reg().find(argv[1]); if (it == reg().end()) { say("no such harness ", argv[1]); return 46; }
  if (argc > 2) {
    FILE* f = fopen(argv[2], "r"); if (!f) { say("cannot read ", argv[2]); return 46; }
    size_t n = 0; if (fscanf(f, "%zu", &n) != 1) n = 0;
    rt->in = (In*)raw(sizeof(In) * (n + 1)); rt->nin = n;
    for (size_t i = 0; i < n; i++) {
      In& x = rt->in[i]; char k; unsigned long long v, l; 
      if (fscanf(f, " %c %63s", &k, x.name) != 2) { rt->nin = i; break; }
      if (k == 'v') { unsigned w; if (fscanf(f, "%u %llu", &w, &v) != 2) return 46; x.w = w; x.v = v; }
      else { size_t nb; if (fscanf(f, "%llu %zu", &l, &nb) != 2) return 46; x.arr = 1; x.len = l; x.nb = nb; x.bytes = (In::B*)raw(sizeof(In::B) * (nb + 1)); for (size_t j = 0; j < nb; j++) { unsigned b; if (fscanf(f, "%llu %u", &v, &b) != 2) return 46; x.bytes[j].i = v; x.bytes[j].b = (unsigned char)b; } }
    }
    fclose(f);
  }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  { char* warm = getenv("VP_NOTHING"); (void)warm; printf("%s", ""); }
  it->second();
  rt->nprot = 0; stepOff();
  if (rt->exhausted) say("inputs exhausted");
  fflush(stdout); _exit(0);
}
