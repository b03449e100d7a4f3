#pragma once
#include "expr.h"
#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>

struct Agg;
struct Val { u64 c = 0; E e = nullptr; Val() {} Val(u64 x) : c(x) {} Val(E x) : e(x) {} };
struct Agg { std::vector<Val> v; };

enum class TK : uint8_t { Void, Int, Ptr, FP, Vec, Struct, Array, Other };
struct TInfo {
  TK k; unsigned w = 0; u64 store = 0, alloc = 0;
  std::vector<TInfo*> el; std::vector<u64> off; // Struct: el/off; Vec/Array: el[0], n
  u64 n = 0;
  bool agg() const { return k == TK::Vec || k == TK::Struct || k == TK::Array; }
};

template <class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  explicit Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
};

struct SymCell { E e; uint32_t byte; };
struct Obj;
struct Upd { // update of a symbolic-size ("log") object
  enum K : uint8_t { Store, Set, Copy, Arr } k;
  E off; E len; E val; // Store: val (n bytes); Set: val (8 bit); Copy: srcOff in val
  Ref<Obj> src; uint32_t arr = 0;
};
enum class OK : uint8_t { Global, Const, Stack, Heap, Exc, Func, Ext, Map };
enum AllocKind : uint8_t { AK_None, AK_Malloc, AK_New, AK_NewArr };
struct Obj {
  int rc = 0;
  OK kind; AllocKind ak = AK_None; bool alive = true; bool log = false; bool prot = false, allow = false;
  u64 size = 0; E sizeE = nullptr; u64 align = 16;
  std::vector<uint8_t> b, st; // st: 0 concrete, 1 undef, 2 symbolic
  std::vector<SymCell> sym;
  std::vector<Upd> log_; bool baseZero = false; int undefArr = -1;
  const char* name = "";
};
constexpr unsigned SLOT = 36; constexpr u64 BASE0 = 1ull << 34;
inline u64 baseOf(uint32_t id) { return ((u64)id << SLOT) + BASE0; }

struct Chunk { int rc = 0; Ref<Obj> o[64]; Chunk() {} Chunk(const Chunk& c) : rc(0) { for (int i = 0; i < 64; i++) o[i] = c.o[i]; } };
struct Mem {
  std::vector<Ref<Chunk>> ch; uint32_t n = 1;
  Obj* get(uint32_t id) const { if (id == 0 || id >= n) return nullptr; auto& c = ch[id >> 6]; return c ? c->o[id & 63].p : nullptr; }
  Ref<Obj>& slotW(uint32_t id) {
    auto& c = ch[id >> 6];
    if (c->rc > 1) c = Ref<Chunk>(new Chunk(*c));
    return c->o[id & 63];
  }
  Obj* getW(uint32_t id) {
    auto& s = slotW(id);
    if (s->rc > 1) { Obj* x = new Obj(*s); x->rc = 0; s = Ref<Obj>(x); }
    return s.p;
  }
  uint32_t add(Obj* o) {
    uint32_t id = n++;
    if ((id >> 6) >= ch.size()) ch.resize((id >> 6) + 1);
    if (!ch[id >> 6]) ch[id >> 6] = Ref<Chunk>(new Chunk());
    slotW(id) = Ref<Obj>(o);
    return id;
  }
};

struct Opnd { int reg = -1; Val cv; TInfo* t = nullptr; };
struct BInfo; struct FInfo;
struct Ins {
  unsigned op = 0; int dest = -1; TInfo* t = nullptr; // result type
  std::vector<Opnd> ops; llvm::Instruction* I = nullptr;
  unsigned sub = 0; u64 imm = 0; std::vector<u64> scale; std::vector<unsigned> idx;
  BInfo* succ[2] = {nullptr, nullptr};
  std::vector<std::pair<u64, BInfo*>> cases; // switch
  FInfo* callee = nullptr; int builtin = -1; int intrin = 0;
  bool hit = false; unsigned al = 1; // alignment a load or store relies on
};
struct BInfo { std::vector<Ins> ins; llvm::BasicBlock* bb = nullptr; unsigned nphi = 0; std::map<BInfo*, unsigned> predIdx; int id = 0; };
struct FInfo { llvm::Function* f = nullptr; bool decoded = false; std::vector<std::unique_ptr<BInfo>> blocks; unsigned nregs = 0; uint32_t objId = 0; int builtin = -1; };

struct Frame {
  FInfo* f = nullptr; BInfo* bb = nullptr; BInfo* prev = nullptr; unsigned pc = 0;
  std::vector<Val> r; std::vector<uint32_t> allocas;
  u64 freeExcOnReturn = 0; bool dropResult = false;
};
struct ExcInfo { u64 tinfo = 0, dtor = 0; int handlers = 0; bool live = true; u64 adj = 0; };
struct SymRec { std::string name; unsigned w; E e; int arr = -1; E len = nullptr; };
struct ObsRec { std::string tag; E e; };

struct State {
  std::vector<Frame> st; Mem mem;
  std::vector<E> pc; std::shared_ptr<const Model> model; std::unordered_set<uint32_t>* dummy = nullptr;
  std::map<uint32_t, u64> bound; // var -> value fixed by the path condition
  std::map<u64, ExcInfo> exc; std::vector<u64> caught; u64 pendExc = 0; u64 pendSel = 0; int uncaught = 0;
  std::vector<SymRec> syms; std::vector<ObsRec> obs; long replayAt = -1; size_t replayEnd = 0;
  long live = 0; u64 liveBytes = 0; bool symSize = false; uint32_t freezeMark = 0; bool freezeHeapOnly = false; int guardDepth = 0, lockDepth = 0;
  u64 steps = 0; unsigned forks = 0; unsigned chkDone = 0; long failNew = -1;
};
