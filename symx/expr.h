// Bit-vector expression DAG (hash-consed), concrete evaluation under a model, and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum class Op : uint8_t {
  Const, Var, ReadArr, Not, Neg, Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Fp
};
// Fp: IEEE operation; c holds the kind and the source width. A NaN result is the default (negative quiet) NaN, an integer
// conversion out of range yields the least value, as on x86.
enum class FpK : uint8_t { Add, Sub, Mul, Div, Ext, Trunc, FromS, FromU, ToS, ToU };

typedef std::vector<uint32_t> VarSet; // sorted ids; arrays use the id space 0x80000000|arr

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  u128 c;          // Const value | Var id | Extract low bit | ReadArr array id
  const Expr* k[3];
  std::shared_ptr<const VarSet> vars; // lazily shared
  bool hasRead = false, hasFp = false;
  // evaluation memo
  mutable u64 epoch = 0;
  mutable u128 val = 0;
  // Z3 lowering memo
  mutable Z3_ast zbv = nullptr;
  mutable Z3_ast zbool = nullptr;
};
typedef const Expr* E;

struct Model {
  std::vector<u64> v;                                  // var id -> value
  std::map<std::pair<uint32_t, u64>, uint8_t> arr;     // (array, index) -> byte
  u64 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
};

struct VarInfo { std::string name; unsigned w; bool undef; };
extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gArrs;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline bool isC(E e) { return e->op == Op::Const; }

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool undef = false);
uint32_t mkArr(const std::string& name);
E mkReadArr(uint32_t arr, E idx);
E mkNot(E a);               // bitwise not
E mkNeg(E a);
E mkBin(Op op, E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFp(FpK k, unsigned w, E a, E b = nullptr); // operands of 32 or 64 bits (integers up to 64)
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
inline E mkUlt(E a, E b) { return mkBin(Op::Ult, a, b); }
inline E mkUle(E a, E b) { return mkBin(Op::Ule, a, b); }

u128 evalE(E e, const Model& m);      // width <= 128
void newEvalEpoch();
std::string exprStr(E e, int depth = 6);
u128 umaxOf(E e, int depth = 4);      // cheap unsigned upper bound
const VarSet& varsOf(E e);

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, patched = 0; double time = 0, maxTime = 0; };
extern SolverStats gStats;
enum class Sat { Sat, Unsat, Unknown };
// is /\ cs satisfiable? On Sat fills model entries for the variables in cs (others are left untouched)
Sat solve(const std::vector<E>& cs, Model* out);
void solverInit(unsigned timeoutMs, unsigned seed);
extern bool gCrossCheck;
extern std::string gDumpDir;
std::string toSmt2(const std::vector<E>& cs);
