// symx: hash-consed expression DAG over bit-vectors with IEEE operations.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum Op : uint8_t {
  CONST, VAR, SELECT,  // SELECT: c=array id, a[0]=index(64)
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
  EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  FADD, FSUB, FMUL, FDIV, FSQRT, FNEG, FABS, FROUND /*c: kind 0 round,1 floor,2 ceil,3 trunc,4 rint*/,
  FPEXT, FPTRUNC, SITOFP, UITOFP, FPTOSI, FPTOUI, FEQ, FLT, FLE, FUNO,
  UF  // uninterpreted: c=function id
};
extern const char *opName[];

struct Expr {
  Op op;
  uint8_t flags;      // bit0: all ITE leaves constant
  uint16_t w;
  uint32_t id;
  uint32_t nleaves;   // for const-leaf ITE trees
  uint32_t depth;
  u128 c;
  Expr *a[3];
};
typedef Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct VarInfo {
  std::string name;
  unsigned w;
  bool isfp = false;       // declared as floating point value
  double fmin = 0, fmax = 0;   // magnitude range of finite non-zero values (0: unknown)
  bool allowNF = true, allowZero = true, nonneg = false;
};
extern std::vector<VarInfo> gVars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w, bool isfp = false);
E mkSelect(unsigned arr, E idx, unsigned w);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkFun(Op op, E a, unsigned w, unsigned c = 0);   // unary FP / conversions
E mkUF(unsigned id, E a, E b, E c3, unsigned w);
inline E mkBool(bool b) { return mkConst(b, 1); }
E mkNot(E a);
inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
inline bool isC(E e) { return e->op == CONST; }
inline bool isTrue(E e) { return e->op == CONST && e->c == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->c == 0; }
bool isFpOp(Op o);          // result is floating point
std::string str(E e, int depth = 6);
size_t exprCount();

// concrete folding of an op over constants
u128 foldOp(Op op, unsigned w, u128 c, unsigned aw, u128 x, u128 y, unsigned bw);

struct Assignment {
  std::unordered_map<unsigned, u128> v;                 // var id -> value (default 0)
  std::map<unsigned, std::map<u64, u64>> arr;           // array tables
};
struct Evaluator {
  const Assignment &as;
  std::unordered_map<E, u128> memo;
  explicit Evaluator(const Assignment &a) : as(a) {}
  u128 eval(E e);
};
// set of variable ids (arrays are encoded as 0x80000000|arr)
const std::vector<uint32_t> &varsOf(E e);
// does e contain an FP arithmetic operation (not only comparisons / bits)
bool hasFpArith(E e);
bool nonlinear(E e);   // symbolic products, quotients or roots of floating point values

// map f over the constant leaves of an ITE tree
E mapLeaves(E e, const std::function<E(E)> &f);
unsigned knownZeroLow(E e);  // number of known zero low bits
u128 umaxBound(E e);         // cheap upper bound
typedef double (*NativeFn)(const double*);
extern std::map<unsigned, std::function<u128(u128,u128,u128)>> gUFEval;
extern std::map<unsigned, std::string> gUFName;
