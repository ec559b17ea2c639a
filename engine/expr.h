// Hash-consed expression DAG over bit-vectors (width 1..64) and IEEE doubles.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>

enum class Op : uint8_t {
  // leaves
  IConst, ISym, FConst, FSym,
  // integer
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite,
  // double
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FIte, Fun1, Fun2,
  SIToFP, UIToFP, BitsToFP,
  // double -> int
  FLt, FLe, FEq, FNan, FPToSI, FPToUI, FPToBits,
};

enum class Fn : uint8_t {
  None, Sqrt, Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Sinh, Cosh, Tanh, Asinh,
  Acosh, Atanh, Exp, Exp2, Expm1, Log, Log2, Log10, Log1p, Pow, Floor, Ceil, Round, Trunc, RInt,
  Cbrt, Hypot, FMax, FMin, CopySign, Remainder,
};

struct Expr {
  Op op;
  Fn fn;
  uint16_t width;    // 0 for doubles
  uint32_t id;
  uint64_t ival;     // IConst value, Extract low bit, FConst bits, symbol index
  const Expr* k[3];
  bool isD() const { return width == 0; }
  double d() const { double x; memcpy(&x, &ival, 8); return x; }
};
using Ref = const Expr*;

enum class Mode { FPX, FPU, REAL };
extern Mode gMode;

struct SymInfo { std::string name; bool isD; unsigned width; double lo, hi; };
extern std::vector<SymInfo> gSyms;

Ref mkI(uint64_t v, unsigned w);
Ref mkD(double v);
Ref mkSym(unsigned idx);
unsigned addSym(const std::string& name, bool isD, unsigned w, double lo, double hi);
Ref mkBin(Op op, Ref a, Ref b);           // integer arithmetic / compare
Ref mkNot(Ref a);                         // i1
Ref mkAnd(Ref a, Ref b);
Ref mkOr(Ref a, Ref b);
Ref mkExt(Op op, Ref a, unsigned w);
Ref mkExtract(Ref a, unsigned lo, unsigned w);
Ref mkConcat(Ref hi, Ref lo);
Ref mkIte(Ref c, Ref a, Ref b);
Ref mkF(Op op, Ref a, Ref b = nullptr);
Ref mkFCmp(Op op, Ref a, Ref b = nullptr);
Ref mkFun(Fn f, Ref a, Ref b = nullptr);
Ref mkToFP(Op op, Ref a);
Ref mkFromFP(Op op, Ref a, unsigned w);
inline bool isC(Ref a) { return a->op == Op::IConst; }
inline bool isFC(Ref a) { return a->op == Op::FConst; }
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
inline double b2d(uint64_t b) { double x; memcpy(&x, &b, 8); return x; }
inline uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
double applyFn(Fn f, double a, double b);
const char* fnName(Fn f);
extern uint32_t gExprCount;
std::string show(Ref e, int depth = 6);
void collectSyms(Ref e, std::vector<char>& seenExpr, std::vector<char>& syms);

// concrete assignment of all symbols with a memoised evaluator
struct Sample {
  std::vector<uint64_t> v;                // by symbol index (double bits or integer)
  std::vector<uint64_t> memo;
  std::vector<char> has;
  uint64_t eval(Ref e);
  double evalD(Ref e) { return b2d(eval(e)); }
  void ensure(size_t n);
};
