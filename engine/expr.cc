#include "expr.h"
#include <cfenv>
#include <deque>
#include <sstream>
#include <cstdio>

Mode gMode = Mode::FPU;
std::vector<SymInfo> gSyms;
uint32_t gExprCount = 0;

namespace {
struct Key {
  Op op; Fn fn; uint16_t w; uint64_t iv; Ref a, b, c;
  bool operator==(const Key& o) const { return op == o.op && fn == o.fn && w == o.w && iv == o.iv && a == o.a && b == o.b && c == o.c; }
};
struct KH {
  size_t operator()(const Key& k) const {
    uint64_t h = (uint64_t)k.op * 1000003 + (uint64_t)k.fn * 7919 + k.w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(k.iv); mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0);
    return h;
  }
};
std::unordered_map<Key, Ref, KH> table;
std::deque<Expr> arena;

Ref mk(Op op, unsigned w, uint64_t iv, Ref a = nullptr, Ref b = nullptr, Ref c = nullptr, Fn fn = Fn::None) {
  Key k{op, fn, (uint16_t)w, iv, a, b, c};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  arena.push_back(Expr{op, fn, (uint16_t)w, gExprCount++, iv, {a, b, c}});
  Ref r = &arena.back();
  table.emplace(k, r);
  return r;
}

uint64_t foldInt(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : 0;
    case Op::URem: return b ? (a % b) & m : 0;
    case Op::SDiv: { int64_t x = sextw(a, w), y = sextw(b, w); return y ? ((y == -1) ? (0 - a) & m : (uint64_t)(x / y) & m) : 0; }
    case Op::SRem: { int64_t x = sextw(a, w), y = sextw(b, w); return y ? ((y == -1) ? 0 : (uint64_t)(x % y) & m) : 0; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> b);
    case Op::AShr: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextw(a, w) < sextw(b, w);
    case Op::Sle: return sextw(a, w) <= sextw(b, w);
    default: return 0;
  }
}
bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }
}  // namespace

Ref mkI(uint64_t v, unsigned w) { return mk(Op::IConst, w, v & maskw(w)); }
Ref mkD(double v) { return mk(Op::FConst, 0, d2b(v)); }
unsigned addSym(const std::string& name, bool isD, unsigned w, double lo, double hi) {
  for (unsigned i = 0; i < gSyms.size(); i++) if (gSyms[i].name == name && gSyms[i].isD == isD) return i;
  gSyms.push_back(SymInfo{name, isD, w, lo, hi});
  return gSyms.size() - 1;
}
Ref mkSym(unsigned i) { return gSyms[i].isD ? mk(Op::FSym, 0, i) : mk(Op::ISym, gSyms[i].width, i); }

Ref mkNot(Ref a) {
  if (isC(a)) return mkI(!a->ival, 1);
  if (a->op == Op::Xor && isC(a->k[1]) && a->k[1]->ival == 1 && a->width == 1) return a->k[0];
  return mk(Op::Xor, 1, 0, a, mkI(1, 1));
}
Ref mkAnd(Ref a, Ref b) { return mkBin(Op::And, a, b); }
Ref mkOr(Ref a, Ref b) { return mkBin(Op::Or, a, b); }

Ref mkBin(Op op, Ref a, Ref b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkI(foldInt(op, a->ival, b->ival, w), isCmp(op) ? 1 : w);
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (w == 1 && op == Op::Xor && isC(b) && b->ival == 1) return mkNot(a);
  if (isC(b)) {
    uint64_t c = b->ival;
    if (c == 0) {
      if (op == Op::Add || op == Op::Sub || op == Op::Or || op == Op::Xor || op == Op::Shl || op == Op::LShr || op == Op::AShr) return a;
      if (op == Op::Mul || op == Op::And) return b;
      if (op == Op::Ult) return mkI(0, 1);
    }
    if (c == maskw(w)) { if (op == Op::And) return a; if (op == Op::Or) return b; if (op == Op::Ule) return mkI(1, 1); }
    if (c == 1 && (op == Op::Mul || op == Op::UDiv || op == Op::SDiv)) return a;
    if (op == Op::Eq) {
      if (w == 1) return c ? a : mkNot(a);
      if (a->op == Op::ZExt) {
        if (c > maskw(a->k[0]->width)) return mkI(0, 1);
        return mkBin(Op::Eq, a->k[0], mkI(c, a->k[0]->width));
      }
      if (a->op == Op::SExt) {
        uint64_t t = c & maskw(a->k[0]->width);
        if (((uint64_t)sextw(t, a->k[0]->width) & maskw(w)) != c) return mkI(0, 1);
        return mkBin(Op::Eq, a->k[0], mkI(t, a->k[0]->width));
      }
      if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) {
        bool e1 = a->k[1]->ival == c, e2 = a->k[2]->ival == c;
        if (e1 && e2) return mkI(1, 1);
        if (!e1 && !e2) return mkI(0, 1);
        return e1 ? a->k[0] : mkNot(a->k[0]);
      }
    }
    if (op == Op::Add && a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, a->k[0], mkI(a->k[1]->ival + c, w));
    if (op == Op::Sub) return mkBin(Op::Add, a, mkI(0 - c, w));
    if (w == 1) { if (op == Op::Ult) return mkNot(a); }
  }
  if (a == b) {
    switch (op) {
      case Op::Sub: case Op::Xor: return mkI(0, w);
      case Op::And: case Op::Or: return a;
      case Op::Eq: case Op::Ule: case Op::Sle: return mkI(1, 1);
      case Op::Ult: case Op::Slt: return mkI(0, 1);
      default: break;
    }
  }
  if (w == 1 && (op == Op::And || op == Op::Or) && (a == mkNot(b))) return mkI(op == Op::Or, 1);
  return mk(op, isCmp(op) ? 1 : w, 0, a, b);
}

Ref mkExt(Op op, Ref a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkI(op == Op::ZExt ? a->ival : (uint64_t)sextw(a->ival, a->width), w);
  if (a->op == op) return mkExt(op, a->k[0], w);
  return mk(op, w, 0, a);
}
Ref mkExtract(Ref a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkI(a->ival >> lo, w);
  if (a->op == Op::Extract) return mkExtract(a->k[0], lo + a->ival, w);
  if (a->op == Op::Concat) {
    unsigned lw = a->k[1]->width;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
  }
  if (a->op == Op::ZExt || a->op == Op::SExt) {
    unsigned iw = a->k[0]->width;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (a->op == Op::ZExt && lo >= iw) return mkI(0, w);
    if (lo == 0) return mkExt(a->op, a->k[0], w);
  }
  if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
    return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  return mk(Op::Extract, w, lo, a);
}
Ref mkConcat(Ref hi, Ref lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return mkI((hi->ival << lo->width) | lo->ival, w);
  if (isC(hi) && hi->ival == 0) return mkExt(Op::ZExt, lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && lo->ival + lo->width == hi->ival)
    return mkExtract(lo->k[0], lo->ival, w);
  return mk(Op::Concat, w, 0, hi, lo);
}
Ref mkIte(Ref c, Ref a, Ref b) {
  if (isC(c)) return c->ival ? a : b;
  if (a == b) return a;
  if (a->width == 1 && !a->isD()) {
    if (isC(a) && isC(b)) return a->ival ? c : mkNot(c);
    if (isC(a)) return a->ival ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->ival ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  return mk(a->isD() ? Op::FIte : Op::Ite, a->width, 0, c, a, b);
}

Ref mkF(Op op, Ref a, Ref b) {
  if (isFC(a) && (!b || isFC(b))) {
    double x = a->d(), y = b ? b->d() : 0, r = 0;
    feclearexcept(FE_ALL_EXCEPT);
    volatile double vx = x, vy = y, vr = 0;
    switch (op) {
      case Op::FAdd: vr = vx + vy; break;
      case Op::FSub: vr = vx - vy; break;
      case Op::FMul: vr = vx * vy; break;
      case Op::FDiv: vr = vx / vy; break;
      case Op::FRem: vr = fmod(vx, vy); break;
      case Op::FNeg: vr = -vx; break;
      case Op::FAbs: vr = fabs(vx); break;
      default: break;
    }
    r = vr;
    bool inexact = fetestexcept(FE_INEXACT | FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW);
    if (!(gMode == Mode::REAL && inexact)) return mkD(r);
  }
  switch (op) {
    case Op::FAdd: case Op::FMul:
      if (a->id > b->id) std::swap(a, b);
      if (gMode == Mode::REAL) {
        if (op == Op::FAdd) { if (isFC(a) && a->d() == 0) return b; if (isFC(b) && b->d() == 0) return a; }
        else {
          for (int i = 0; i < 2; i++) { Ref x = i ? b : a, y = i ? a : b;
            if (isFC(x)) { if (x->d() == 0) return x; if (x->d() == 1) return y; } }
        }
      } else if (op == Op::FMul) {   // exact identities of IEEE arithmetic
        if (isFC(a) && a->d() == 1) return b;
        if (isFC(b) && b->d() == 1) return a;
        if (isFC(a) && a->d() == -1) return mkF(Op::FNeg, b);
        if (isFC(b) && b->d() == -1) return mkF(Op::FNeg, a);
      }
      if (op == Op::FAdd) {
        if (b->op == Op::FNeg) return mkF(Op::FSub, a, b->k[0]);
        if (a->op == Op::FNeg) return mkF(Op::FSub, b, a->k[0]);
      } else if (a->op == Op::FNeg || b->op == Op::FNeg) {
        bool n = (a->op == Op::FNeg) != (b->op == Op::FNeg);
        Ref r = mkF(op, a->op == Op::FNeg ? a->k[0] : a, b->op == Op::FNeg ? b->k[0] : b);
        return n ? mkF(Op::FNeg, r) : r;
      }
      break;
    case Op::FSub:
      if (isFC(b) && b->d() == 0 && !std::signbit(b->d())) return a;
      if (b->op == Op::FNeg) return mkF(Op::FAdd, a, b->k[0]);
      if (gMode == Mode::REAL) { if (a == b) return mkD(0); if (isFC(a) && a->d() == 0) return mkF(Op::FNeg, b); }
      break;
    case Op::FDiv:
      if (isFC(b) && b->d() == 1) return a;
      if (isFC(b) && b->d() == -1) return mkF(Op::FNeg, a);
      if (gMode == Mode::REAL && isFC(a) && a->d() == 0) return a;
      break;
    case Op::FNeg:
      if (a->op == Op::FNeg) return a->k[0];
      break;
    case Op::FAbs:
      if (a->op == Op::FAbs) return a;
      if (a->op == Op::FNeg) return mkF(op, a->k[0]);
      if (a->op == Op::FSub && a->k[0]->id > a->k[1]->id) return mkF(op, mkF(Op::FSub, a->k[1], a->k[0]));
      if (a->op == Op::FMul && isFC(a->k[0])) return mkF(Op::FMul, mkD(fabs(a->k[0]->d())), mkF(op, a->k[1]));
      if (a->op == Op::FMul && isFC(a->k[1])) return mkF(Op::FMul, mkF(op, a->k[0]), mkD(fabs(a->k[1]->d())));
      if (a->op == Op::FDiv && isFC(a->k[1])) return mkF(Op::FDiv, mkF(op, a->k[0]), mkD(fabs(a->k[1]->d())));
      break;
    default: break;
  }
  return mk(op, 0, 0, a, b);
}

static Ref sgnOfNeg(Ref a, bool& neg) { neg = false; while (a->op == Op::FNeg) { neg = !neg; a = a->k[0]; } return a; }

Ref mkFCmp(Op op, Ref a, Ref b) {
  if (isFC(a) && (!b || isFC(b))) {
    double x = a->d(), y = b ? b->d() : 0;
    switch (op) {
      case Op::FLt: return mkI(x < y, 1);
      case Op::FLe: return mkI(x <= y, 1);
      case Op::FEq: return mkI(x == y, 1);
      default: return mkI(x != x, 1);
    }
  }
  if (op == Op::FNan && gMode == Mode::REAL) return mkI(0, 1);
  if (op == Op::FNan && (a->op == Op::FSym)) return mkI(0, 1);   // inputs are finite
  if (op == Op::FEq && a->id > b->id) std::swap(a, b);
  if (op != Op::FNan && a == b) {
    if (op == Op::FLt) return mkI(0, 1);
    return mkNot(mkFCmp(Op::FNan, a));
  }
  if (op != Op::FNan) {
    if (a->op == Op::FNeg && b->op == Op::FNeg) return mkFCmp(op, b->k[0], a->k[0]);
    if (a->op == Op::FNeg && isFC(b)) return mkFCmp(op, mkD(-b->d()), a->k[0]);
    if (b->op == Op::FNeg && isFC(a)) return mkFCmp(op, b->k[0], mkD(-a->d()));
  }
  return mk(op, 1, 0, a, b);
}

const char* fnName(Fn f) {
  static const char* n[] = {"none", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh",
    "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "floor", "ceil", "round", "trunc", "rint",
    "cbrt", "hypot", "fmax", "fmin", "copysign", "remainder"};
  return n[(int)f];
}
double applyFn(Fn f, double a, double b) {
  switch (f) {
    case Fn::Sqrt: return sqrt(a); case Fn::Sin: return sin(a); case Fn::Cos: return cos(a); case Fn::Tan: return tan(a);
    case Fn::Asin: return asin(a); case Fn::Acos: return acos(a); case Fn::Atan: return atan(a); case Fn::Atan2: return atan2(a, b);
    case Fn::Sinh: return sinh(a); case Fn::Cosh: return cosh(a); case Fn::Tanh: return tanh(a); case Fn::Asinh: return asinh(a);
    case Fn::Acosh: return acosh(a); case Fn::Atanh: return atanh(a); case Fn::Exp: return exp(a); case Fn::Exp2: return exp2(a);
    case Fn::Expm1: return expm1(a); case Fn::Log: return log(a); case Fn::Log2: return log2(a); case Fn::Log10: return log10(a);
    case Fn::Log1p: return log1p(a); case Fn::Pow: return pow(a, b); case Fn::Floor: return floor(a); case Fn::Ceil: return ceil(a);
    case Fn::Round: return round(a); case Fn::Trunc: return trunc(a); case Fn::RInt: return rint(a); case Fn::Cbrt: return cbrt(a);
    case Fn::Hypot: return hypot(a, b); case Fn::FMax: return fmax(a, b); case Fn::FMin: return fmin(a, b);
    case Fn::CopySign: return copysign(a, b); case Fn::Remainder: return remainder(a, b); default: return NAN;
  }
}

Ref mkFun(Fn f, Ref a, Ref b) {
  if (f == Fn::Pow && isFC(b)) {
    double e = b->d();
    if (e == 1) return a;
    if (e == 0) return mkD(1);
    if (gMode == Mode::REAL && e == std::floor(e) && std::fabs(e) <= 8) {
      int n = (int)std::fabs(e);
      Ref r = a;
      for (int i = 1; i < n; i++) r = mkF(Op::FMul, r, a);
      return e < 0 ? mkF(Op::FDiv, mkD(1), r) : r;
    }
    if (gMode == Mode::REAL && e == 0.5) return mkFun(Fn::Sqrt, a);
  }
  if (isFC(a) && (!b || isFC(b))) {
    double r = applyFn(f, a->d(), b ? b->d() : 0);
    bool exact = f == Fn::Floor || f == Fn::Ceil || f == Fn::Round || f == Fn::Trunc || f == Fn::RInt || f == Fn::FMax || f == Fn::FMin;
    double x = a->d();
    if (x == 0 && (f == Fn::Sin || f == Fn::Tan || f == Fn::Asin || f == Fn::Atan || f == Fn::Sinh || f == Fn::Asinh || f == Fn::Tanh || f == Fn::Cos || f == Fn::Cosh || f == Fn::Exp)) exact = true;
    if (f == Fn::Sqrt && r * r == x && r == std::floor(r)) exact = true;
    if (gMode != Mode::REAL || exact) return mkD(r);
  }
  if (f == Fn::Hypot && gMode == Mode::REAL) return mkFun(Fn::Sqrt, mkF(Op::FAdd, mkF(Op::FMul, a, a), mkF(Op::FMul, b, b)));
  if (f == Fn::FMax) return mkIte(mkFCmp(Op::FNan, a), b, mkIte(mkFCmp(Op::FLt, a, b), b, a));
  if (f == Fn::FMin) return mkIte(mkFCmp(Op::FNan, a), b, mkIte(mkFCmp(Op::FLt, b, a), b, a));
  // odd/even functions of a negated argument (exact for correctly signed libm results)
  bool neg; Ref s = sgnOfNeg(a, neg);
  if (neg && !b) {
    switch (f) {
      case Fn::Sin: case Fn::Tan: case Fn::Asin: case Fn::Atan: case Fn::Sinh: case Fn::Tanh: case Fn::Asinh: case Fn::Atanh: case Fn::Cbrt:
        return mkF(Op::FNeg, mkFun(f, s));
      case Fn::Cos: case Fn::Cosh: return mkFun(f, s);
      default: break;
    }
  }
  return mk(b ? Op::Fun2 : Op::Fun1, 0, 0, a, b, nullptr, f);
}
Ref mkToFP(Op op, Ref a) {
  if (isC(a)) {
    if (op == Op::BitsToFP) return mkD(b2d(a->ival));
    return mkD(op == Op::SIToFP ? (double)sextw(a->ival, a->width) : (double)a->ival);
  }
  if (op == Op::BitsToFP && a->op == Op::FPToBits) return a->k[0];
  if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkToFP(op, a->k[1]), mkToFP(op, a->k[2]));
  return mk(op, 0, 0, a);
}
static uint64_t fp2i(double x, unsigned w, bool sg) {
  if (x != x) return 0;
  if (sg) { if (x >= 9.3e18 || x <= -9.3e18) return 0; return (uint64_t)(int64_t)x & maskw(w); }
  if (x <= -1 || x >= 1.85e19) return 0;
  return (uint64_t)x & maskw(w);
}
Ref mkFromFP(Op op, Ref a, unsigned w) {
  if (isFC(a)) {
    if (op == Op::FPToBits) return mkI(a->ival, 64);
    return mkI(fp2i(a->d(), w, op == Op::FPToSI), w);
  }
  if (op == Op::FPToBits && a->op == Op::BitsToFP) return a->k[0];
  if ((op == Op::FPToSI) && (a->op == Op::SIToFP) && a->k[0]->width <= w && a->k[0]->width <= 32) return mkExt(Op::SExt, a->k[0], w);
  if (a->op == Op::FIte && isFC(a->k[1]) && isFC(a->k[2])) return mkIte(a->k[0], mkFromFP(op, a->k[1], w), mkFromFP(op, a->k[2], w));
  return mk(op, w, 0, a);
}

void Sample::ensure(size_t n) {
  if (memo.size() < n) { memo.resize(n + n / 2 + 64); has.resize(memo.size(), 0); }
}
uint64_t Sample::eval(Ref e) {
  if (e->op == Op::IConst || e->op == Op::FConst) return e->ival;
  if (e->op == Op::ISym || e->op == Op::FSym) return v[e->ival];
  ensure(gExprCount);
  if (has[e->id]) return memo[e->id];
  uint64_t r = 0;
  auto D = [&](int i) { return b2d(eval(e->k[i])); };
  switch (e->op) {
    case Op::ZExt: r = eval(e->k[0]); break;
    case Op::SExt: r = (uint64_t)sextw(eval(e->k[0]), e->k[0]->width) & maskw(e->width); break;
    case Op::Extract: r = (eval(e->k[0]) >> e->ival) & maskw(e->width); break;
    case Op::Concat: r = (eval(e->k[0]) << e->k[1]->width) | eval(e->k[1]); break;
    case Op::Ite: case Op::FIte: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
    case Op::FAdd: r = d2b(D(0) + D(1)); break;
    case Op::FSub: r = d2b(D(0) - D(1)); break;
    case Op::FMul: r = d2b(D(0) * D(1)); break;
    case Op::FDiv: r = d2b(D(0) / D(1)); break;
    case Op::FRem: r = d2b(fmod(D(0), D(1))); break;
    case Op::FNeg: r = d2b(-D(0)); break;
    case Op::FAbs: r = d2b(fabs(D(0))); break;
    case Op::Fun1: r = d2b(applyFn(e->fn, D(0), 0)); break;
    case Op::Fun2: r = d2b(applyFn(e->fn, D(0), D(1))); break;
    case Op::SIToFP: r = d2b((double)sextw(eval(e->k[0]), e->k[0]->width)); break;
    case Op::UIToFP: r = d2b((double)eval(e->k[0])); break;
    case Op::BitsToFP: r = eval(e->k[0]); break;
    case Op::FPToBits: r = eval(e->k[0]); break;
    case Op::FLt: r = D(0) < D(1); break;
    case Op::FLe: r = D(0) <= D(1); break;
    case Op::FEq: r = D(0) == D(1); break;
    case Op::FNan: { double x = D(0); r = x != x; break; }
    case Op::FPToSI: r = fp2i(D(0), e->width, true); break;
    case Op::FPToUI: r = fp2i(D(0), e->width, false); break;
    default: r = foldInt(e->op, eval(e->k[0]), eval(e->k[1]), e->k[0]->width); break;
  }
  memo[e->id] = r; has[e->id] = 1;
  return r;
}

void collectSyms(Ref e, std::vector<char>& seen, std::vector<char>& syms) {
  if (seen.size() < gExprCount) seen.resize(gExprCount, 0);
  if (seen[e->id]) return;
  seen[e->id] = 1;
  if (e->op == Op::FSym || e->op == Op::ISym) { if (syms.size() < gSyms.size()) syms.resize(gSyms.size(), 0); syms[e->ival] = 1; return; }
  for (int i = 0; i < 3; i++) if (e->k[i]) collectSyms(e->k[i], seen, syms);
}

std::string show(Ref e, int depth) {
  static const char* on[] = {"ic", "is", "fc", "fs", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
    "=", "ult", "ule", "slt", "sle", "zext", "sext", "extract", "concat", "ite", "f+", "f-", "f*", "f/", "frem", "fneg", "fabs", "fite",
    "fn1", "fn2", "sitofp", "uitofp", "bits2fp", "f<", "f<=", "f=", "isnan", "fptosi", "fptoui", "fp2bits"};
  char b[64];
  switch (e->op) {
    case Op::IConst: snprintf(b, 64, "%lld", (long long)sextw(e->ival, e->width)); return b;
    case Op::FConst: snprintf(b, 64, "%.17g", e->d()); return b;
    case Op::ISym: case Op::FSym: return gSyms[e->ival].name;
    default: break;
  }
  if (depth <= 0) return "#" + std::to_string(e->id);
  std::string s = "(";
  s += (e->op == Op::Fun1 || e->op == Op::Fun2) ? fnName(e->fn) : on[(int)e->op];
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], depth - 1);
  return s + ")";
}
