#include <set>
// Encodings into Z3: FPX (bit-precise binary64), FPU (binary64 comparisons, uninterpreted arithmetic).
// REAL mode is in real.cc.
#include "solve.h"
#include "real.h"
#include <z3++.h>
#include <functional>
#include <unistd.h>
#include <chrono>
#include <map>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <gmpxx.h>
#include <algorithm>
#include <iostream>

SolveStats gStats;
bool gCrossCheck = false;
uint64_t gCrossOk = 0, gCrossUnknown = 0, gCrossBad = 0;

namespace {
z3::context* C;
void crossCheck(z3::solver& s);
std::vector<std::unique_ptr<z3::expr>> memo;
std::vector<z3::expr>* side;       // axioms triggered while encoding (per expression, cached below)
std::vector<std::vector<z3::expr>> axioms;   // by expr id
std::map<std::string, std::unique_ptr<z3::func_decl>> ufs;

z3::sort fps() { return C->fpa_sort(11, 53); }
z3::expr rne() { return z3::expr(*C, Z3_mk_fpa_round_nearest_ties_to_even(*C)); }
z3::expr wrap(Z3_ast a) { C->check_error(); return z3::expr(*C, a); }
z3::func_decl& uf(const std::string& n, int ar) {
  auto& p = ufs[n];
  if (!p) {
    z3::sort f = fps();
    p.reset(new z3::func_decl(ar == 1 ? C->function(n.c_str(), f, f) : C->function(n.c_str(), f, f, f)));
  }
  return *p;
}
z3::expr fpc(double d) { return C->fpa_val(d); }
z3::expr lt(const z3::expr& a, const z3::expr& b) { return wrap(Z3_mk_fpa_lt(*C, a, b)); }
z3::expr le(const z3::expr& a, const z3::expr& b) { return wrap(Z3_mk_fpa_leq(*C, a, b)); }
z3::expr feq(const z3::expr& a, const z3::expr& b) { return wrap(Z3_mk_fpa_eq(*C, a, b)); }
z3::expr isnan(const z3::expr& a) { return wrap(Z3_mk_fpa_is_nan(*C, a)); }
z3::expr isinf(const z3::expr& a) { return wrap(Z3_mk_fpa_is_infinite(*C, a)); }

z3::expr enc(Ref e);
z3::expr B(Ref e) { z3::expr x = enc(e); return x.is_bool() ? x : (x == C->bv_val(1, 1)); }
z3::expr V(Ref e) { z3::expr x = enc(e); return x.is_bool() ? z3::ite(x, C->bv_val(1, 1), C->bv_val(0, 1)) : x; }

z3::expr enc0(Ref e) {
  unsigned w = e->width;
  switch (e->op) {
    case Op::IConst: return w == 1 ? C->bool_val(e->ival != 0) : C->bv_val((uint64_t)e->ival, w);
    case Op::FConst: {
      double d = e->d();
      if (d != d) return wrap(Z3_mk_fpa_nan(*C, fps()));
      if (std::isinf(d)) return wrap(Z3_mk_fpa_inf(*C, fps(), d < 0));
      return wrap(Z3_mk_fpa_numeral_double(*C, d, fps()));
    }
    case Op::ISym: { auto n = "i" + std::to_string(e->ival); return w == 1 ? C->bool_const(n.c_str()) : C->bv_const(n.c_str(), w); }
    case Op::FSym: return C->constant(("d" + std::to_string(e->ival)).c_str(), fps());
    default: break;
  }
  if (w == 1 && !e->isD()) {
    switch (e->op) {
      case Op::And: return B(e->k[0]) && B(e->k[1]);
      case Op::Or: return B(e->k[0]) || B(e->k[1]);
      case Op::Xor: if (isC(e->k[1]) && e->k[1]->ival) return !B(e->k[0]); return B(e->k[0]) != B(e->k[1]);
      case Op::Ite: return z3::ite(B(e->k[0]), B(e->k[1]), B(e->k[2]));
      case Op::Eq: if (e->k[0]->width == 1) return B(e->k[0]) == B(e->k[1]); return V(e->k[0]) == V(e->k[1]);
      case Op::Ult: return z3::ult(V(e->k[0]), V(e->k[1]));
      case Op::Ule: return z3::ule(V(e->k[0]), V(e->k[1]));
      case Op::Slt: return V(e->k[0]) < V(e->k[1]);
      case Op::Sle: return V(e->k[0]) <= V(e->k[1]);
      case Op::FLt: return lt(enc(e->k[0]), enc(e->k[1]));
      case Op::FLe: return le(enc(e->k[0]), enc(e->k[1]));
      case Op::FEq: return feq(enc(e->k[0]), enc(e->k[1]));
      case Op::FNan: return isnan(enc(e->k[0]));
      default: break;
    }
  }
  auto a = [&](int i) { return V(e->k[i]); };
  auto f = [&](int i) { return enc(e->k[i]); };
  bool exact = gMode == Mode::FPX;
  auto& ax = axioms[e->id];
  switch (e->op) {
    case Op::Add: return a(0) + a(1);
    case Op::Sub: return a(0) - a(1);
    case Op::Mul: return a(0) * a(1);
    case Op::UDiv: return z3::udiv(a(0), a(1));
    case Op::SDiv: return a(0) / a(1);
    case Op::URem: return z3::urem(a(0), a(1));
    case Op::SRem: return z3::srem(a(0), a(1));
    case Op::And: return a(0) & a(1);
    case Op::Or: return a(0) | a(1);
    case Op::Xor: return a(0) ^ a(1);
    case Op::Shl: return z3::shl(a(0), a(1));
    case Op::LShr: return z3::lshr(a(0), a(1));
    case Op::AShr: return z3::ashr(a(0), a(1));
    case Op::ZExt: return z3::zext(a(0), w - e->k[0]->width);
    case Op::SExt: return z3::sext(a(0), w - e->k[0]->width);
    case Op::Extract: { z3::expr x = a(0).extract(e->ival + w - 1, e->ival); return w == 1 ? (x == C->bv_val(1, 1)) : x; }
    case Op::Concat: return z3::concat(a(0), a(1));
    case Op::Ite: return z3::ite(B(e->k[0]), a(1), a(2));
    case Op::FIte: return z3::ite(B(e->k[0]), f(1), f(2));
    case Op::FNeg: return wrap(Z3_mk_fpa_neg(*C, f(0)));
    case Op::FAbs: return wrap(Z3_mk_fpa_abs(*C, f(0)));
    case Op::FAdd:
      if (exact) return wrap(Z3_mk_fpa_add(*C, rne(), f(0), f(1)));
      {
        z3::expr r = uf("fadd", 2)(f(0), f(1));
        // IEEE facts: adding a non-negative finite number does not decrease, etc.
        for (int i = 0; i < 2; i++) {
          z3::expr x = f(i), y = f(1 - i);
          ax.push_back(z3::implies(le(fpc(0), y) && !isnan(x) && !isinf(x), le(x, r)));
          ax.push_back(z3::implies(le(y, fpc(0)) && !isnan(x) && !isinf(x), le(r, x)));
        }
        return r;
      }
    case Op::FSub:
      if (exact) return wrap(Z3_mk_fpa_sub(*C, rne(), f(0), f(1)));
      {
        z3::expr r = uf("fsub", 2)(f(0), f(1));
        z3::expr fin = !isinf(f(0)) && !isinf(f(1));
        ax.push_back(z3::implies(fin && lt(f(0), f(1)), lt(r, fpc(0))));
        ax.push_back(z3::implies(fin && lt(f(1), f(0)), lt(fpc(0), r)));
        ax.push_back(z3::implies(fin && feq(f(0), f(1)), feq(r, fpc(0))));
        ax.push_back(z3::implies(fin, (isnan(f(0)) || isnan(f(1))) == isnan(r)));
        return r;
      }
    case Op::FMul:
      if (exact) return wrap(Z3_mk_fpa_mul(*C, rne(), f(0), f(1)));
      {
        z3::expr r = uf("fmul", 2)(f(0), f(1));
        z3::expr fin = !isinf(f(0)) && !isinf(f(1)) && !isnan(f(0)) && !isnan(f(1));
        z3::expr z = fpc(0);
        ax.push_back(z3::implies(fin, !isnan(r)));
        ax.push_back(z3::implies(fin && ((le(z, f(0)) && le(z, f(1))) || (le(f(0), z) && le(f(1), z))), le(z, r)));
        ax.push_back(z3::implies(fin && ((le(z, f(0)) && le(f(1), z)) || (le(f(0), z) && le(z, f(1)))), le(r, z)));
        return r;
      }
    case Op::FDiv:
      if (exact) return wrap(Z3_mk_fpa_div(*C, rne(), f(0), f(1)));
      {
        z3::expr r = uf("fdiv", 2)(f(0), f(1));
        z3::expr fin = !isinf(f(0)) && !isinf(f(1)) && !isnan(f(0)) && !isnan(f(1)) && !feq(f(1), fpc(0));
        z3::expr z = fpc(0);
        ax.push_back(z3::implies(fin, !isnan(r)));
        ax.push_back(z3::implies(fin && ((le(z, f(0)) && le(z, f(1))) || (le(f(0), z) && le(f(1), z))), le(z, r)));
        ax.push_back(z3::implies(fin && ((le(z, f(0)) && le(f(1), z)) || (le(f(0), z) && le(z, f(1)))), le(r, z)));
        return r;
      }
    case Op::FRem: return uf("frem", 2)(f(0), f(1));
    case Op::Fun1: {
      if (e->fn == Fn::Sqrt && exact) return wrap(Z3_mk_fpa_sqrt(*C, rne(), f(0)));
      if (e->fn == Fn::Floor) return wrap(Z3_mk_fpa_round_to_integral(*C, Z3_mk_fpa_round_toward_negative(*C), f(0)));
      if (e->fn == Fn::Ceil) return wrap(Z3_mk_fpa_round_to_integral(*C, Z3_mk_fpa_round_toward_positive(*C), f(0)));
      if (e->fn == Fn::Round) return wrap(Z3_mk_fpa_round_to_integral(*C, Z3_mk_fpa_round_nearest_ties_to_away(*C), f(0)));
      if (e->fn == Fn::Trunc) return wrap(Z3_mk_fpa_round_to_integral(*C, Z3_mk_fpa_round_toward_zero(*C), f(0)));
      z3::expr r = uf(fnName(e->fn), 1)(f(0));
      z3::expr ok = !isnan(f(0)) && !isinf(f(0));
      z3::expr z = fpc(0);
      switch (e->fn) {
        case Fn::Sqrt: ax.push_back(z3::implies(le(z, f(0)), le(z, r))); ax.push_back(z3::implies(lt(z, f(0)), lt(z, r))); break;
        case Fn::Cosh: ax.push_back(z3::implies(ok, le(fpc(1), r))); break;
        case Fn::Exp: ax.push_back(z3::implies(ok, le(z, r))); break;
        case Fn::Sin: case Fn::Cos: ax.push_back(z3::implies(ok, le(fpc(-1), r) && le(r, fpc(1)))); break;
        case Fn::Atan: ax.push_back(z3::implies(ok, le(fpc(-M_PI_2), r) && le(r, fpc(M_PI_2)))); // fallthrough
        case Fn::Sinh: case Fn::Asinh: case Fn::Tanh:
          ax.push_back(z3::implies(ok && lt(z, f(0)), le(z, r)));
          ax.push_back(z3::implies(ok && lt(f(0), z), le(r, z)));
          ax.push_back(z3::implies(ok, !isnan(r)));
          break;
        default: break;
      }
      return r;
    }
    case Op::Fun2: return uf(fnName(e->fn), 2)(f(0), f(1));
    case Op::SIToFP: return wrap(Z3_mk_fpa_to_fp_signed(*C, rne(), a(0), fps()));
    case Op::UIToFP: return wrap(Z3_mk_fpa_to_fp_unsigned(*C, rne(), a(0), fps()));
    case Op::BitsToFP: return wrap(Z3_mk_fpa_to_fp_bv(*C, a(0), fps()));
    case Op::FPToSI: return wrap(Z3_mk_fpa_to_sbv(*C, Z3_mk_fpa_round_toward_zero(*C), f(0), w));
    case Op::FPToUI: return wrap(Z3_mk_fpa_to_ubv(*C, Z3_mk_fpa_round_toward_zero(*C), f(0), w));
    case Op::FPToBits: return wrap(Z3_mk_fpa_to_ieee_bv(*C, f(0)));
    default: break;
  }
  fprintf(stderr, "enc: unhandled op %d\n", (int)e->op);
  exit(3);
}
z3::expr enc(Ref e) {
  if (memo.size() <= e->id) { size_t n = gExprCount + gExprCount / 2 + 16; memo.resize(n); axioms.resize(n); }
  if (!memo[e->id]) { z3::expr r = enc0(e); memo[e->id].reset(new z3::expr(r)); }
  return *memo[e->id];
}
void gatherAx(Ref e, std::vector<char>& seen, z3::solver& s) {
  if (seen.size() < gExprCount) seen.resize(gExprCount, 0);
  if (seen[e->id]) return;
  seen[e->id] = 1;
  if (e->id < axioms.size()) for (auto& a : axioms[e->id]) s.add(a);
  for (int i = 0; i < 3; i++) if (e->k[i]) gatherAx(e->k[i], seen, s);
}

Res solveFP(const std::vector<Ref>& conj, std::vector<uint64_t>* model, unsigned tmo) {
  z3::solver s(*C);
  z3::params p(*C);
  p.set("timeout", tmo);
  p.set("random_seed", 1u);
  s.set(p);
  for (Ref c : conj) s.add(B(c));
  std::vector<char> seen, se2, syms;
  for (Ref c : conj) { gatherAx(c, seen, s); collectSyms(c, se2, syms); }
  syms.resize(gSyms.size(), 0);
  for (size_t i = 0; i < gSyms.size(); i++) if (syms[i]) {
    z3::expr x = enc(mkSym(i));
    if (gSyms[i].isD) { s.add(le(fpc(gSyms[i].lo), x)); s.add(le(x, fpc(gSyms[i].hi))); }
  }
  z3::check_result r;
  try { r = s.check(); } catch (z3::exception&) { return Res::UNKNOWN; }
  if (r == z3::unknown) return Res::UNKNOWN;
  if (r == z3::unsat) {
    crossCheck(s);
    return Res::UNSAT;
  }
  if (model) {
    z3::model m = s.get_model();
    model->assign(gSyms.size(), 0);
    for (size_t i = 0; i < gSyms.size(); i++) {
      if (!syms[i]) { (*model)[i] = ~0ull - 12345; continue; }   // caller keeps a default
      z3::expr v = m.eval(enc(mkSym(i)), true);
      if (gSyms[i].isD) {
        z3::expr bits = m.eval(wrap(Z3_mk_fpa_to_ieee_bv(*C, v)), true).simplify();
        (*model)[i] = bits.get_numeral_uint64();
      } else if (v.is_bool()) (*model)[i] = v.is_true();
      else (*model)[i] = v.get_numeral_uint64();
    }
  }
  return Res::SAT;
}

// ---- FPU encoding: order of binary64 values embedded in the reals, a NaN flag per term, arithmetic and
// libm uninterpreted (with sign/monotonicity facts that hold for IEEE arithmetic).  Comparisons are exact.
// Signed zeros are identified; infinities are just large values of the uninterpreted results.
struct RV { z3::expr v; z3::expr nan; RV(z3::expr a, z3::expr b) : v(a), nan(b) {} };
std::vector<std::unique_ptr<z3::expr>> memoB;     // booleans / bit-vectors
std::vector<std::unique_ptr<RV>> memoD;
std::vector<std::vector<z3::expr>> axR;
RV encD(Ref e);
z3::expr encI(Ref e);
z3::expr BR(Ref e) { z3::expr x = encI(e); return x.is_bool() ? x : (x == C->bv_val(1, 1)); }
z3::expr VR(Ref e) { z3::expr x = encI(e); return x.is_bool() ? z3::ite(x, C->bv_val(1, 1), C->bv_val(0, 1)) : x; }
std::map<std::string, std::unique_ptr<z3::func_decl>> ufr;
z3::func_decl& fR(const std::string& n, int ar, z3::sort rs) {
  auto& p = ufr[n];
  if (!p) { z3::sort f = C->real_sort(); p.reset(new z3::func_decl(ar == 1 ? C->function(n.c_str(), f, rs) : C->function(n.c_str(), f, f, rs))); }
  return *p;
}
z3::expr realOf(double d) {
  if (std::isinf(d)) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, 1024); if (d < 0) z = -z; return C->real_val(z.get_str().c_str()); }
  mpq_class q(d); return C->real_val(q.get_str().c_str());
}
// interval enclosure of a term over all symbol values (IEEE rounding is monotone; libm results are widened)
struct IV { double lo, hi; bool nan; };
std::vector<std::unique_ptr<IV>> memoV;
const IV& ival(Ref e);
IV ival0(Ref e) {
  const double INF = INFINITY;
  IV top{-INF, INF, true};
  auto wid = [](double l, double h, bool n) { auto w = [](double x, int s) { return std::isinf(x) ? x : x + s * (std::fabs(x) * 1e-12 + 1e-300); }; return IV{w(l, -1), w(h, 1), n}; };
  switch (e->op) {
    case Op::FConst: return e->d() != e->d() ? IV{0, 0, true} : IV{e->d(), e->d(), false};
    case Op::FSym: return {gSyms[e->ival].lo, gSyms[e->ival].hi, false};
    case Op::SIToFP: { unsigned w = e->k[0]->width; double m = std::ldexp(1.0, w - 1); return {-m, m, false}; }
    case Op::UIToFP: { unsigned w = e->k[0]->width; return {0, std::ldexp(1.0, w), false}; }
    case Op::FNeg: { IV a = ival(e->k[0]); return {-a.hi, -a.lo, a.nan}; }
    case Op::FAbs: { IV a = ival(e->k[0]); double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); return {a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, m, a.nan}; }
    case Op::FIte: { IV a = ival(e->k[1]), b = ival(e->k[2]);
      Ref c = e->k[0];
      if (c->op == Op::FLt && c->k[0] == e->k[2] && c->k[1] == e->k[1]) return {std::max(a.lo, b.lo), std::max(a.hi, b.hi), b.nan};   // greater of the two
      if (c->op == Op::FLt && c->k[0] == e->k[1] && c->k[1] == e->k[2]) return {std::min(a.lo, b.lo), std::min(a.hi, b.hi), b.nan};   // lesser of the two
      if (c->op == Op::FNan && e->k[2]->op == Op::FIte) { Ref i = e->k[2]; if (i->k[2] == c->k[0] && i->k[0]->op == Op::FLt) return {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan}; }
      return {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan}; }
    case Op::FAdd: case Op::FSub: {
      IV a = ival(e->k[0]), b = ival(e->k[1]); if (e->op == Op::FSub) b = {-b.hi, -b.lo, b.nan};
      IV r{a.lo + b.lo, a.hi + b.hi, a.nan || b.nan};
      if ((std::isinf(a.lo) || std::isinf(a.hi)) && (std::isinf(b.lo) || std::isinf(b.hi))) return top;
      if (r.lo != r.lo || r.hi != r.hi) return top;
      return r; }
    case Op::FMul: case Op::FDiv: {
      IV a = ival(e->k[0]), b = ival(e->k[1]); bool n = a.nan || b.nan;
      if (std::isinf(a.lo) || std::isinf(a.hi) || std::isinf(b.lo) || std::isinf(b.hi)) return e->op == Op::FMul && e->k[0] == e->k[1] ? IV{0, INF, n} : top;
      if (e->op == Op::FMul && e->k[0] == e->k[1]) { double m = std::max(std::fabs(a.lo), std::fabs(a.hi)), l = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; return {l * l, m * m, n}; }
      if (e->op == Op::FDiv && b.lo <= 0 && b.hi >= 0) return top;
      double v[4] = {e->op == Op::FMul ? a.lo * b.lo : a.lo / b.lo, e->op == Op::FMul ? a.lo * b.hi : a.lo / b.hi, e->op == Op::FMul ? a.hi * b.lo : a.hi / b.lo, e->op == Op::FMul ? a.hi * b.hi : a.hi / b.hi};
      return {*std::min_element(v, v + 4), *std::max_element(v, v + 4), n}; }
    case Op::Fun1: {
      IV a = ival(e->k[0]); bool ai = std::isinf(a.lo) || std::isinf(a.hi);
      switch (e->fn) {
        case Fn::Sqrt: return {a.lo > 0 ? std::sqrt(a.lo) : 0, a.hi > 0 ? std::sqrt(a.hi) : 0, a.nan || a.lo < 0};
        case Fn::Sin: case Fn::Cos: return {-1, 1, a.nan || ai};
        case Fn::Atan: return wid(std::atan(a.lo), std::atan(a.hi), a.nan);
        case Fn::Asinh: return wid(std::asinh(a.lo), std::asinh(a.hi), a.nan);
        case Fn::Tanh: return wid(std::tanh(a.lo), std::tanh(a.hi), a.nan);
        case Fn::Sinh: return wid(std::sinh(a.lo), std::sinh(a.hi), a.nan);
        case Fn::Exp: { IV r = wid(std::exp(a.lo), std::exp(a.hi), a.nan); if (r.lo < 0) r.lo = 0; return r; }
        case Fn::Cosh: { double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); IV r = wid(1, std::cosh(m), a.nan); r.lo = 1; return r; }
        case Fn::Log: if (a.lo > 0) return wid(std::log(a.lo), std::log(a.hi), a.nan); return top;
        case Fn::Acos: return {0, 3.1415926535897936, a.nan || a.lo < -1 || a.hi > 1};
        case Fn::Asin: return {-1.5707963267948970, 1.5707963267948970, a.nan || a.lo < -1 || a.hi > 1};
        case Fn::Floor: return {std::floor(a.lo), std::floor(a.hi), a.nan};
        case Fn::Ceil: return {std::ceil(a.lo), std::ceil(a.hi), a.nan};
        case Fn::Round: return {std::round(a.lo), std::round(a.hi), a.nan};
        default: return top;
      } }
    case Op::Fun2:
      if (e->fn == Fn::Pow) {
        IV a = ival(e->k[0]), b = ival(e->k[1]);
        if (a.lo > 0 && !std::isinf(a.hi) && !std::isinf(b.lo) && !std::isinf(b.hi)) {
          double v[4] = {std::pow(a.lo, b.lo), std::pow(a.lo, b.hi), std::pow(a.hi, b.lo), std::pow(a.hi, b.hi)};
          IV r = wid(*std::min_element(v, v + 4), *std::max_element(v, v + 4), a.nan || b.nan); if (r.lo < 0) r.lo = 0; return r; }
        if (b.lo == b.hi && b.lo == std::floor(b.lo) && b.lo > 0 && b.lo < 64) {
          bool ev = std::fmod(b.lo, 2) == 0; double l = std::pow(a.lo, b.lo), h = std::pow(a.hi, b.lo);
          if (!ev) return wid(l, h, a.nan || b.nan);
          IV r = wid(a.lo > 0 ? l : a.hi < 0 ? h : 0, std::max(l, h), a.nan || b.nan); if (r.lo < 0) r.lo = 0; return r; }
        return top;
      }
      if (e->fn == Fn::Atan2) { IV a = ival(e->k[0]), b = ival(e->k[1]); return {-3.1415926535897936, 3.1415926535897936, a.nan || b.nan}; }
      return top;
    default: return top;
  }
}
const IV& ival(Ref e) {
  if (memoV.size() <= e->id) memoV.resize(gExprCount + gExprCount / 2 + 16);
  if (!memoV[e->id]) {
    IV r = ival0(e);
    if (r.lo != r.lo) { r.lo = -INFINITY; r.nan = true; }   // 0 * inf and the like
    if (r.hi != r.hi) { r.hi = INFINITY; r.nan = true; }
    memoV[e->id].reset(new IV(r));
  }
  return *memoV[e->id];
}
z3::expr F() { return C->bool_val(false); }
z3::expr encI0(Ref e) {
  unsigned w = e->width;
  auto b = [&](int i) { return BR(e->k[i]); };
  auto v = [&](int i) { return VR(e->k[i]); };
  auto cmp = [&](std::function<z3::expr(z3::expr, z3::expr)> f) {
    RV x = encD(e->k[0]), y = encD(e->k[1]);
    return (!x.nan && !y.nan && f(x.v, y.v)).simplify(); };
  switch (e->op) {
    case Op::IConst: return w == 1 ? C->bool_val(e->ival != 0) : C->bv_val((uint64_t)e->ival, w);
    case Op::ISym: { auto n = "i" + std::to_string(e->ival); return w == 1 ? C->bool_const(n.c_str()) : C->bv_const(n.c_str(), w); }
    case Op::FLt: return cmp([](z3::expr x, z3::expr y) { return x < y; });
    case Op::FLe: return cmp([](z3::expr x, z3::expr y) { return x <= y; });
    case Op::FEq: return cmp([](z3::expr x, z3::expr y) { return x == y; });
    case Op::FNan: return encD(e->k[0]).nan;
    case Op::And: return w == 1 ? (b(0) && b(1)) : (v(0) & v(1));
    case Op::Or: return w == 1 ? (b(0) || b(1)) : (v(0) | v(1));
    case Op::Xor: return w == 1 ? (isC(e->k[1]) && e->k[1]->ival ? !b(0) : b(0) != b(1)) : (v(0) ^ v(1));
    case Op::Eq: return e->k[0]->width == 1 ? b(0) == b(1) : v(0) == v(1);
    case Op::Slt: return v(0) < v(1);
    case Op::Sle: return v(0) <= v(1);
    case Op::Ult: return z3::ult(v(0), v(1));
    case Op::Ule: return z3::ule(v(0), v(1));
    case Op::Add: return v(0) + v(1);
    case Op::Sub: return v(0) - v(1);
    case Op::Mul: return v(0) * v(1);
    case Op::UDiv: return z3::udiv(v(0), v(1));
    case Op::SDiv: return v(0) / v(1);
    case Op::URem: return z3::urem(v(0), v(1));
    case Op::SRem: return z3::srem(v(0), v(1));
    case Op::Shl: return z3::shl(v(0), v(1));
    case Op::LShr: return z3::lshr(v(0), v(1));
    case Op::AShr: return z3::ashr(v(0), v(1));
    case Op::Ite: return w == 1 ? z3::ite(b(0), b(1), b(2)) : z3::ite(b(0), v(1), v(2));
    case Op::ZExt: return z3::zext(v(0), w - e->k[0]->width);
    case Op::SExt: return z3::sext(v(0), w - e->k[0]->width);
    case Op::Concat: return z3::concat(v(0), v(1));
    case Op::Extract: { z3::expr x = v(0).extract(e->ival + w - 1, e->ival); return w == 1 ? (x == C->bv_val(1, 1)) : x; }
    case Op::FPToSI: case Op::FPToUI: case Op::FPToBits:
      return fR((e->op == Op::FPToSI ? "f2si" : e->op == Op::FPToUI ? "f2ui" : "f2b") + std::to_string(w), 1, C->bv_sort(w))(encD(e->k[0]).v);
    default: break;
  }
  fprintf(stderr, "encI: unhandled op %d\n", (int)e->op); exit(3);
}
z3::expr encI(Ref e) {
  if (memoB.size() <= e->id) memoB.resize(gExprCount + gExprCount / 2 + 16);
  if (!memoB[e->id]) { z3::expr r = encI0(e); memoB[e->id].reset(new z3::expr(r)); }
  return *memoB[e->id];
}
RV encD0(Ref e) {
  auto d = [&](int i) { return encD(e->k[i]); };
  z3::expr zero = C->real_val(0);
  switch (e->op) {
    case Op::FConst: if (e->d() != e->d()) return RV(zero, C->bool_val(true)); return RV(realOf(e->d()), F());
    case Op::FSym: return RV(C->real_const(("r" + std::to_string(e->ival)).c_str()), F());
    case Op::FNeg: { RV x = d(0); return RV(-x.v, x.nan); }
    case Op::FAbs: { RV x = d(0); return RV(z3::ite(x.v >= 0, x.v, -x.v), x.nan); }
    case Op::FIte: { z3::expr c = BR(e->k[0]); RV x = d(1), y = d(2); return RV(z3::ite(c, x.v, y.v), z3::ite(c, x.nan, y.nan)); }
    case Op::SIToFP: case Op::UIToFP: case Op::BitsToFP: {
      std::string n = (e->op == Op::SIToFP ? "si2f" : e->op == Op::UIToFP ? "ui2f" : "b2f") + std::to_string(e->k[0]->width);
      auto& p = ufr[n];
      if (!p) p.reset(new z3::func_decl(C->function(n.c_str(), C->bv_sort(e->k[0]->width), C->real_sort())));
      return RV((*p)(VR(e->k[0])), F());
    }
    default: break;
  }
  bool two = e->k[1] != nullptr;
  RV x = d(0); RV y = two ? d(1) : x;
  std::string n = e->op == Op::FAdd ? "fadd" : e->op == Op::FSub ? "fsub" : e->op == Op::FMul ? "fmul" : e->op == Op::FDiv ? "fdiv" : e->op == Op::FRem ? "frem" : fnName(e->fn);
  z3::expr r = two ? fR(n, 2, C->real_sort())(x.v, y.v) : fR(n, 1, C->real_sort())(x.v);
  z3::expr nn = two ? fR(n + "_nan", 2, C->bool_sort())(x.v, y.v) : fR(n + "_nan", 1, C->bool_sort())(x.v);
  z3::expr an = two ? (x.nan || y.nan).simplify() : x.nan;
  auto& ax = axR[e->id];
  z3::expr big = realOf(1.7976931348623157e308);
  auto fin = [&](z3::expr q) { return -big <= q && q <= big; };
  bool leaf = true;
  for (int i = 0; i < 2; i++) if (e->k[i] && e->k[i]->op != Op::FSym && e->k[i]->op != Op::FConst) leaf = false;
  const IV& iv = ival(e);
  if (!std::isinf(iv.lo)) ax.push_back(nn || r >= realOf(iv.lo));
  if (!std::isinf(iv.hi)) ax.push_back(nn || r <= realOf(iv.hi));
  if (!iv.nan) ax.push_back(!nn);
  if (e->op == Op::FAdd || e->op == Op::FSub) for (int i = 0; i < 2; i++) {   // a constant that is not negligible moves a value strictly
    if (!isFC(e->k[i]) || (e->op == Op::FSub && i == 0)) continue;
    double c = e->op == Op::FSub ? -e->k[i]->d() : e->k[i]->d(), lim = std::fabs(c) * 2251799813685248.0;   // 2^51
    if (!(c != 0) || std::isinf(lim)) continue;
    const z3::expr& q = i ? x.v : y.v;
    ax.push_back(z3::implies(-realOf(lim) <= q && q <= realOf(lim), c > 0 ? r > q : r < q));
  }
  z3::expr ok = leaf ? C->bool_val(true) : (two ? (fin(x.v) && fin(y.v)) : fin(x.v));
  switch (e->op) {
    case Op::FAdd:
      ax.push_back(z3::implies(ok, !nn));
      for (int i = 0; i < 2; i++) {
        z3::expr p = i ? x.v : y.v, q = i ? y.v : x.v;
        ax.push_back(z3::implies(ok && p >= 0, r >= q)); ax.push_back(z3::implies(ok && p <= 0, r <= q));
      }
      break;
    case Op::FSub:
      ax.push_back(z3::implies(ok, !nn));
      ax.push_back(z3::implies(ok && x.v < y.v, r < 0)); ax.push_back(z3::implies(ok && x.v > y.v, r > 0));
      ax.push_back(z3::implies(ok && x.v == y.v, r == 0));
      ax.push_back(z3::implies(ok && y.v >= 0, r <= x.v)); ax.push_back(z3::implies(ok && y.v <= 0, r >= x.v));
      break;
    case Op::FMul:
      ax.push_back(z3::implies(ok, !nn));
      ax.push_back(z3::implies((x.v >= 0 && y.v >= 0) || (x.v <= 0 && y.v <= 0), r >= 0));
      ax.push_back(z3::implies((x.v >= 0 && y.v <= 0) || (x.v <= 0 && y.v >= 0), r <= 0));
      break;
    case Op::FDiv:
      ax.push_back(z3::implies(ok && y.v != 0, !nn));
      ax.push_back(z3::implies(y.v != 0 && ((x.v >= 0 && y.v >= 0) || (x.v <= 0 && y.v <= 0)), r >= 0));
      ax.push_back(z3::implies(y.v != 0 && ((x.v >= 0 && y.v <= 0) || (x.v <= 0 && y.v >= 0)), r <= 0));
      break;
    default:
      switch (e->fn) {
        case Fn::Sqrt: ax.push_back(r >= 0); ax.push_back(z3::implies(x.v >= 0, !nn)); ax.push_back(z3::implies(x.v > 0, r > 0)); break;
        case Fn::Cosh: ax.push_back(r >= 1); ax.push_back(!nn); break;
        case Fn::Exp: ax.push_back(r >= 0); ax.push_back(!nn); break;
        case Fn::Sin: case Fn::Cos: ax.push_back(r >= -1 && r <= 1); ax.push_back(z3::implies(ok, !nn)); break;
        case Fn::Atan: ax.push_back(r >= realOf(-M_PI_2) && r <= realOf(M_PI_2));  // fallthrough
        case Fn::Sinh: case Fn::Asinh: case Fn::Tanh:
          ax.push_back(!nn); ax.push_back(z3::implies(x.v >= 0, r >= 0)); ax.push_back(z3::implies(x.v <= 0, r <= 0)); break;
        case Fn::Floor: ax.push_back(r <= x.v && x.v < r + 1); ax.push_back(!nn); break;
        case Fn::Ceil: ax.push_back(r >= x.v && r < x.v + 1); ax.push_back(!nn); break;
        default: break;
      }
  }
  return RV(r, (an || nn).simplify());
}
RV encD(Ref e) {
  if (memoD.size() <= e->id) { size_t n = gExprCount + gExprCount / 2 + 16; memoD.resize(n); }
  if (axR.size() <= e->id) axR.resize(gExprCount + gExprCount / 2 + 16);
  if (!memoD[e->id]) { RV r = encD0(e); memoD[e->id].reset(new RV(r)); }
  return *memoD[e->id];
}
void gatherAxR(Ref e, std::vector<char>& seen, z3::solver& s) {
  if (seen.size() < gExprCount) seen.resize(gExprCount, 0);
  if (seen[e->id]) return;
  seen[e->id] = 1;
  if (e->id < axR.size()) for (auto& a : axR[e->id]) s.add(a);
  for (int i = 0; i < 3; i++) if (e->k[i]) gatherAxR(e->k[i], seen, s);
}
void crossCheck(z3::solver& s) {
  if (!gCrossCheck) return;
  static int n = 0;
  std::string fn = "/tmp/sxq_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2";
  { std::ofstream o(fn); o << "(set-logic ALL)\n" << s.to_smt2(); }
  FILE* f = popen(("cvc5 --tlimit=10000 " + fn + " 2>&1").c_str(), "r");
  char buf[256]; std::string out;
  while (f && fgets(buf, 256, f)) out += buf;
  if (f) pclose(f);
  remove(fn.c_str());
  if (out.find("(error") != std::string::npos) gCrossUnknown++;
  else if (out.find("unsat") == 0) gCrossOk++;
  else if (out.find("sat") == 0) gCrossBad++;
  else gCrossUnknown++;
}
Res solveFPU(const std::vector<Ref>& conj, std::vector<uint64_t>* model, unsigned tmo) {
  z3::solver s(*C, z3::solver::simple());
  z3::params p(*C); p.set("timeout", tmo); p.set("random_seed", 1u); s.set(p);
  for (Ref c : conj) s.add(BR(c));
  std::vector<char> se2, syms, seen;
  for (Ref c : conj) { collectSyms(c, se2, syms); gatherAxR(c, seen, s); }
  syms.resize(gSyms.size(), 0);
  for (size_t i = 0; i < gSyms.size(); i++) if (syms[i] && gSyms[i].isD) {
    z3::expr x = encD(mkSym(i)).v; s.add(realOf(gSyms[i].lo) <= x); s.add(x <= realOf(gSyms[i].hi));
  }
  z3::check_result r;
  try { r = s.check(); } catch (z3::exception&) { return Res::UNKNOWN; }
  if (r == z3::unknown) return Res::UNKNOWN;
  if (r == z3::unsat) { crossCheck(s); return Res::UNSAT; }
  if (model) {
    z3::model m = s.get_model();
    model->assign(gSyms.size(), ~0ull - 12345);
    for (size_t i = 0; i < gSyms.size(); i++) if (syms[i]) {
      z3::expr v = m.eval(gSyms[i].isD ? encD(mkSym(i)).v : encI(mkSym(i)), true);
      if (gSyms[i].isD) {
        std::string t = Z3_get_numeral_string(*C, v); double a = 0, b = 1; size_t q = t.find('/');
        a = strtod(t.c_str(), nullptr); if (q != std::string::npos) b = strtod(t.c_str() + q + 1, nullptr);
        (*model)[i] = d2b(a / b);
      } else if (v.is_bool()) (*model)[i] = v.is_true();
      else (*model)[i] = v.get_numeral_uint64();
    }
  }
  return Res::SAT;
}
}  // namespace

void solverInit() {
  z3::set_param("model_evaluator.completion", true);
  C = new z3::context();
  realInit(C);
}

size_t gMaxDag = 0;   // queries over more terms than this are left undecided without being encoded (0: no bound)
static bool tooLarge(const std::vector<Ref>& conj) {
  if (!gMaxDag) return false;
  std::set<uint64_t> seen; std::vector<Ref> w(conj.begin(), conj.end());
  while (!w.empty()) {
    Ref e = w.back(); w.pop_back();
    if (!seen.insert(e->id).second) continue;
    if (seen.size() > gMaxDag) return true;
    for (int i = 0; i < 3; i++) if (e->k[i]) w.push_back(e->k[i]);
  }
  return false;
}
Res solveConj(const std::vector<Ref>& conjIn, std::vector<uint64_t>* model, unsigned tmo) {
  std::vector<Ref> conj;
  for (Ref c : conjIn) {
    if (isC(c)) { if (!c->ival) { gStats.structural++; return Res::UNSAT; } continue; }
    conj.push_back(c);
  }
  auto t0 = std::chrono::steady_clock::now();
  Res r = Res::UNKNOWN;
  if (tooLarge(conj)) { gStats.queries++; gStats.unknown++; return Res::UNKNOWN; }
  if (gMode == Mode::REAL) r = solveReal(conj, model, tmo);
  else if (gMode == Mode::FPU) r = solveFPU(conj, model, tmo);
  else r = solveFP(conj, model, tmo);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.queries++; gStats.seconds += dt; if (dt > gStats.maxSeconds) gStats.maxSeconds = dt;
  if (r == Res::UNSAT) gStats.unsat++; else if (r == Res::SAT) gStats.sat++; else gStats.unknown++;
  return r;
}
