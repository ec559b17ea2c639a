// REAL encoding.  Doubles are read as exact reals; libm functions as the mathematical functions, through
// a ring normal form over atoms (exp/sin/cos/sqrt/atan/...) plus their defining axioms, decided by Z3 (NRA).
#include <iostream>
#include "real.h"
#include <z3++.h>
#include <gmpxx.h>
#include <functional>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <cmath>
#include <cstdio>
#include <chrono>

namespace {
typedef mpq_class Q;
z3::context* C;

typedef std::vector<std::pair<int, int>> Mono;           // (atom, exponent>=1), sorted
typedef std::map<Mono, Q> Poly;
struct RF { Poly n; std::map<int, int> d; };             // numerator / product of interned factors
struct TooBig {};
std::chrono::steady_clock::time_point deadline; bool hasDeadline = false; unsigned tick = 0;
void checkTime() { if (hasDeadline && (++tick & 63) == 0 && std::chrono::steady_clock::now() > deadline) throw TooBig{}; }

enum AK { SYM, PI, SQRT, EXP, SIN, COS, ATAN, ASIN, ACOS, ASINH, ACOSH, ATAN2, LOG, POW, OPAQ, ITE };
struct Atom { AK k; std::string key; RF a, b; Poly rad; int sym = -1; int other = -1; Ref e = nullptr; bool pos = false, nonneg = false, num = false; double lo = 0, hi = 0; };
std::vector<Atom> atoms;
std::map<std::string, int> atomIx;
std::vector<Poly> factors; std::map<std::string, int> factorIx;
std::vector<std::unique_ptr<RF>> memo;
std::map<std::string, RF> sinhOf;                         // canonical sinh(u) -> u

Poly pc(const Q& q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
Poly pa(int a) { Poly p; p[Mono{{a, 1}}] = 1; return p; }
bool isConst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
Q constOf(const Poly& p) { return p.empty() ? Q(0) : p.begin()->second; }
void addTo(Poly& p, const Mono& m, const Q& c) {
  auto it = p.find(m);
  if (it == p.end()) { if (c != 0) p[m] = c; }
  else { it->second += c; if (it->second == 0) p.erase(it); }
}
Poly padd(const Poly& a, const Poly& b, int s = 1) { Poly r = a; for (auto& t : b) addTo(r, t.first, s > 0 ? t.second : Q(-t.second)); return r; }
Poly pscale(const Poly& a, const Q& q) { Poly r; if (q == 0) return r; for (auto& t : a) r[t.first] = t.second * q; return r; }
Mono mmul(const Mono& a, const Mono& b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  return r;
}
Poly pmul(const Poly& a, const Poly& b);
// rewrite sqrt(u)^2 -> u, sin^2 -> 1 - cos^2
Poly reduce(const Poly& p) {
  bool need = false;
  for (auto& t : p) for (auto& f : t.first) if (f.second >= 2 && (atoms[f.first].k == SQRT || atoms[f.first].k == SIN)) need = true;
  if (!need) return p;
  Poly r;
  for (auto& t : p) {
    Mono rest; Poly acc = pc(t.second); bool ch = false;
    for (auto& f : t.first) {
      auto& A = atoms[f.first];
      if (f.second >= 2 && (A.k == SQRT || A.k == SIN)) {
        Poly u = A.k == SQRT ? A.rad : Poly();
        if (A.k == SIN) { u = pc(1); u[Mono{{A.other, 2}}] = -1; }
        for (int i = 0; i < f.second / 2; i++) acc = pmul(acc, u);
        if (f.second & 1) rest.push_back({f.first, 1});
        ch = true;
      } else rest.push_back(f);
    }
    if (!ch) addTo(r, t.first, t.second);
    else { Poly m; m[rest] = 1; for (auto& x : pmul(acc, m)) addTo(r, x.first, x.second); }
    if (r.size() > 6000) throw TooBig();
  }
  return r;
}
Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  checkTime();
  if (a.size() * b.size() > 400000) throw TooBig();
  for (auto& x : a) for (auto& y : b) addTo(r, mmul(x.first, y.first), x.second * y.second);
  if (r.size() > 6000) throw TooBig();
  return reduce(r);
}
Poly ppow(const Poly& a, int n) { Poly r = pc(1); for (int i = 0; i < n; i++) r = pmul(r, a); return r; }

std::string pstr(const Poly& p) {
  std::string s;
  for (auto& t : p) { s += t.second.get_str(); for (auto& f : t.first) s += "*" + std::to_string(f.first) + "^" + std::to_string(f.second); s += "+"; }
  return s;
}
std::string rstr(const RF& r) { std::string s = pstr(r.n) + "/"; for (auto& f : r.d) s += std::to_string(f.first) + "^" + std::to_string(f.second) + ","; return s; }

// exact multivariate division by a polynomial without reducible atoms in it (otherwise refuse)
bool divMono(const Mono& a, const Mono& b, Mono& r) {
  r.clear(); size_t j = 0;
  for (auto& f : a) {
    int e = f.second;
    if (j < b.size() && b[j].first < f.first) return false;
    if (j < b.size() && b[j].first == f.first) { e -= b[j].second; j++; if (e < 0) return false; }
    if (e) r.push_back({f.first, e});
  }
  return j == b.size();
}
// lexicographic order: smaller atom index more significant, exponent larger first
bool lexGreater(const Mono& a, const Mono& b) {
  size_t i = 0;
  for (;; i++) {
    if (i >= a.size()) return false;
    if (i >= b.size()) return true;
    if (a[i].first != b[i].first) return a[i].first < b[i].first;
    if (a[i].second != b[i].second) return a[i].second > b[i].second;
  }
}
const Mono* leadMono(const Poly& p) { const Mono* m = nullptr; for (auto& t : p) if (!m || lexGreater(t.first, *m)) m = &t.first; return m; }
bool pdiv(const Poly& a, const Poly& b, Poly& q) {
  if (a.empty()) { q.clear(); return true; }
  if (isConst(b)) { q = pscale(a, Q(1) / constOf(b)); return true; }
  if (b.size() == 1) {
    q.clear(); Mono r;
    for (auto& t : a) { if (!divMono(t.first, b.begin()->first, r)) return false; q[r] = t.second / b.begin()->second; }
    return true;
  }
  Poly r = a; q.clear();
  Mono lb = *leadMono(b); Q cb = b.at(lb);
  int guard = 0;
  while (!r.empty()) {
    if (++guard > 3000) return false;
    checkTime();
    Mono la = *leadMono(r); Q ca = r.at(la);
    Mono m; if (!divMono(la, lb, m)) return false;
    Q c = ca / cb; addTo(q, m, c);
    for (auto& t : b) addTo(r, mmul(m, t.first), -c * t.second);
  }
  return true;
}
int internFactor(const Poly& p) {       // p is normalised (leading coefficient 1)
  std::string s = pstr(p);
  auto it = factorIx.find(s); if (it != factorIx.end()) return it->second;
  factors.push_back(p); return factorIx[s] = factors.size() - 1;
}
// sign knowledge: 2 = positive, 1 = nonnegative, 0 = unknown, -1 nonpositive, -2 negative
int signAtom(int a) { return atoms[a].pos ? 2 : atoms[a].nonneg ? 1 : 0; }
// sign by interval arithmetic over the ranges of the input symbols, per monomial of the other atoms
bool gTrig = false;   // second pass: sine and cosine atoms also are ranges
bool trigArg(int a);
bool isSym(int a) { return atoms[a].k == SYM || atoms[a].num || (gTrig && (atoms[a].k == SIN || atoms[a].k == COS) && trigArg(a)); }
std::pair<double, double> rangeOf(int a) {
  if (atoms[a].k == SYM) { auto& S = gSyms[atoms[a].sym]; return {S.lo, S.hi}; }
  return {atoms[a].lo, atoms[a].hi};
}
typedef std::map<int, std::pair<double, double>> Box;
void boxEval(const Poly& p, const Box& box, double& lo, double& hi);
// sine or cosine of an angle that is a polynomial in input symbols and numbers: the box holds those
bool trigArg(int a) {
  if (!atoms[a].a.d.empty()) return false;
  for (auto& t : atoms[a].a.n) for (auto& f : t.first) if (atoms[f.first].k != SYM && !atoms[f.first].num) return false;
  return true;
}
std::pair<double, double> trigRange(int a, const Box& box) {
  double lo, hi; boxEval(atoms[a].a.n, box, lo, hi);
  if (!(hi - lo < 6)) return {-1, 1};
  double off = atoms[a].k == COS ? M_PI / 2 : 0; lo += off; hi += off;
  double x = std::sin(lo), y = std::sin(hi); if (x > y) std::swap(x, y);
  double q = std::ceil((lo - 1e-9 - M_PI / 2) / (2 * M_PI)) * 2 * M_PI + M_PI / 2; if (q <= hi + 1e-9) y = 1;
  q = std::ceil((lo - 1e-9 + M_PI / 2) / (2 * M_PI)) * 2 * M_PI - M_PI / 2; if (q <= hi + 1e-9) x = -1;
  return {std::max(-1.0, x - 1e-12), std::min(1.0, y + 1e-12)};
}
bool isTrig(int a) { return !atoms[a].num && (atoms[a].k == SIN || atoms[a].k == COS); }
void boxAdd(int a, Box& box) {
  if (isTrig(a)) { for (auto& t : atoms[a].a.n) for (auto& f : t.first) box[f.first] = rangeOf(f.first); }
  else box[a] = rangeOf(a);
}
void boxEval(const Poly& p, const std::map<int, std::pair<double, double>>& box, double& lo, double& hi) {
  lo = hi = 0; double mag = 0;
  for (auto& t : p) {
    double l = t.second.get_d(), h = l;
    for (auto& f : t.first) {
      auto b = isTrig(f.first) ? trigRange(f.first, box) : box.at(f.first); double pl, ph;
      if (f.second % 2 == 0 && b.first < 0 && b.second > 0) { pl = 0; ph = std::pow(std::max(-b.first, b.second), f.second); }
      else { pl = std::pow(b.first, f.second); ph = std::pow(b.second, f.second); if (pl > ph) std::swap(pl, ph); }
      double v[4] = {l * pl, l * ph, h * pl, h * ph}; l = *std::min_element(v, v + 4); h = *std::max_element(v, v + 4);
    }
    lo += l; hi += h; mag += std::max(std::abs(l), std::abs(h));
  }
  lo -= 1e-13 * mag; hi += 1e-13 * mag;
}
int boxSign(const Poly& p, std::map<int, std::pair<double, double>>& box, int depth) {   // 2 positive, -2 negative, 0 unknown
  double lo, hi; boxEval(p, box, lo, hi);
  if (lo > 0) return 2;
  if (hi < 0) return -2;
  if (!depth || !std::isfinite(lo) || !std::isfinite(hi)) return 0;
  int w = -1; double best = 0;   // split the variable whose halves help most
  for (auto& b : box) {
    auto keep = b.second; double m = (keep.first + keep.second) / 2, l1, h1, l2, h2;
    b.second = {keep.first, m}; boxEval(p, box, l1, h1); b.second = {m, keep.second}; boxEval(p, box, l2, h2); b.second = keep;
    double gain = (hi - lo) - std::max(h1 - l1, h2 - l2); if (gain > best) { best = gain; w = b.first; }
  }
  if (w < 0) return 0;
  auto keep = box[w]; double m = (keep.first + keep.second) / 2;
  box[w] = {keep.first, m}; int a = boxSign(p, box, depth - 1);
  if (a) { box[w] = {m, keep.second}; int b = boxSign(p, box, depth - 1); if (b != a) a = 0; }
  box[w] = keep; return a;
}
int signByRange1(const Poly& p) {
  if (p.size() > 60) return 0;
  std::map<Mono, Poly> groups;
  for (auto& t : p) { Mono o, in; for (auto& f : t.first) (isSym(f.first) ? in : o).push_back(f); groups[o][in] = t.second; }
  int sign = 0; bool strict = false;
  for (auto& g : groups) {
    int so = 2;
    for (auto& f : g.first) { int sa = signAtom(f.first); if (f.second % 2 == 0) sa = sa == 2 ? 2 : 1; if (sa == 0) return 0; if (sa == 1) so = 1; }
    // common monomial of the group
    std::map<int, int> common; bool first = true;
    for (auto& t : g.second) {
      std::map<int, int> m; for (auto& f : t.first) m[f.first] = f.second;
      if (first) { common = m; first = false; }
      else for (auto it = common.begin(); it != common.end();) { auto k = m.find(it->first); if (k == m.end()) it = common.erase(it); else { it->second = std::min(it->second, k->second); ++it; } }
    }
    for (auto& c : common) { int sa = signAtom(c.first); if (c.second % 2 == 0) sa = sa == 2 ? 2 : 1; if (sa == 0) return 0; if (sa == 1) so = 1; }
    Poly rest; std::map<int, std::pair<double, double>> box;
    for (auto& t : g.second) {
      Mono m; for (auto& f : t.first) { auto c = common.find(f.first); int e = f.second - (c == common.end() ? 0 : c->second); if (e) { m.push_back({f.first, e}); boxAdd(f.first, box); } }
      rest[m] = t.second;
    }
    int wide = 0; for (auto& b : box) if (!(b.second.second - b.second.first <= 1e-9 * (1 + std::abs(b.second.first)))) wide++;
    if (wide > 4 || box.size() > 16) return 0;
    int s = boxSign(rest, box, gTrig ? 12 : 6);
    if (s == 0 || (sign && sign != s)) return 0;
    sign = s; if (so == 2) strict = true;
  }
  return strict ? sign : sign / 2;
}
int signByRange(const Poly& p) {
  int s = signByRange1(p);
  if (!s) { bool any = false; for (auto& t : p) for (auto& f : t.first) any |= !atoms[f.first].num && (atoms[f.first].k == SIN || atoms[f.first].k == COS);
    if (any && p.size() > 1) { gTrig = true; s = signByRange1(p); gTrig = false; } }
  return s;
}
int signPoly0(const Poly& p) {
  if (p.empty()) return 1;
  bool allp = true, alln = true, strict = false;
  for (auto& t : p) {
    int s = 2;
    for (auto& f : t.first) { int sa = signAtom(f.first); if (f.second % 2 == 0) sa = sa == 2 ? 2 : 1; if (sa == 0) { s = 0; break; } if (sa == 1) s = 1; }
    if (s == 0) return signByRange(p);
    if (t.second > 0) alln = false; else allp = false;
    if (s == 2) strict = true;
  }
  if (allp) return strict ? 2 : 1;
  if (alln) return strict ? -2 : -1;
  return signByRange(p);
}
std::map<Poly, int> signMemo;
int signPoly(const Poly& p) {
  if (p.size() <= 1) return signPoly0(p);
  auto it = signMemo.find(p); if (it != signMemo.end()) return it->second;
  int s = signPoly0(p); signMemo[p] = s; return s;
}
bool posFactor(int f) { return signPoly(factors[f]) == 2; }
int signRF(const RF& r) {   // denominators are not zero
  int s = signPoly(r.n);
  for (auto& f : r.d) { int t = signPoly(factors[f.first]); if (f.second % 2 == 0) continue; if (t == 2 || t == 1) continue; if (t == -2 || t == -1) s = -s; else return 0; }
  return s;
}

void cancel(RF& r) {
  if (r.n.empty()) { r.d.clear(); return; }
  for (auto it = r.d.begin(); it != r.d.end();) {
    Poly q;
    while (it->second > 0 && r.n.size() < 400 && pdiv(r.n, factors[it->first], q)) { r.n = q; it->second--; }
    if (it->second == 0) it = r.d.erase(it); else ++it;
  }
}
RF rpoly(const Poly& p) { RF r; r.n = p; return r; }
RF rq(const Q& q) { return rpoly(pc(q)); }
RF radd(const RF& a, const RF& b, int s = 1) {
  if (a.n.empty()) { RF r = b; if (s < 0) r.n = pscale(r.n, -1); return r; }
  if (b.n.empty()) return a;
  RF r; Poly na = a.n, nb = b.n;
  r.d = a.d;
  for (auto& f : b.d) { int& e = r.d[f.first]; if (f.second > e) { na = pmul(na, ppow(factors[f.first], f.second - e)); e = f.second; } }
  for (auto& f : r.d) { auto it = b.d.find(f.first); int eb = it == b.d.end() ? 0 : it->second; if (f.second > eb) nb = pmul(nb, ppow(factors[f.first], f.second - eb)); }
  r.n = padd(na, nb, s); cancel(r); return r;
}
RF rmul(const RF& a, const RF& b) {
  RF r; RF x = a, y = b;
  for (auto it = y.d.begin(); it != y.d.end();) { Poly q; while (it->second > 0 && pdiv(x.n, factors[it->first], q)) { x.n = q; it->second--; } if (!it->second) it = y.d.erase(it); else ++it; }
  for (auto it = x.d.begin(); it != x.d.end();) { Poly q; while (it->second > 0 && pdiv(y.n, factors[it->first], q)) { y.n = q; it->second--; } if (!it->second) it = x.d.erase(it); else ++it; }
  r.n = pmul(x.n, y.n); r.d = x.d; for (auto& f : y.d) r.d[f.first] += f.second;
  cancel(r); return r;
}
RF rinv(const RF& a) {
  // split numerator into monomial content and a normalised rest
  RF r; r.n = pc(1); for (auto& f : a.d) r.n = pmul(r.n, ppow(factors[f.first], f.second));
  Poly n = a.n; if (n.empty()) { n = pc(0); throw TooBig(); }
  std::map<int, int> g; bool first = true;
  for (auto& t : n) { std::map<int, int> h; for (auto& f : t.first) h[f.first] = f.second;
    if (first) { g = h; first = false; } else for (auto it = g.begin(); it != g.end();) { auto j = h.find(it->first); if (j == h.end()) it = g.erase(it); else { it->second = std::min(it->second, j->second); ++it; } } }
  Mono gm(g.begin(), g.end());
  Poly rest; for (auto& t : n) { Mono m; divMono(t.first, gm, m); rest[m] = t.second; }
  // try to split known factors out of the rest
  Q lc = rest.at(*leadMono(rest)); rest = pscale(rest, Q(1) / lc); r.n = pscale(r.n, Q(1) / lc);
  if (!isConst(rest)) {
    for (size_t i = 0; i < factors.size() && rest.size() > 1 && i < 200; i++) if (factors[i].size() > 1) { Poly q; while (rest.size() > 1 && pdiv(rest, factors[i], q)) { rest = q; r.d[i]++; if (isConst(rest)) break; } }
    if (!isConst(rest)) { Q l2 = rest.at(*leadMono(rest)); rest = pscale(rest, Q(1) / l2); r.n = pscale(r.n, Q(1) / l2); r.d[internFactor(rest)]++; }
    else r.n = pscale(r.n, Q(1) / constOf(rest));
  }
  for (auto& f : g) {
    r.d[internFactor(pa(f.first))] += f.second;
  }
  cancel(r); return r;
}
RF rneg(const RF& a) { RF r = a; r.n = pscale(r.n, -1); return r; }

// numeric enclosures of atoms whose arguments are numbers (pi, constants and functions of them)
bool numPoly(const Poly& p, double& lo, double& hi) {
  std::map<int, std::pair<double, double>> box;
  for (auto& t : p) for (auto& f : t.first) { if (!atoms[f.first].num) return false; box[f.first] = rangeOf(f.first); }
  boxEval(p, box, lo, hi); return std::isfinite(lo) && std::isfinite(hi);
}
bool numRF(const RF& r, double& lo, double& hi) {
  if (!numPoly(r.n, lo, hi)) return false;
  for (auto& f : r.d) for (int i = 0; i < f.second; i++) {
    double l, h; if (!numPoly(factors[f.first], l, h) || (l <= 0 && h >= 0)) return false;
    double v[4] = {lo / l, lo / h, hi / l, hi / h}; lo = *std::min_element(v, v + 4); hi = *std::max_element(v, v + 4);
  }
  return true;
}
void enclose(Atom& A) {
  double l, h, l2 = 0, h2 = 0; auto set = [&](double x, double y) { if (!std::isfinite(x) || !std::isfinite(y)) return; if (x > y) std::swap(x, y); if (y - x > 1e-9 * (1 + std::abs(x))) return; A.num = true; A.lo = x - 1e-13 - 1e-13 * std::abs(x); A.hi = y + 1e-13 + 1e-13 * std::abs(y); if (A.lo > 0) A.pos = true; };
  if (A.k == PI) { A.num = true; A.lo = M_PI * (1 - 1e-15); A.hi = M_PI * (1 + 1e-15); return; }
  if (A.k == SQRT) { if (numPoly(A.rad, l, h) && l >= 0) set(std::sqrt(l), std::sqrt(h)); return; }
  if (A.k == SYM || A.k == OPAQ || A.k == ITE) return;
  if (!numRF(A.a, l, h)) return;
  if ((A.k == ATAN2 || A.k == POW) && !numRF(A.b, l2, h2)) return;
  double w = (h - l) + 1e-300;
  switch (A.k) {
    case SIN: set(std::sin(l) - w, std::sin(l) + w); break;
    case COS: set(std::cos(l) - w, std::cos(l) + w); break;
    case EXP: set(std::exp(l), std::exp(h)); break;
    case ATAN: set(std::atan(l), std::atan(h)); break;
    case ASINH: set(std::asinh(l), std::asinh(h)); break;
    case ASIN: if (l > -1 && h < 1) set(std::asin(l), std::asin(h)); break;
    case ACOS: if (l > -1 && h < 1) set(std::acos(l), std::acos(h)); break;
    case ACOSH: if (l >= 1) set(std::acosh(l), std::acosh(h)); break;
    case LOG: if (l > 0) set(std::log(l), std::log(h)); break;
    case POW: if (l > 0) { double v[4] = {std::pow(l, l2), std::pow(l, h2), std::pow(h, l2), std::pow(h, h2)}; set(*std::min_element(v, v + 4), *std::max_element(v, v + 4)); } break;
    case ATAN2: if (l > 0 || h < 0 || l2 > 0) { double v[4] = {std::atan2(l, l2), std::atan2(l, h2), std::atan2(h, l2), std::atan2(h, h2)}; set(*std::min_element(v, v + 4), *std::max_element(v, v + 4)); } break;
    default: break;
  }
}
int atom(AK k, const std::string& key, std::function<void(Atom&)> init) {
  std::string kk = std::to_string((int)k) + ":" + key;
  auto it = atomIx.find(kk); if (it != atomIx.end()) return it->second;
  Atom A; A.k = k; A.key = kk; init(A); enclose(A);
  atoms.push_back(A); return atomIx[kk] = atoms.size() - 1;
}
int piAtom() { return atom(PI, "", [](Atom& a) { a.pos = true; }); }

// integer square root of a rational if perfect
bool qsqrt(const Q& q, Q& r) {
  if (q < 0) return false;
  mpz_class n = q.get_num(), d = q.get_den(), sn, sd;
  if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
  mpz_sqrt(sn.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(sd.get_mpz_t(), d.get_mpz_t()); r = Q(sn, sd); r.canonicalize(); return true;
}
// polynomial square root (exact) by leading terms
bool psqrt(const Poly& p, Poly& s) {
  if (p.empty()) { s.clear(); return true; }
  for (auto& t : p) for (auto& f : t.first) if (atoms[f.first].k == SQRT || atoms[f.first].k == SIN) return false;
  Mono lm = *leadMono(p); Q lc; if (!qsqrt(p.at(lm), lc)) return false;
  Mono h; for (auto& f : lm) { if (f.second & 1) return false; h.push_back({f.first, f.second / 2}); }
  s.clear(); s[h] = lc;
  Poly r = padd(p, pmul(s, s), -1);
  int guard = 0;
  while (!r.empty()) {
    if (++guard > 60) return false;
    Mono la = *leadMono(r), m; if (!divMono(la, h, m)) return false;
    Q c = r.at(la) / (2 * lc);
    if (s.count(m)) return false;
    s[m] = c;
    r = padd(p, pmul(s, s), -1);
  }
  return true;
}
RF rabs(const RF& x);
RF oddAtom(AK k, RF v);
RF sqrtPoly(Poly p) {                     // sqrt of a polynomial, p >= 0 assumed
  if (p.empty()) return rq(0);
  Poly s; if (psqrt(p, s)) { int sg = signPoly(s); if (sg >= 1) return rpoly(s); if (sg <= -1) return rpoly(pscale(s, -1));
    Q lc = s.at(*leadMono(s)); if (lc < 0) s = pscale(s, -1);
    if (p == pmul(s, s)) { /* keep |s| as sqrt(s^2) atom below, canonical radicand */ } }
  // pull out even powers of known-sign atoms and rational square content
  RF out = rq(1);
  std::map<int, int> g; bool first = true;
  for (auto& t : p) { std::map<int, int> h; for (auto& f : t.first) h[f.first] = f.second;
    if (first) { g = h; first = false; } else for (auto it = g.begin(); it != g.end();) { auto j = h.find(it->first); if (j == h.end()) it = g.erase(it); else { it->second = std::min(it->second, j->second); ++it; } } }
  Mono gm; for (auto& f : g) { int e = f.second / 2; if (e && (signAtom(f.first) >= 1)) { gm.push_back({f.first, 2 * e}); Poly m; m[Mono{{f.first, e}}] = 1; out = rmul(out, rpoly(m)); } }
  Poly rest; for (auto& t : p) { Mono m; divMono(t.first, gm, m); rest[m] = t.second; }
  Q lc = rest.at(*leadMono(rest)); if (lc < 0) lc = -lc;
  // write lc = s^2 * k with the square part moved out
  mpz_class n = lc.get_num() * lc.get_den(), d = lc.get_den();   // sqrt(num/den) = sqrt(num*den)/den
  mpz_class sq = 1;
  for (unsigned long pr : {2ul, 3ul, 5ul, 7ul, 11ul, 13ul}) { mpz_class p2 = pr * pr; while (mpz_divisible_p(n.get_mpz_t(), p2.get_mpz_t())) { n /= p2; sq *= pr; } }
  if (mpz_perfect_square_p(n.get_mpz_t())) { mpz_class r; mpz_sqrt(r.get_mpz_t(), n.get_mpz_t()); sq *= r; n = 1; }
  Q outc(sq, d); outc.canonicalize();
  rest = pscale(rest, Q(n) / lc);
  out.n = pscale(out.n, outc);
  if (isConst(rest)) { Q r; if (qsqrt(constOf(rest), r)) { out.n = pscale(out.n, r); return out; } }
  int sg = signPoly(rest);
  int a = atom(SQRT, pstr(rest), [&](Atom& A) { A.rad = rest; A.nonneg = true; A.pos = sg == 2; });
  return rmul(out, rpoly(pa(a)));
}
RF rsqrt(const RF& x) {
  Poly n = x.n; RF den = rq(1);
  for (auto& f : x.d) {
    int e = f.second; if (e & 1) { n = pmul(n, factors[f.first]); e++; }
    RF h = rpoly(ppow(factors[f.first], e / 2));
    if ((e / 2) % 2 && !posFactor(f.first)) h = rabs(h);
    den = rmul(den, h);
  }
  return rmul(sqrtPoly(n), rinv(den));
}
RF rabs(const RF& x) {
  RF y = x;
  int s = signRF(y);
  if (s >= 1) return x;
  if (s <= -1) return rneg(x);
  // |c atan(v)| = |c| atan(|v|), likewise for the other odd increasing functions
  if (y.d.empty() && y.n.size() == 1) {
    auto& t = *y.n.begin();
    if (t.first.size() == 1 && t.first[0].second == 1) {
      AK k = atoms[t.first[0].first].k;
      if (k == ATAN || k == ASINH || k == ASIN) { RF v = atoms[t.first[0].first].a; Q c = abs(t.second); RF r = oddAtom(k, rabs(v)); r.n = pscale(r.n, c); return r; }
    }
  }
  // |n/d| = sqrt(n^2)/sqrt(d^2)
  Poly n2 = pmul(y.n, y.n);
  RF num; { Q lc = y.n.at(*leadMono(y.n)); Poly m = lc < 0 ? pscale(y.n, -1) : y.n; Q alc = abs(lc); m = pscale(m, Q(1) / alc); Poly r2 = pmul(m, m);
    int a = atom(SQRT, pstr(r2), [&](Atom& A) { A.rad = r2; A.nonneg = true; }); atoms[a].b = rpoly(m); num = rpoly(pscale(pa(a), alc)); }
  RF den = rq(1);
  for (auto& f : y.d) {
    Poly fp = ppow(factors[f.first], f.second);
    if ((f.second & 1) && !posFactor(f.first)) {
      Poly r2 = pmul(factors[f.first], factors[f.first]);
      int a = atom(SQRT, pstr(r2), [&](Atom& A) { A.rad = r2; A.nonneg = true; }); atoms[a].b = rpoly(factors[f.first]);
      den = rmul(den, rmul(rpoly(ppow(factors[f.first], f.second - 1)), rpoly(pa(a))));
    } else den = rmul(den, rpoly(fp));
  }
  return rmul(num, rinv(den));
}

struct Term { Q c; RF unit; std::string key; const Mono* m; };
// decompose r into sum of c_i * unit_i
std::vector<std::pair<Q, RF>> terms(const RF& r) {
  std::vector<std::pair<Q, RF>> v;
  for (auto& t : r.n) { RF u; u.n[t.first] = 1; u.d = r.d; cancel(u); v.push_back({t.second, u}); }
  return v;
}
bool singleAtom(const RF& u, int& a) { if (!u.d.empty() || u.n.size() != 1) return false; auto& m = u.n.begin()->first; if (m.size() != 1 || m[0].second != 1) return false; a = m[0].first; return true; }
bool isInt(const Q& q) { return q.get_den() == 1 && abs(q) <= 12; }
std::map<std::string, Q> baseE, baseT;

RF rpowi(const RF& a, int n) { if (n < 0) return rinv(rpowi(a, -n)); RF r = rq(1); for (int i = 0; i < n; i++) r = rmul(r, a); return r; }

RF rexp(const RF& x) {
  RF out = rq(1);
  for (auto& t : terms(x)) {
    int a;
    if (singleAtom(t.second, a) && isInt(t.first)) {
      int k = t.first.get_num().get_si();
      if (atoms[a].k == ASINH) { RF v = atoms[a].a; RF b = radd(v, rsqrt(radd(rmul(v, v), rq(1))));
        RF bi = radd(rsqrt(radd(rmul(v, v), rq(1))), v, -1);
        out = rmul(out, rpowi(k > 0 ? b : bi, std::abs(k))); continue; }
      if (atoms[a].k == LOG) { out = rmul(out, rpowi(atoms[a].a, k)); continue; }
    }
    std::string key = rstr(t.second);
    Q ac = abs(t.first);
    auto it = baseE.find(key);
    Q base;
    if (it == baseE.end()) base = baseE[key] = ac; else { base = it->second; }
    Q ratio = t.first / base;
    if (!isInt(ratio)) { base = ac; key += "@" + ac.get_str(); ratio = t.first / base; }
    RF arg = t.second; arg.n = pscale(arg.n, base);
    int e = atom(EXP, rstr(arg), [&](Atom& A) { A.a = arg; A.pos = true; });
    out = rmul(out, rpowi(rpoly(pa(e)), ratio.get_num().get_si()));
  }
  return out;
}
struct CS { RF c, s; };
CS cmulCS(const CS& a, const CS& b) { return {radd(rmul(a.c, b.c), rmul(a.s, b.s), -1), radd(rmul(a.s, b.c), rmul(a.c, b.s))}; }
CS cpow(CS a, int k) {
  if (k < 0) { a.s = rneg(a.s); k = -k; }
  CS r{rq(1), rq(0)}; for (int i = 0; i < k; i++) r = cmulCS(r, a); return r;
}
CS rtrig(const RF& x) {
  CS out{rq(1), rq(0)};
  for (auto& t : terms(x)) {
    int a;
    if (singleAtom(t.second, a)) {
      auto k = atoms[a].k;
      if (k == PI) {
        Q c2 = t.first * 2;
        if (c2.get_den() == 1) { mpz_class z = c2.get_num(); long m = mpz_fdiv_ui(z.get_mpz_t(), 4); CS q{rq(m == 0 ? 1 : m == 2 ? -1 : 0), rq(m == 1 ? 1 : m == 3 ? -1 : 0)}; out = cmulCS(out, q); continue; }
        Q c12 = t.first * 12;            // multiples of 15 degrees have exact values
        if (c12.get_den() == 1) {
          mpz_class z = c12.get_num(); long m = mpz_fdiv_ui(z.get_mpz_t(), 24);
          auto cs = [&](long d) { d = ((d % 24) + 24) % 24; if (d > 12) d = 24 - d; bool ng = d > 6; if (ng) d = 12 - d;
            RF v = d == 0 ? rq(1) : d == 2 ? rsqrt(rq(Q(3) / 4)) : d == 3 ? rsqrt(rq(Q(1) / 2)) : d == 4 ? rq(Q(1) / 2) : rq(0); return ng ? rneg(v) : v; };
          if (m % 2 && m % 3) { out = cmulCS(out, CS{cs(3), cs(3 - 6)}); m -= 3; }   // 15 = 45 - 30 and so on
          out = cmulCS(out, CS{cs(m), cs(m - 6)}); continue;
        }
      }
      if (isInt(t.first) && (k == ATAN || k == ASIN || k == ACOS || k == ATAN2)) {
        CS b; RF v = atoms[a].a;
        if (k == ATAN) { RF r = rinv(rsqrt(radd(rq(1), rmul(v, v)))); b = {r, rmul(v, r)}; }
        else if (k == ASIN) b = {rsqrt(radd(rq(1), rmul(v, v), -1)), v};
        else if (k == ACOS) b = {v, rsqrt(radd(rq(1), rmul(v, v), -1))};
        else { RF y = atoms[a].a, xx = atoms[a].b; RF r = rinv(rsqrt(radd(rmul(y, y), rmul(xx, xx)))); b = {rmul(xx, r), rmul(y, r)}; }
        out = cmulCS(out, cpow(b, t.first.get_num().get_si())); continue;
      }
    }
    std::string key = rstr(t.second);
    Q ac = abs(t.first); auto it = baseT.find(key); Q base;
    if (it == baseT.end()) base = baseT[key] = ac; else base = it->second;
    Q ratio = t.first / base;
    if (!isInt(ratio)) { base = ac; ratio = t.first / base; }
    RF arg = t.second; arg.n = pscale(arg.n, base);
    std::string ak = rstr(arg);
    int c = atom(COS, ak, [&](Atom& A) { A.a = arg; });
    int s = atom(SIN, ak, [&](Atom& A) { A.a = arg; A.other = c; });
    atoms[c].other = s;
    out = cmulCS(out, cpow(CS{rpoly(pa(c)), rpoly(pa(s))}, ratio.get_num().get_si()));
  }
  return out;
}
bool leadNeg(const RF& v) { return !v.n.empty() && v.n.at(*leadMono(v.n)) < 0; }
RF oddAtom(AK k, RF v) {
  if (v.n.empty()) return rq(0);
  bool neg = leadNeg(v); if (neg) v = rneg(v);
  int s = signRF(v);
  int a = atom(k, rstr(v), [&](Atom& A) { A.a = v; A.pos = s == 2; A.nonneg = s >= 1; });
  RF r = rpoly(pa(a)); return neg ? rneg(r) : r;
}
Q qOfDouble(double d) {
  char b[64];
  // decimal constant meant by the double: the shortest with up to 15 digits within two roundings, else the shortest that gives the double
  for (int p = 1; p <= 17; p++) { snprintf(b, 64, "%.*e", p - 1, d); double r = strtod(b, nullptr); if (r == d || (p <= 15 && std::abs(r - d) <= 4.4e-16 * std::abs(d))) break; }
  // b = [-]d.ddde[+-]xx
  std::string s = b; size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1); std::string m = s.substr(0, e); bool neg = false;
  if (m[0] == '-') { neg = true; m = m.substr(1); }
  size_t dot = m.find('.'); if (dot != std::string::npos) { ex -= m.size() - dot - 1; m.erase(dot, 1); }
  mpz_class z(m), p; mpz_ui_pow_ui(p.get_mpz_t(), 10, std::abs(ex));
  Q q = ex >= 0 ? Q(z * p) : Q(z, p); q.canonicalize(); return neg ? Q(-q) : q;
}
const RF& conv(Ref e);
RF conv0(Ref e) {
  switch (e->op) {
    case Op::FConst: {
      double d = e->d();
      if (!std::isfinite(d)) { int a = atom(OPAQ, "inf" + std::to_string(e->id), [&](Atom&) {}); return rpoly(pa(a)); }
      if (d == 3.14159265358979 || d == M_PI) return rpoly(pa(piAtom()));
      if (d == -3.14159265358979 || d == -M_PI) return rneg(rpoly(pa(piAtom())));
      // folded multiples of pi and 1/pi (degree/radian factors)
      if (d != 0 && fabs(d) < 1e4 && fabs(d) > 1e-5) {
        static const int ks[] = {1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 20, 24, 30, 36, 45, 60, 72, 90, 120, 144, 180, 182, 183, 270, 360, 365, 366, 720};
        double x = fabs(d);
        for (int den : ks) for (int num : ks) for (double pi : {3.14159265358979, M_PI}) {
          if (std::min(num, den) > 6) continue;
          double v1 = pi * num / den, v2 = (double)num / den / pi;
          if (fabs(x - v1) <= 3e-16 * v1) { RF r = rpoly(pscale(pa(piAtom()), Q(num, den))); for (auto& t : r.n) t.second.canonicalize(); return d < 0 ? rneg(r) : r; }
          if (fabs(x - v2) <= 3e-16 * v2) { Q q(num, den); q.canonicalize(); RF r = rmul(rq(q), rinv(rpoly(pa(piAtom())))); return d < 0 ? rneg(r) : r; }
        }
      }
      return rq(qOfDouble(d));
    }
    case Op::FSym: { auto& S = gSyms[e->ival]; int a = atom(SYM, std::to_string(e->ival), [&](Atom& A) { A.sym = e->ival; A.pos = S.lo > 0; A.nonneg = S.lo >= 0; }); return rpoly(pa(a)); }
    case Op::FAdd: return radd(conv(e->k[0]), conv(e->k[1]));
    case Op::FSub: return radd(conv(e->k[0]), conv(e->k[1]), -1);
    case Op::FMul: return rmul(conv(e->k[0]), conv(e->k[1]));
    case Op::FDiv: { const RF& b = conv(e->k[1]); if (b.n.empty()) break; return rmul(conv(e->k[0]), rinv(b)); }
    case Op::FNeg: return rneg(conv(e->k[0]));
    case Op::FAbs: { const RF& a = conv(e->k[0]); if (a.n.empty()) return a; return rabs(a); }
    case Op::FIte: {
      // condition known from the ranges, or same value on both sides?
      if (e->k[0]->op == Op::FLt || e->k[0]->op == Op::FLe) {
        int s = signRF(radd(conv(e->k[0]->k[0]), conv(e->k[0]->k[1]), -1));
        if (s == 2) return conv(e->k[2]);
        if (s == -2) return conv(e->k[1]);
      }
      if (rstr(conv(e->k[1])) == rstr(conv(e->k[2]))) return conv(e->k[1]);
      int a = atom(ITE, std::to_string(e->id), [&](Atom& A) { A.e = e; A.a = conv(e->k[1]); A.b = conv(e->k[2]); }); return rpoly(pa(a)); }
    case Op::Fun1: {
      RF x = conv(e->k[0]);
      switch (e->fn) {
        case Fn::Sqrt: return rsqrt(x);
        case Fn::Exp: return rexp(x);
        case Fn::Sinh: { RF E = rexp(x), F = rexp(rneg(x)); RF r = rmul(radd(E, F, -1), rq(Q(1, 2))); sinhOf[rstr(r)] = x; sinhOf[rstr(rneg(r))] = rneg(x); return r; }
        case Fn::Cosh: { RF E = rexp(x), F = rexp(rneg(x)); return rmul(radd(E, F), rq(Q(1, 2))); }
        case Fn::Tanh: { RF E = rexp(x), F = rexp(rneg(x)); return rmul(radd(E, F, -1), rinv(radd(E, F))); }
        case Fn::Asinh: { auto it = sinhOf.find(rstr(x)); if (it != sinhOf.end()) return it->second; return oddAtom(ASINH, x); }
        case Fn::Sin: return rtrig(x).s;
        case Fn::Cos: return rtrig(x).c;
        case Fn::Tan: { CS c = rtrig(x); return rmul(c.s, rinv(c.c)); }
        case Fn::Atan: return oddAtom(ATAN, x);
        case Fn::Asin: return oddAtom(ASIN, x);
        case Fn::Acos: { int a = atom(ACOS, rstr(x), [&](Atom& A) { A.a = x; A.nonneg = true; }); return rpoly(pa(a)); }
        case Fn::Acosh: { int a = atom(ACOSH, rstr(x), [&](Atom& A) { A.a = x; A.nonneg = true; }); return rpoly(pa(a)); }
        case Fn::Log: { int a = atom(LOG, rstr(x), [&](Atom& A) { A.a = x; }); return rpoly(pa(a)); }
        default: { int a = atom(OPAQ, std::string(fnName(e->fn)) + rstr(x), [&](Atom& A) { A.a = x; A.e = e; }); return rpoly(pa(a)); }
      }
    }
    case Op::Fun2: {
      const RF &x = conv(e->k[0]), &y = conv(e->k[1]);
      if (e->fn == Fn::Atan2) { int a = atom(ATAN2, rstr(x) + ";" + rstr(y), [&](Atom& A) { A.a = x; A.b = y; }); return rpoly(pa(a)); }
      if (e->fn == Fn::Pow) {
        int sx = signRF(x);
        if (y.d.empty() && isConst(y.n) && isInt(constOf(y.n))) return rpowi(x, constOf(y.n).get_num().get_si());
        if (y.d.empty() && isConst(y.n) && !x.n.empty()) {   // (c x)^y = c^y x^y for c > 0; c^y is the nearest double
          Q c = abs(x.n.at(*leadMono(x.n)));
          if (c != 1) {
            RF v = x; v.n = pscale(v.n, 1 / c);
            int a = atom(POW, rstr(v) + ";" + rstr(y), [&](Atom& A) { A.a = v; A.b = y; A.pos = sx == 2; A.nonneg = sx >= 1; });
            RF r = rpoly(pa(a)); r.n = pscale(r.n, Q(std::pow(c.get_d(), constOf(y.n).get_d()))); return r;
          }
        }
        int a = atom(POW, rstr(x) + ";" + rstr(y), [&](Atom& A) { A.a = x; A.b = y; A.pos = sx == 2; A.nonneg = sx >= 1; }); return rpoly(pa(a));
      }
      int a = atom(OPAQ, std::string(fnName(e->fn)) + rstr(x) + ";" + rstr(y), [&](Atom& A) { A.a = x; A.b = y; }); return rpoly(pa(a));
    }
    case Op::FRem: { const RF &x = conv(e->k[0]), &y = conv(e->k[1]); int a = atom(OPAQ, "frem" + rstr(x) + ";" + rstr(y), [&](Atom& A) { A.a = x; A.b = y; }); return rpoly(pa(a)); }
    default: break;
  }
  int a = atom(OPAQ, "e" + std::to_string(e->id), [&](Atom&) {}); return rpoly(pa(a));
}
const RF& conv(Ref e) {
  if (memo.size() <= e->id) memo.resize(gExprCount + gExprCount / 2 + 16);
  if (!memo[e->id]) {
    RF r;
    try { r = conv0(e); }
    catch (TooBig&) { int a = atom(OPAQ, "big" + std::to_string(e->id), [&](Atom&) {}); r = rpoly(pa(a)); }
    if (memo.size() <= e->id) memo.resize(gExprCount + gExprCount / 2 + 16);
    memo[e->id].reset(new RF(r));
  }
  return *memo[e->id];
}

// ------------------------------------------------------------ Z3 side
struct Enc {
  std::set<int> used; std::vector<int> order; std::set<int> usedF;
  std::vector<z3::expr> side;
  std::set<size_t> heavy;                 // definitions that a first, weaker attempt leaves out
  z3::expr A(int a) {
    if (used.insert(a).second) { order.push_back(a); }
    return C->real_const(("a" + std::to_string(a)).c_str());
  }
  z3::expr qv(const Q& q) { return C->real_val(q.get_str().c_str()); }
  z3::expr P(const Poly& p) {
    if (p.empty()) return C->real_val(0);
    z3::expr_vector v(*C);
    for (auto& t : p) {
      z3::expr m = qv(t.second); bool one = t.second == 1; bool have = !one;
      for (auto& f : t.first) for (int i = 0; i < f.second; i++) { z3::expr x = A(f.first); m = have ? m * x : x; have = true; }
      v.push_back(have ? m : C->real_val(1));
    }
    return v.size() == 1 ? v[0] : z3::sum(v);
  }
  void den(const RF& r) { for (auto& f : r.d) if (usedF.insert(f.first).second) { if (!posFactor(f.first)) side.push_back(P(factors[f.first]) != 0); else P(factors[f.first]); } }
  // polynomial with the same sign as r
  Poly signNum(const RF& r) {
    std::map<int, int> g; bool first = true;   // common monomial: drop what is known to be positive
    for (auto& t : r.n) { std::map<int, int> h; for (auto& f : t.first) h[f.first] = f.second;
      if (first) { g = h; first = false; } else for (auto it = g.begin(); it != g.end();) { auto j = h.find(it->first); if (j == h.end()) it = g.erase(it); else { it->second = std::min(it->second, j->second); ++it; } } }
    Mono drop, gm, keep; for (auto& f : g) { gm.push_back(f); if (signAtom(f.first) == 2) drop.push_back(f); else keep.push_back(f); }
    Poly rest, n; for (auto& t : r.n) { Mono m; divMono(t.first, gm, m); rest[m] = t.second; }
    int s = signPoly(rest);
    if (s == 2 || s == -2) n[keep] = s / 2; else for (auto& t : r.n) { Mono m; divMono(t.first, drop, m); n[m] = t.second; }
    for (auto& f : r.d) if (f.second & 1) { int q = signPoly(factors[f.first]); if (q == 2) continue; if (q == -2) n = pscale(n, -1); else n = pmul(n, factors[f.first]); }
    return n;
  }
  z3::expr rel(const RF& r, int k) {          // k: 0 r<0, 1 r<=0, 2 r==0
    int s = signRF(r);
    if (r.n.empty()) return C->bool_val(k != 0);
    if (s == 2) return C->bool_val(false);
    if (s == -2) return C->bool_val(k != 2);
    if (s == 1 && k == 0) return C->bool_val(false);
    if (s == -1 && k == 1) return C->bool_val(true);
    den(r);
    if (k == 2) return P(r.n) == 0;
    z3::expr p = P(signNum(r));
    return k == 0 ? p < 0 : p <= 0;
  }
  std::map<uint32_t, z3::expr> bm;
  z3::expr B(Ref e) {
    auto it = bm.find(e->id); if (it != bm.end()) return it->second;
    z3::expr r = B0(e); bm.insert({e->id, r}); return r;
  }
  z3::expr B0(Ref e) {
    switch (e->op) {
      case Op::IConst: return C->bool_val(e->ival != 0);
      case Op::ISym: if (e->width == 1) return C->bool_const(("b" + std::to_string(e->ival)).c_str()); break;
      case Op::FLt: case Op::FLe: case Op::FEq: {
        RF d; try { d = radd(conv(e->k[0]), conv(e->k[1]), -1); return rel(d, e->op == Op::FLt ? 0 : e->op == Op::FLe ? 1 : 2); }
        catch (TooBig&) { return C->bool_const(("big" + std::to_string(e->id)).c_str()); }
      }
      case Op::FNan: return C->bool_val(false);
      case Op::And: if (e->width == 1) return B(e->k[0]) && B(e->k[1]); break;
      case Op::Or: if (e->width == 1) return B(e->k[0]) || B(e->k[1]); break;
      case Op::Xor: if (e->width == 1) return isC(e->k[1]) && e->k[1]->ival ? !B(e->k[0]) : (B(e->k[0]) != B(e->k[1])); break;
      case Op::Ite: if (e->width == 1) return z3::ite(B(e->k[0]), B(e->k[1]), B(e->k[2])); break;
      case Op::Eq: if (e->k[0]->width == 1) return B(e->k[0]) == B(e->k[1]); return I(e->k[0]) == I(e->k[1]);
      case Op::Slt: return I(e->k[0]) < I(e->k[1]);
      case Op::Sle: return I(e->k[0]) <= I(e->k[1]);
      case Op::Ult: return z3::ult(I(e->k[0]), I(e->k[1]));
      case Op::Ule: return z3::ule(I(e->k[0]), I(e->k[1]));
      default: break;
    }
    return C->bool_const(("ob" + std::to_string(e->id)).c_str());
  }
  z3::expr I(Ref e) {
    unsigned w = e->width;
    switch (e->op) {
      case Op::IConst: return C->bv_val((uint64_t)e->ival, w);
      case Op::ISym: return C->bv_const(("i" + std::to_string(e->ival)).c_str(), w);
      case Op::Add: return I(e->k[0]) + I(e->k[1]);
      case Op::Sub: return I(e->k[0]) - I(e->k[1]);
      case Op::Mul: return I(e->k[0]) * I(e->k[1]);
      case Op::ZExt: if (e->k[0]->width == 1) return z3::ite(B(e->k[0]), C->bv_val(1, w), C->bv_val(0, w)); return z3::zext(I(e->k[0]), w - e->k[0]->width);
      case Op::SExt: if (e->k[0]->width == 1) break; return z3::sext(I(e->k[0]), w - e->k[0]->width);
      case Op::Ite: return z3::ite(B(e->k[0]), I(e->k[1]), I(e->k[2]));
      default: break;
    }
    return C->bv_const(("oi" + std::to_string(e->id)).c_str(), w);
  }
  z3::expr neg(const RF& r) { return rel(r, 0); }
  z3::expr zero(const RF& r) { return rel(r, 2); }
  z3::expr posi(const RF& r) { return rel(rneg(r), 0); }
  z3::expr val(const RF& r, const char* nm, int a) {   // real variable equal to r
    if (r.d.empty()) return P(r.n);
    z3::expr v = C->real_const((std::string(nm) + std::to_string(a)).c_str());
    den(r);
    Poly d = pc(1); for (auto& f : r.d) d = pmul(d, ppow(factors[f.first], f.second));
    side.push_back(v * P(d) == P(r.n));
    return v;
  }
  // u / (1 + u^2) <= atan(u) <= u, only tried when the query is not decided without it
  std::vector<z3::expr> extra() {
    std::vector<z3::expr> keep = side, out; side.clear();
    for (int a : order) if (atoms[a].k == ATAN) try {
      z3::expr x = A(a), u = val(atoms[a].a, "at", a);
      out.push_back(z3::implies(u > 0, x <= u && x * (1 + u * u) >= u)); out.push_back(z3::implies(u < 0, x >= u && x * (1 + u * u) <= u));
    } catch (TooBig&) {}
    for (auto& e : side) out.push_back(e);
    side = keep; return out;
  }
  void axioms() {
    for (size_t i = 0; i < order.size(); i++) {
      int a = order[i]; Atom At = atoms[a]; z3::expr x = A(a);
      auto add = [&](z3::expr e) { side.push_back(e); };
      if (At.num && At.k != PI && At.k != SQRT && At.k != EXP) { add(x >= qv(Q(At.lo))); add(x <= qv(Q(At.hi))); continue; }
      if (At.num && At.k == SQRT) { add(x >= qv(Q(At.lo))); add(x <= qv(Q(At.hi))); }
      try {
      switch (At.k) {
        case SYM: add(x >= qv(qOfDouble(gSyms[At.sym].lo))); add(x <= qv(qOfDouble(gSyms[At.sym].hi))); break;
        case PI: add(x > C->real_val("3.14159265358979")); add(x < C->real_val("3.1415926535898")); break;
        case SQRT: if (!At.b.n.empty()) { z3::expr m = P(At.b.n); add(z3::ite(m >= 0, x == m, x == -m)); break; }   // absolute value
          if (At.pos) add(x > 0); else add(x >= 0); if (!isConst(At.rad)) heavy.insert(side.size()); add(x * x == P(At.rad)); break;
        case EXP: { if (At.a.d.empty() && isConst(At.a.n)) {   // constant argument: numeric enclosure
            double v = std::exp(constOf(At.a.n).get_d()); Q q(v); add(x > qv(q * Q(999999999999l, 1000000000000l))); add(x < qv(q * Q(1000000000001l, 1000000000000l))); }
          add(x > 0); add(posi(At.a) == (x > 1)); add(zero(At.a) == (x == 1)); break; }
        case SIN: { z3::expr c = A(At.other); add(x * x + c * c == 1); add(x <= 1 && x >= -1); break; }
        case COS: {
          z3::expr s = A(At.other); add(x <= 1 && x >= -1); add(x * x + s * s == 1);
          RF pi = rpoly(pa(piAtom()));
          RF hp = pi; hp.n = pscale(hp.n, Q(1, 2));
          z3::expr within = neg(radd(At.a, pi, -1)) && posi(radd(At.a, pi));
          add(z3::implies(within, posi(At.a) == (s > 0))); add(z3::implies(within, neg(At.a) == (s < 0)));
          add(z3::implies(within, (neg(radd(At.a, hp, -1)) && posi(radd(At.a, hp))) == (x > 0)));
          break; }
        case ATAN: { z3::expr p = A(piAtom()); add(2 * x < p); add(2 * x > -p); add(posi(At.a) == (x > 0)); add(zero(At.a) == (x == 0)); break; }
        case ASIN: { z3::expr p = A(piAtom()); add(2 * x <= p); add(2 * x >= -p); add(posi(At.a) == (x > 0)); add(zero(At.a) == (x == 0)); break; }
        case ACOS: { z3::expr p = A(piAtom()); add(x <= p); add(x >= 0); add(posi(At.a) == (2 * x < p)); add(zero(At.a) == (2 * x == p)); break; }
        case ASINH: add(posi(At.a) == (x > 0)); add(zero(At.a) == (x == 0)); break;
        case ACOSH: add(x >= 0); break;
        case ATAN2: { z3::expr p = A(piAtom()); add(x <= p); add(x >= -p); add(z3::implies(posi(At.a), x > 0 && x < p)); add(z3::implies(neg(At.a), x < 0 && x > -p));
          add(z3::implies(zero(At.a) && posi(At.b), x == 0)); add(z3::implies(zero(At.a) && neg(At.b), x == p));
          add(z3::implies(posi(At.b), 2 * x < p && 2 * x > -p)); add(z3::implies(neg(At.b), 2 * x > p || 2 * x < -p)); break; }
        case LOG: add(posi(radd(At.a, rq(1), -1)) == (x > 0)); break;
        case POW:
          if (At.pos) add(x > 0); else if (At.nonneg) add(x >= 0);
          if (At.nonneg && At.b.d.empty() && isConst(At.b.n) && constOf(At.b.n) > 0) {
            add(zero(At.a) == (x == 0));
            Q y = constOf(At.b.n); z3::expr g = posi(radd(At.a, rq(1), -1));
            add(g == (x > 1));
            if (y < 1) add(z3::implies(g, x < val(At.a, "pw", a))); else if (y > 1) add(z3::implies(g, x > val(At.a, "pw", a)));
          }
          break;
        case ITE: { z3::expr c = B(At.e->k[0]); add(z3::implies(c, x == val(At.a, "it", a))); add(z3::implies(!c, x == val(At.b, "ie", a))); break; }
        case OPAQ: {
          if (At.e && At.e->op == Op::Fun1) {
            if (At.e->fn == Fn::Floor) { z3::expr v = val(At.a, "fl", a); add(x <= v && v < x + 1); }
            if (At.e->fn == Fn::Ceil) { z3::expr v = val(At.a, "ce", a); add(x >= v && v > x - 1); }
            if (At.e->fn == Fn::Round) { z3::expr v = val(At.a, "ro", a); add(2 * x <= 2 * v + 1 && 2 * x >= 2 * v - 1); }
          }
          break; }
        default: break;
      }
      } catch (TooBig&) {}
    }
    // monotonicity between atoms of the same kind
    for (AK k : {ATAN, ASINH, EXP, LOG, ASIN, POW}) {
      std::vector<int> v; for (int a : order) if (atoms[a].k == k && (k != POW || (atoms[a].nonneg && atoms[a].b.d.empty() && isConst(atoms[a].b.n) && constOf(atoms[a].b.n) > 0))) v.push_back(a);
      if (v.size() > 4) continue;
      for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) try {
        if (k == POW && rstr(atoms[v[i]].b) != rstr(atoms[v[j]].b)) continue;
        RF d = radd(atoms[v[i]].a, atoms[v[j]].a, -1);
        size_t before = order.size();
        side.push_back(neg(d) == (A(v[i]) < A(v[j]))); side.push_back(zero(d) == (A(v[i]) == A(v[j])));
        (void)before;
      } catch (TooBig&) {}
    }
  }
};
}  // namespace

void realInit(z3::context* c) { C = c; }
void realDump(Ref e) {
  if (e->isD()) fprintf(stderr, "  %s\n", rstr(conv(e)).c_str());
  else for (int i = 0; i < 3; i++) if (e->k[i]) realDump(e->k[i]);
  static size_t shown = 0; static const char* nm[] = {"SYM", "PI", "SQRT", "EXP", "SIN", "COS", "ATAN", "ASIN", "ACOS", "ASINH", "ACOSH", "ATAN2", "LOG", "POW", "OPAQ", "ITE"};
  for (; shown < atoms.size(); shown++) fprintf(stderr, "    a%zu = %s %s %s\n", shown, nm[atoms[shown].k], atoms[shown].k == SYM ? gSyms[atoms[shown].sym].name.c_str() : "", atoms[shown].k == SQRT ? pstr(atoms[shown].rad).c_str() : rstr(atoms[shown].a).c_str());
}
uint64_t gRingDecided = 0;

Res solveReal(const std::vector<Ref>& conj, std::vector<uint64_t>* model, unsigned tmo) {
  deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(2 * tmo); hasDeadline = true;
  Enc E;
  std::vector<z3::expr> cs;
  bool ints = false;
  for (auto it = conj.rbegin(); it != conj.rend(); ++it) {
    z3::expr b = E.B(*it).simplify();
    if (b.is_false()) { gRingDecided++; return Res::UNSAT; }
    if (!b.is_true()) cs.push_back(b);
  }
  E.axioms();
  // first try the query alone with a short list of conjuncts (goal first), then everything
  z3::check_result r = z3::unknown;
  auto build = [&](z3::solver& s, unsigned t) {
    z3::params p(*C); p.set("timeout", t); p.set("random_seed", 1u); s.set(p);
    for (auto& c : cs) s.add(c);
    for (auto& c : E.side) s.add(c);
  };
  (void)ints;
  if (!E.heavy.empty()) {
    z3::solver s0(*C, "QF_NRA"); z3::params p(*C); p.set("timeout", std::min(tmo, 400u)); p.set("random_seed", 1u); s0.set(p);
    for (auto& c : cs) s0.add(c);
    for (size_t i = 0; i < E.side.size(); i++) if (!E.heavy.count(i)) s0.add(E.side[i]);
    try { if (s0.check() == z3::unsat) return Res::UNSAT; } catch (z3::exception&) {}
  }
  z3::solver s1(*C, "QF_NRA");
  z3::solver* s = &s1;
  build(s1, tmo);
  try { r = s1.check(); } catch (z3::exception&) { r = z3::unknown; }
  z3::solver s2(*C);
  if (r == z3::unknown) {
    build(s2, tmo);
    try { r = s2.check(); } catch (z3::exception&) { r = z3::unknown; }
    s = &s2;
  }
  if (r != z3::unsat) {
    std::vector<z3::expr> ex = E.extra();
    if (!ex.empty()) {
      z3::solver s3(*C, "QF_NRA"); build(s3, std::min(tmo, 1500u)); for (auto& e : ex) s3.add(e);
      try { if (s3.check() == z3::unsat) return Res::UNSAT; } catch (z3::exception&) {}
    }
  }
  if (r == z3::unknown) return Res::UNKNOWN;
  if (r == z3::unsat) return Res::UNSAT;
  if (model) {
    z3::model m = s->get_model();
    model->assign(gSyms.size(), ~0ull - 12345);
    for (int a : E.order) if (atoms[a].k == SYM) {
      z3::expr v = m.eval(C->real_const(("a" + std::to_string(a)).c_str()), true);
      double d = 0;
      try {
        if (v.is_numeral()) { std::string t = v.get_decimal_string(20); if (!t.empty() && t.back() == '?') t.pop_back(); d = strtod(t.c_str(), nullptr); }
        else if (v.is_algebraic()) { z3::expr l = z3::expr(*C, Z3_get_algebraic_number_lower(*C, v, 60)); std::string t = l.get_decimal_string(20); if (!t.empty() && t.back() == '?') t.pop_back(); d = strtod(t.c_str(), nullptr); }
        else continue;
      } catch (z3::exception&) { continue; }
      (*model)[atoms[a].sym] = d2b(d);
    }
    for (size_t i = 0; i < gSyms.size(); i++) if (!gSyms[i].isD) {
      z3::expr v = m.eval(gSyms[i].width == 1 ? C->bool_const(("b" + std::to_string(i)).c_str()) : C->bv_const(("i" + std::to_string(i)).c_str(), gSyms[i].width), false);
      if (v.is_numeral()) (*model)[i] = v.get_numeral_uint64();
    }
  }
  return Res::SAT;
}
