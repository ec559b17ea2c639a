// Symbolic executor for LLVM IR (clang 18, typed as emitted from /repo's C++ sources).
// See DESIGN.md for the semantics that are modelled and the bounds.
#include "expr.h"
#include "solve.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <fstream>
#include <thread>
#include <mutex>
#include <atomic>

#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>

extern void realDump(Ref e);
extern uint64_t gRingDecided;
using namespace llvm;

// ---------------------------------------------------------------- values
struct Val {
  Ref r = nullptr;                          // null + no agg: undefined value
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(Ref x) : r(x) {}
  bool undef() const { return !r && !agg; }
};

struct Cell { uint32_t size; Ref r; };
struct MemObj {
  uint64_t base, size;
  enum Kind : uint8_t { Heap, Stack, Global, Func } kind;
  bool alive = true;
  bool ro = false;
  std::vector<uint8_t> bytes;
  std::vector<uint8_t> st;                  // 0 undefined, 1 concrete, 2 part of symbolic cell
  std::map<uint32_t, Cell> cells;
  std::string name;
};
using ObjP = std::shared_ptr<MemObj>;

struct FnInfo {
  DenseMap<const Value*, unsigned> slot;
  unsigned n = 0;
};

struct Frame {
  Function* f;
  FnInfo* info;
  BasicBlock* bb;
  BasicBlock* prev;
  BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::map<const Instruction*, unsigned> forks;
};

struct TraceIn { unsigned sym; };
struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  uint64_t next = 0x10000000;
  std::vector<Ref> pc;
  std::vector<int> samples;                 // indices of live samples satisfying pc
  std::vector<std::pair<std::string, long>> choices;
  uint64_t steps = 0;
  unsigned depth = 0;
  bool maybe = false;                       // some branch was explored on solver 'unknown'
  bool quietExceptions = false;
  std::map<std::string, unsigned> symCount;
};

// ---------------------------------------------------------------- globals
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<const Function*, std::unique_ptr<FnInfo>> infos;
static DenseMap<const GlobalValue*, uint64_t> gaddr;
static std::map<uint64_t, Function*> fnAt;
static std::vector<Sample> gSamples;
static std::mt19937_64 rng(1);
extern size_t gMaxDag;
static unsigned optUnwind = 8, optTimeout = 5000, optMaxSteps = 3000000, optSamples = 24, optSearch = 3000;
static double optWall = 600;
static unsigned optMaxPaths = 200000;
static unsigned optDeep = 0; static bool optGuided = false;
static bool optVerbose = false;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Finding { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, long>> choices; };
static std::vector<Finding> findings;       // concrete counterexample available
static std::vector<Finding> undecided;
static std::vector<Finding> witnesses; static size_t nWitnessed = 0, optWit = 4;
static std::map<std::string, unsigned> findingCount;
struct AssertStat { uint64_t reached = 0, proved = 0, structural = 0, violated = 0, undecided = 0, witnessed = 0; };
static std::map<std::string, AssertStat> asserts;
static std::map<std::string, uint64_t> reaches;
static uint64_t nPaths = 0, nCut = 0, nErrPaths = 0, nInfeasible = 0, nForks = 0, nSteps = 0, nPending = 0, nAssumeCut = 0;
static std::set<std::string> fnsExecuted;
static std::set<std::string> cutWhere;
static std::set<std::string> stubsUsed;

static std::string demang(const std::string& s) { return demangle(s); }

// ---------------------------------------------------------------- samples
static uint64_t randFor(const SymInfo& s, int mode) {
  if (s.isD) {
    double u = std::uniform_real_distribution<double>(0, 1)(rng);
    double x;
    int m = mode >= 0 ? mode : (int)(rng() % 10);
    if (m == 0) x = s.lo; else if (m == 1) x = s.hi;
    else if (m == 2) { x = std::floor(s.lo + u * (s.hi - s.lo)); }
    else if (m == 3) x = (s.lo <= 0 && s.hi >= 0) ? 0 : s.lo + (s.hi - s.lo) * 0.5;
    else if (m == 4 || m == 6) {            // spread over magnitudes
      if (s.lo > 0) x = s.lo * std::pow(s.hi / s.lo, u);
      else if (s.hi < 0) x = s.lo * std::pow(s.hi / s.lo, u);
      else { bool up = s.hi > 0 && (s.lo == 0 || (rng() & 1)); x = (up ? s.hi : s.lo) * std::pow(10.0, -25 * u); }
    }
    else x = s.lo + u * (s.hi - s.lo);
    if (x < s.lo) x = s.lo;
    if (x > s.hi) x = s.hi;
    return d2b(x);
  }
  uint64_t span = (uint64_t)(s.hi - s.lo) + 1;
  return (uint64_t)((int64_t)s.lo + (int64_t)(rng() % span)) & maskw(s.width);
}
static void initSamples() {
  gSamples.resize(optSamples);
}
static void newSymForSamples(unsigned idx) {
  for (size_t i = 0; i < gSamples.size(); i++) {
    while (gSamples[i].v.size() <= idx) {
      unsigned j = gSamples[i].v.size();
      gSamples[i].v.push_back(randFor(gSyms[j], i < 2 * optSamples / 3 ? 5 : -1));
    }
  }
}
static int addSample(const std::vector<uint64_t>& v) {
  Sample s; s.v = v;
  for (unsigned j = s.v.size(); j < gSyms.size(); j++) s.v.push_back(randFor(gSyms[j], 5));
  gSamples.push_back(std::move(s));
  return gSamples.size() - 1;
}

// turn a solver model into a full assignment, verify against conj by concrete evaluation
static bool modelOK(std::vector<uint64_t>& v, const std::vector<Ref>& conj, int base) {
  v.resize(gSyms.size(), ~0ull - 12345);
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] == ~0ull - 12345) v[i] = base >= 0 && i < gSamples[base].v.size() ? gSamples[base].v[i] : randFor(gSyms[i], 5);
    if (gSyms[i].isD) { double d = b2d(v[i]); if (!(d >= gSyms[i].lo && d <= gSyms[i].hi)) return false; }
  }
  Sample s; s.v = v;
  for (Ref c : conj) if (!(s.eval(c) & 1)) return false;
  return true;
}

// ---------------------------------------------------------------- errors
struct PathEnd { std::string why; };

static std::string whereStr(State& S) {
  std::string w;
  int n = 0;
  for (auto i = S.st.rbegin(); i != S.st.rend() && n < 6; ++i, ++n) {
    std::string nm = demang(i->f->getName().str());
    size_t p = nm.find('('); if (p != std::string::npos) nm = nm.substr(0, p);
    unsigned line = 0; std::string file;
    if (i->it != i->bb->end()) if (auto& dl = i->it->getDebugLoc()) {
      line = dl.getLine();
      if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) file = sc->getFilename().str();
      size_t q = file.rfind('/'); if (q != std::string::npos) file = file.substr(q + 1);
    }
    if (n) w += " < ";
    w += nm + (line ? "@" + file + ":" + std::to_string(line) : "");
  }
  return w;
}
static void fillInputs(Finding& f, const std::vector<uint64_t>& v, State& S) {
  for (size_t i = 0; i < gSyms.size() && i < v.size(); i++) {
    char b[64];
    if (gSyms[i].isD) snprintf(b, 64, "%.17g", b2d(v[i])); else snprintf(b, 64, "%lld", (long long)sextw(v[i], gSyms[i].width));
    f.inputs.push_back({gSyms[i].name, b});
  }
  f.choices = S.choices;
}
// Find a concrete assignment for conj: live samples, solver model, random search around.
static Res findConcrete(State& S, const std::vector<Ref>& conj, std::vector<uint64_t>& out, bool useSolver, bool skipSolverResult = false) {
  for (int i : S.samples) {
    bool ok = true;
    for (Ref c : conj) if (!(gSamples[i].eval(c) & 1)) { ok = false; break; }
    if (ok) { out = gSamples[i].v; return Res::SAT; }
  }
  Res r = Res::UNKNOWN;
  if (useSolver) {
    std::vector<uint64_t> m;
    r = solveConj(conj, &m, optTimeout);
    if (r == Res::UNSAT) return r;
    if (r == Res::SAT) {
      for (int t = 0; t < 6; t++) {
        std::vector<uint64_t> v = m;
        if (modelOK(v, conj, t == 0 && !S.samples.empty() ? S.samples[0] : -1)) { out = v; return Res::SAT; }
      }
    }
  }
  return r == Res::SAT ? Res::UNKNOWN : r;
}
static bool searchConcrete(State& S, const std::vector<Ref>& conj, std::vector<uint64_t>& out, unsigned n) {
  std::vector<char> seen, syms;
  for (Ref c : conj) collectSyms(c, seen, syms);
  syms.resize(gSyms.size(), 0);
  std::vector<unsigned> rel;
  for (unsigned i = 0; i < syms.size(); i++) if (syms[i]) rel.push_back(i);
  if (rel.empty()) n = 1;
  for (unsigned t = 0; t < n; t++) {
    Sample s;
    if (!S.samples.empty() && t % 2) {
      s.v = gSamples[S.samples[rng() % S.samples.size()]].v;
      s.v.resize(gSyms.size());
      for (unsigned j : rel) if (rng() % 3 == 0) s.v[j] = randFor(gSyms[j], -1);
    } else for (unsigned j = 0; j < gSyms.size(); j++) s.v.push_back(randFor(gSyms[j], -1));
    bool ok = true;
    for (auto i = conj.rbegin(); i != conj.rend(); ++i) if (!(s.eval(*i) & 1)) { ok = false; break; }
    if (ok) { out = s.v; return true; }
    if (t % 64 == 0 && elapsed() > optWall) break;
  }
  return false;
}

static void report(State& S, const std::string& kind, const std::string& msg, const std::vector<Ref>& conj, const std::vector<uint64_t>* known) {
  std::string key = kind + "|" + msg;
  if (findingCount[key] >= 3) return;
  Finding f; f.kind = kind; f.msg = msg; f.where = whereStr(S);
  std::vector<uint64_t> v;
  bool have = false;
  if (known) { v = *known; have = true; }
  else {
    Res r = findConcrete(S, conj, v, true);
    if (r == Res::UNSAT) { nInfeasible++; return; }
    have = r == Res::SAT;
    if (!have) have = searchConcrete(S, conj, v, optSearch);
  }
  if (have) { fillInputs(f, v, S); findingCount[key]++; findings.push_back(f); }
  else { f.choices = S.choices; if (undecided.size() < 200) undecided.push_back(f); }
}

[[noreturn]] static void pathError(State& S, const std::string& msg) {
  nErrPaths++;
  report(S, "error", msg, S.pc, nullptr);
  throw PathEnd{"error: " + msg};
}

// ---------------------------------------------------------------- memory
static ObjP allocObj(State& S, uint64_t size, MemObj::Kind k, const std::string& name = "") {
  auto o = std::make_shared<MemObj>();
  o->base = S.next; o->size = size; o->kind = k; o->name = name;
  o->bytes.assign(size, 0); o->st.assign(size, 0);
  S.next += ((size + 15) & ~15ull) + 32;
  S.mem[o->base] = o;
  return o;
}
static ObjP findObj(State& S, uint64_t a) {
  auto it = S.mem.upper_bound(a);
  if (it == S.mem.begin()) return nullptr;
  --it;
  if (a > it->second->base + it->second->size) return nullptr;
  return it->second;
}
static ObjP writable(State& S, ObjP& o) {
  if (o.use_count() > 2) { auto n = std::make_shared<MemObj>(*o); S.mem[n->base] = n; o = n; }
  return o;
}
static ObjP access(State& S, uint64_t a, uint64_t n, const char* what) {
  if (a < 4096) pathError(S, std::string("null pointer ") + what);
  ObjP o = findObj(S, a);
  if (!o) pathError(S, std::string("wild pointer ") + what);
  if (!o->alive) pathError(S, std::string(o->kind == MemObj::Heap ? "use-after-free " : "dangling-stack ") + what);
  if (o->kind == MemObj::Func) pathError(S, std::string("function memory ") + what);
  if (a + n > o->base + o->size) pathError(S, std::string("out-of-bounds ") + what);
  return o;
}
static Ref cellToInt(Ref r) { return r->isD() ? mkFromFP(Op::FPToBits, r, 64) : r; }
static Ref byteAt(MemObj& o, uint32_t off) {
  if (o.st[off] == 0) return nullptr;
  if (o.st[off] == 1) return mkI(o.bytes[off], 8);
  auto it = o.cells.upper_bound(off); --it;
  return mkExtract(cellToInt(it->second.r), 8 * (off - it->first), 8);
}
static Val loadBytes(MemObj& o, uint32_t off, uint32_t n) {    // as integer of 8n bits or double cell
  auto it = o.cells.find(off);
  if (it != o.cells.end() && it->second.size == n) return it->second.r;
  bool conc = true;
  for (uint32_t i = 0; i < n; i++) { if (o.st[off + i] == 0) return Val(); if (o.st[off + i] != 1) conc = false; }
  if (conc) { uint64_t v = 0; memcpy(&v, &o.bytes[off], n); return mkI(v, n * 8); }
  Ref r = nullptr;
  for (uint32_t i = 0; i < n; i++) { Ref b = byteAt(o, off + i); r = r ? mkConcat(b, r) : b; }
  return r;
}
static void splitCells(MemObj& o, uint32_t off, uint32_t n) {
  auto it = o.cells.upper_bound(off);
  if (it != o.cells.begin()) --it;
  while (it != o.cells.end() && it->first < off + n) {
    if (it->first + it->second.size <= off) { ++it; continue; }
    uint32_t co = it->first; Cell c = it->second;
    it = o.cells.erase(it);
    if (co >= off && co + c.size <= off + n) continue;
    for (uint32_t i = 0; i < c.size; i++) {
      if (co + i >= off && co + i < off + n) continue;
      Ref b = mkExtract(cellToInt(c.r), 8 * i, 8);
      if (isC(b)) { o.bytes[co + i] = b->ival; o.st[co + i] = 1; }
      else { o.cells[co + i] = Cell{1, b}; o.st[co + i] = 2; }
    }
    it = o.cells.upper_bound(off);
    if (it != o.cells.begin()) --it;
  }
}
static void storeVal(MemObj& o, uint32_t off, uint32_t n, Ref r) {
  if (!o.cells.empty()) splitCells(o, off, n);
  if (!r) { for (uint32_t i = 0; i < n; i++) o.st[off + i] = 0; return; }
  if (r->op == Op::IConst || r->op == Op::FConst) {
    uint64_t v = r->ival; memcpy(&o.bytes[off], &v, n);
    for (uint32_t i = 0; i < n; i++) o.st[off + i] = 1;
    return;
  }
  o.cells[off] = Cell{n, r};
  for (uint32_t i = 0; i < n; i++) o.st[off + i] = 2;
}
static void copyMem(State& S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  ObjP so = access(S, s, n, "read");
  ObjP dob = access(S, d, n, "write");
  MemObj snap = *so;                                   // simple and overlap-safe
  dob = writable(S, dob);
  uint32_t so_ = s - snap.base, do_ = d - dob->base;
  if (!dob->cells.empty()) splitCells(*dob, do_, n);
  memcpy(&dob->bytes[do_], &snap.bytes[so_], n);
  memcpy(&dob->st[do_], &snap.st[so_], n);
  auto it = snap.cells.upper_bound(so_);
  if (it != snap.cells.begin()) --it;
  for (; it != snap.cells.end() && it->first < so_ + n; ++it) {
    if (it->first + it->second.size <= so_) continue;
    if (it->first >= so_ && it->first + it->second.size <= so_ + n) dob->cells[it->first - so_ + do_] = it->second;
    else for (uint32_t i = 0; i < it->second.size; i++) {
      uint32_t p = it->first + i;
      if (p < so_ || p >= so_ + n) continue;
      Ref b = mkExtract(cellToInt(it->second.r), 8 * i, 8);
      uint32_t q = p - so_ + do_;
      if (isC(b)) { dob->bytes[q] = b->ival; dob->st[q] = 1; } else { dob->cells[q] = Cell{1, b}; dob->st[q] = 2; }
    }
  }
}

// ---------------------------------------------------------------- typed load/store
static Val undefOf(Type* t);
static Val loadT(State& S, uint64_t a, Type* t) {
  if (t->isStructTy() || t->isArrayTy()) {
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadT(S, a + sl->getElementOffset(i), st->getElementType(i)));
    } else {
      auto* at = cast<ArrayType>(t); uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadT(S, a + i * es, at->getElementType()));
    }
    return v;
  }
  uint64_t n = DL->getTypeStoreSize(t);
  ObjP o = access(S, a, n, "read");
  Val v = loadBytes(*o, a - o->base, n);
  if (v.undef()) return v;
  if (t->isDoubleTy()) return v.r->isD() ? v : Val(mkToFP(Op::BitsToFP, v.r));
  if (t->isIntegerTy() || t->isPointerTy()) {
    unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
    Ref r = cellToInt(v.r);
    if (r->width > w) r = mkExtract(r, 0, w);
    return r;
  }
  pathError(S, "unsupported load type");
}
static void storeT(State& S, uint64_t a, Type* t, const Val& v) {
  if (t->isStructTy() || t->isArrayTy()) {
    Val u = v.undef() ? undefOf(t) : v;
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) storeT(S, a + sl->getElementOffset(i), st->getElementType(i), (*u.agg)[i]);
    } else {
      auto* at = cast<ArrayType>(t); uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) storeT(S, a + i * es, at->getElementType(), (*u.agg)[i]);
    }
    return;
  }
  uint64_t n = DL->getTypeStoreSize(t);
  ObjP o = access(S, a, n, "write");
  if (o->ro) pathError(S, "write to constant memory");
  o = writable(S, o);
  Ref r = v.r;
  if (r && !r->isD() && r->width != n * 8) r = mkExt(Op::ZExt, r, n * 8);
  storeVal(*o, a - o->base, n, r);
}
static Val undefOf(Type* t) {
  Val v;
  if (auto* st = dyn_cast<StructType>(t)) { v.agg = std::make_shared<std::vector<Val>>(); for (auto* e : st->elements()) v.agg->push_back(undefOf(e)); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { v.agg = std::make_shared<std::vector<Val>>(); for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(undefOf(at->getElementType())); }
  return v;
}
static Val zeroOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (auto* e : st->elements()) v.agg->push_back(zeroOf(e)); return v; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroOf(at->getElementType())); return v; }
  if (t->isDoubleTy()) return mkD(0);
  return mkI(0, t->isPointerTy() ? 64 : t->getIntegerBitWidth());
}

// ---------------------------------------------------------------- constants
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return mkI(ci->getValue().getZExtValue(), ci->getBitWidth());
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isDoubleTy()) return mkD(cf->getValueAPF().convertToDouble());
    APFloat f = cf->getValueAPF(); bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return mkD(f.convertToDouble());
  }
  if (isa<ConstantPointerNull>(c)) return mkI(0, 64);
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); exit(3); }
    return mkI(it->second, 64);
  }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cds->getNumElements(); i++) v.agg->push_back(constVal(cds->getElementAsConstant(i)));
    return v;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(constVal(cast<Constant>(ca->getOperand(i))));
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
        Val b = constVal(ce->getOperand(0));
        return mkBin(Op::Add, b.r, mkI(off.getZExtValue(), 64));
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0));
      case Instruction::Sub: return mkBin(Op::Sub, constVal(ce->getOperand(0)).r, constVal(ce->getOperand(1)).r);
      case Instruction::Add: return mkBin(Op::Add, constVal(ce->getOperand(0)).r, constVal(ce->getOperand(1)).r);
      case Instruction::Trunc: return mkExtract(constVal(ce->getOperand(0)).r, 0, ce->getType()->getIntegerBitWidth());
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "unsupported constant %s\n", s.c_str());
  exit(3);
}

static FnInfo* infoOf(Function* f) {
  auto& p = infos[f];
  if (!p) {
    p.reset(new FnInfo);
    for (auto& a : f->args()) p->slot[&a] = p->n++;
    for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
  }
  return p.get();
}
static DenseMap<const Constant*, Val*> constCache;
static const Val& opv(Frame& F, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) {
    auto& p = constCache[c];
    if (!p) p = new Val(constVal(c));
    return *p;
  }
  return F.regs[F.info->slot.find(v)->second];
}

// ---------------------------------------------------------------- exploration
static std::vector<std::unique_ptr<State>> work;

static bool evalAll(int si, const std::vector<Ref>& cs) { for (Ref c : cs) if (!(gSamples[si].eval(c) & 1)) return false; return true; }

// is pc /\ c feasible?  adds a model sample to *extra if one was built
static Res feasible(State& S, Ref c, std::vector<int>& live) {
  live.clear();
  for (int i : S.samples) if (gSamples[i].eval(c) & 1) live.push_back(i);
  if (!live.empty()) return Res::SAT;
  std::vector<Ref> q = S.pc; q.push_back(c);
  std::vector<uint64_t> m;
  Res r = solveConj(q, &m, optTimeout);
  if (r == Res::SAT) {
    if (modelOK(m, q, S.samples.empty() ? -1 : S.samples[0])) { live.push_back(addSample(m)); return r; }
    // model did not carry over to concrete doubles: try a short search
    std::vector<uint64_t> v;
    if (searchConcrete(S, q, v, 200)) { live.push_back(addSample(v)); return r; }
    return Res::UNKNOWN;
  }
  if (r == Res::UNKNOWN) {
    std::vector<uint64_t> v;
    if (searchConcrete(S, q, v, 200)) { live.push_back(addSample(v)); return Res::SAT; }
  }
  return r;
}

static void addPc(State& S, Ref c, std::vector<int>&& live) { if (!isC(c)) S.pc.push_back(c); S.samples = std::move(live); S.depth++; }

// Decide a symbolic condition: returns the branch taken by S; pushes the other side when feasible.
static int forkOn(State& S, Ref c, const Instruction* at, std::function<void(State&)> other = nullptr) {
  return 0;
}

struct BranchRes { bool t, f; std::vector<int> lt, lf; bool ut = false, uf = false; };
static BranchRes branchOn(State& S, Ref c) {
  BranchRes b;
  if (optGuided && S.depth > 8 && !S.samples.empty()) {   // beyond the first decisions only sides with a concrete input are followed
    for (int i : S.samples) (gSamples[i].eval(c) & 1 ? b.lt : b.lf).push_back(i);
    b.t = b.f = true; return b;
  }
  Res r1 = feasible(S, c, b.lt);
  b.t = r1 != Res::UNSAT; b.ut = r1 == Res::UNKNOWN;
  if (!b.t) { b.f = true; b.lf = S.samples; return b; }
  Res r2 = feasible(S, mkNot(c), b.lf);
  b.f = r2 != Res::UNSAT; b.uf = r2 == Res::UNKNOWN;
  return b;
}

static void enterBlock(State& S, Frame& F, BasicBlock* to) {
  F.prev = F.bb; F.bb = to; F.it = to->begin();
  // phis evaluated in parallel
  std::vector<std::pair<unsigned, Val>> upd;
  while (auto* ph = dyn_cast<PHINode>(&*F.it)) {
    upd.push_back({F.info->slot[ph], opv(F, ph->getIncomingValueForBlock(F.prev))});
    ++F.it;
  }
  for (auto& u : upd) F.regs[u.first] = u.second;
}

static void pushFrame(State& S, Function* f, const std::vector<Val>& args) {
  if (S.st.size() > 400) pathError(S, "stack depth limit");
  Frame F; F.f = f; F.info = infoOf(f); F.bb = &f->getEntryBlock(); F.prev = nullptr; F.it = F.bb->begin();
  F.regs.resize(F.info->n);
  for (unsigned i = 0; i < f->arg_size() && i < args.size(); i++) F.regs[i] = args[i];
  S.st.push_back(std::move(F));
  if (!f->getName().empty()) fnsExecuted.insert(f->getName().str());
}

static std::string cstr(State& S, uint64_t a) {
  std::string s;
  for (;;) {
    ObjP o = access(S, a, 1, "read");
    Ref b = byteAt(*o, a - o->base);
    if (!b) pathError(S, "read of uninitialised string");
    if (!isC(b)) { s += '?'; } else { if (!b->ival) break; s += (char)b->ival; }
    a++;
  }
  return s;
}

// result of trying to pin an integer term down to one value on this path
static uint64_t concretize(State& S, Ref r, const char* what) {
  if (isC(r)) return r->ival;
  // fork over feasible values
  std::vector<uint64_t> vals;
  std::vector<Ref> excl;
  while (vals.size() < 64) {
    uint64_t v; bool got = false;
    for (int i : S.samples) { uint64_t x = gSamples[i].eval(r); bool dup = false; for (uint64_t y : vals) dup |= x == y; if (!dup) { v = x; got = true; break; } }
    if (!got) {
      std::vector<Ref> q = S.pc; for (Ref e : excl) q.push_back(e);
      std::vector<uint64_t> m;
      Res rr = solveConj(q, &m, optTimeout);
      if (rr == Res::UNSAT) break;
      if (rr == Res::UNKNOWN || !modelOK(m, q, -1)) { S.maybe = true; break; }
      int si = addSample(m); S.samples.push_back(si); v = gSamples[si].eval(r);
    }
    vals.push_back(v);
    excl.push_back(mkNot(mkBin(Op::Eq, r, mkI(v, r->width))));
  }
  if (vals.empty()) throw PathEnd{"infeasible"};
  for (size_t i = 1; i < vals.size(); i++) {
    auto N = std::make_unique<State>(S);
    Ref c = mkBin(Op::Eq, r, mkI(vals[i], r->width));
    std::vector<int> live; for (int s : S.samples) if (gSamples[s].eval(c)) live.push_back(s);
    addPc(*N, c, std::move(live));
    nForks++;
    work.push_back(std::move(N));
  }
  Ref c = mkBin(Op::Eq, r, mkI(vals[0], r->width));
  std::vector<int> live; for (int s : S.samples) if (gSamples[s].eval(c)) live.push_back(s);
  addPc(S, c, std::move(live));
  return vals[0];
}
static uint64_t concInt(State& S, const Val& v, const char* what) {
  if (v.undef()) pathError(S, std::string("uninitialised value used as ") + what);
  if (v.r->isD()) pathError(S, "double used as integer");
  if (isC(v.r)) return v.r->ival;
  return concretize(S, v.r, what);
}

// ---------------------------------------------------------------- assertion handling
static void doAssert(State& S, Ref cond, Ref loose, const std::string& label) {
  // cond: exact claim given to the solver.  loose: claim used to accept a concrete counterexample (tolerance), may equal cond.
  auto& A = asserts[label];
  A.reached++;
  if (!S.samples.empty()) A.witnessed++;
  if (isC(cond) && cond->ival) { A.proved++; A.structural++; gStats.structural++; return; }
  std::vector<Ref> q = S.pc; q.push_back(mkNot(cond));
  std::vector<Ref> ql = S.pc; ql.push_back(mkNot(loose));
  std::vector<uint64_t> m;
  Res r;
  if (A.violated >= 3) { r = Res::UNKNOWN; }
  else r = solveConj(q, &m, optTimeout);
  if (optVerbose) fprintf(stderr, "assert %s -> %s (pc %zu)\n", label.c_str(), r == Res::UNSAT ? "proved" : r == Res::SAT ? "sat" : "unknown", S.pc.size());
  if (r == Res::UNSAT) { A.proved++; return; }
  if (cond != loose && gMode == Mode::REAL && A.violated < 3) {   // equality up to the stated tolerance, still for all reals
    std::vector<uint64_t> m2;
    Res r2 = solveConj(ql, &m2, optTimeout);
    if (optVerbose) fprintf(stderr, "assert %s within tolerance -> %s\n", label.c_str(), r2 == Res::UNSAT ? "proved" : r2 == Res::SAT ? "sat" : "unknown");
    if (r2 == Res::UNSAT) { A.proved++; return; }
    if (r2 == Res::SAT) { r = r2; m = m2; }
  }
  std::vector<uint64_t> v;
  bool have = false;
  if (r == Res::SAT) for (int t = 0; t < 4 && !have; t++) {
    v = m;
    have = modelOK(v, ql, t == 0 && !S.samples.empty() ? S.samples[0] : -1);
  }
  if (!have) for (int i : S.samples) if (!(gSamples[i].eval(loose) & 1)) { v = gSamples[i].v; have = true; break; }
  if (!have && A.undecided < 20) have = searchConcrete(S, ql, v, optSearch);
  if (have) { A.violated++; report(S, "assert", label, ql, &v); }
  else { A.undecided++; Finding f; f.kind = "assert"; f.msg = label; f.where = whereStr(S); f.choices = S.choices; if (undecided.size() < 200) undecided.push_back(f); if (optVerbose) { fprintf(stderr, "   undecided: %s\n", show(cond, 5).c_str()); if (gMode == Mode::REAL) realDump(cond); } }
  // continue on the side where the claim holds
  if (isC(cond)) throw PathEnd{"assertion always false"};
  if (cond != loose) return;
  std::vector<int> live; for (int i : S.samples) if (gSamples[i].eval(cond)) live.push_back(i);
  addPc(S, cond, std::move(live));
}

// ---------------------------------------------------------------- external functions
static std::unordered_map<std::string, Fn> mathFns = {
  {"sqrt", Fn::Sqrt}, {"sin", Fn::Sin}, {"cos", Fn::Cos}, {"tan", Fn::Tan}, {"asin", Fn::Asin}, {"acos", Fn::Acos}, {"atan", Fn::Atan},
  {"atan2", Fn::Atan2}, {"sinh", Fn::Sinh}, {"cosh", Fn::Cosh}, {"tanh", Fn::Tanh}, {"asinh", Fn::Asinh}, {"acosh", Fn::Acosh},
  {"atanh", Fn::Atanh}, {"exp", Fn::Exp}, {"exp2", Fn::Exp2}, {"expm1", Fn::Expm1}, {"log", Fn::Log}, {"log2", Fn::Log2}, {"log10", Fn::Log10},
  {"log1p", Fn::Log1p}, {"pow", Fn::Pow}, {"floor", Fn::Floor}, {"ceil", Fn::Ceil}, {"round", Fn::Round}, {"trunc", Fn::Trunc},
  {"rint", Fn::RInt}, {"nearbyint", Fn::RInt}, {"cbrt", Fn::Cbrt}, {"hypot", Fn::Hypot}, {"fmax", Fn::FMax}, {"fmin", Fn::FMin}, {"copysign", Fn::CopySign}, {"remainder", Fn::Remainder},
  {"maxnum", Fn::FMax}, {"minnum", Fn::FMin}};

static void freeObj(State& S, uint64_t a, const char* what) {
  if (!a) return;
  auto it = S.mem.find(a);
  if (it == S.mem.end()) pathError(S, std::string("invalid ") + what);
  if (it->second->kind != MemObj::Heap) pathError(S, std::string("non-heap ") + what);
  if (!it->second->alive) pathError(S, std::string("double ") + what);
  auto n = std::make_shared<MemObj>(); n->base = a; n->size = it->second->size; n->kind = MemObj::Heap; n->alive = false;
  it->second = n;
}

static Ref argD(State& S, const Val& v) { if (v.undef()) return nullptr; return v.r; }

// returns true when handled; sets ret
static bool callExternal(State& S, CallBase* cb, const std::string& n, std::vector<Val>& a, Val& ret) {
  auto I = [&](unsigned i) { return concInt(S, a[i], "call argument"); };
  if (n == "_Znwm" || n == "_Znam" || n == "malloc") { uint64_t sz = I(0); ret = mkI(allocObj(S, sz, MemObj::Heap)->base, 64); return true; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free") { freeObj(S, I(0), "free"); return true; }
  if (n == "memcpy" || n == "memmove") { copyMem(S, I(0), I(1), I(2)); ret = a[0]; return true; }
  if (n == "memset") {
    uint64_t d = I(0), len = I(2); uint64_t c = I(1) & 255;
    if (len) { ObjP o = access(S, d, len, "write"); o = writable(S, o); for (uint64_t i = 0; i < len; i++) storeVal(*o, d - o->base + i, 1, mkI(c, 8)); }
    ret = a[0]; return true;
  }
  if (n == "strlen") { ret = mkI(cstr(S, I(0)).size(), 64); return true; }
  if (n == "memcmp" || n == "bcmp" || n == "strncmp") {
    uint64_t p = I(0), q = I(1), len = I(2); Ref r = mkI(0, 32);
    for (uint64_t i = len; i-- > 0;) {
      ObjP o1 = access(S, p + i, 1, "read"), o2 = access(S, q + i, 1, "read");
      Ref x = byteAt(*o1, p + i - o1->base), y = byteAt(*o2, q + i - o2->base);
      if (!x || !y) pathError(S, "memcmp of uninitialised bytes");
      r = mkIte(mkBin(Op::Eq, x, y), r, mkIte(mkBin(Op::Ult, x, y), mkI(-1, 32), mkI(1, 32)));
    }
    ret = r; return true;
  }
  if (n == "memchr") {
    uint64_t p = I(0), len = I(2); uint64_t c = I(1) & 255;
    for (uint64_t i = 0; i < len; i++) { ObjP o = access(S, p + i, 1, "read"); Ref b = byteAt(*o, p + i - o->base); if (!b) pathError(S, "memchr of uninitialised bytes");
      uint64_t x = concretize(S, b, "memchr"); if (x == c) { ret = mkI(p + i, 64); return true; } }
    ret = mkI(0, 64); return true;
  }
  if (n == "tolower" || n == "toupper") {
    if (a[0].undef()) { ret = Val(); return true; }
    Ref x = a[0].r; bool lo = n == "tolower";
    Ref in = mkAnd(mkBin(Op::Sle, mkI(lo ? 'A' : 'a', 32), x), mkBin(Op::Sle, x, mkI(lo ? 'Z' : 'z', 32)));
    ret = mkIte(in, mkBin(Op::Add, x, mkI(lo ? 32 : -32, 32)), x); return true;
  }
  auto mf = mathFns.find(n);
  if (mf != mathFns.end()) {
    Ref x = argD(S, a[0]), y = a.size() > 1 ? argD(S, a[1]) : nullptr;
    if (!x || (a.size() > 1 && !y)) { ret = Val(); return true; }
    ret = mkFun(mf->second, x, y); return true;
  }
  if (n == "fabs") { if (a[0].undef()) ret = Val(); else ret = mkF(Op::FAbs, a[0].r); return true; }
  if (n == "fmod") { if (a[0].undef() || a[1].undef()) ret = Val(); else ret = mkF(Op::FRem, a[0].r, a[1].r); return true; }
  if (n == "lround" || n == "llround" || n == "lrint" || n == "llrint") { if (!a[0].undef()) ret = mkFromFP(Op::FPToSI, mkFun(n.back() == 'd' ? Fn::Round : Fn::RInt, a[0].r, nullptr), 64); return true; }
  if (n == "fma") { if (!a[0].undef() && !a[1].undef() && !a[2].undef()) ret = mkF(Op::FAdd, mkF(Op::FMul, a[0].r, a[1].r), a[2].r); return true; }
  if (n == "isnan" || n == "__isnan") { ret = mkExt(Op::ZExt, mkFCmp(Op::FNan, a[0].r), 32); return true; }
  if (n == "__cxa_atexit") { ret = mkI(0, 32); return true; }
  if (n == "__cxa_guard_acquire") {
    uint64_t p = I(0); Val g = loadT(S, p, Type::getInt8Ty(M->getContext()));
    ret = mkI(g.r->ival ? 0 : 1, 32); return true;
  }
  if (n == "__cxa_guard_release") { storeT(S, I(0), Type::getInt8Ty(M->getContext()), mkI(1, 8)); return true; }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual") pathError(S, "program aborts (" + demang(n) + ")");
  if (n.find("glibcxx_assert_fail") != std::string::npos) {
    std::string c = cstr(S, I(3));
    pathError(S, "container misuse: " + c);
  }
  if (n.find("_ZSt") == 0 && n.find("__throw_") != std::string::npos) {
    size_t p = n.find("__throw_"); std::string nm = n.substr(p + 8);
    size_t q = nm.find_first_of("PEv"); nm = nm.substr(0, q);
    pathError(S, "exception thrown: " + nm);
  }
  if (n == "__cxa_throw") pathError(S, "exception thrown");
  // ---- harness interface
  if (n == "sx_double") {
    std::string nm = cstr(S, I(0));
    if (a[1].undef() || a[2].undef() || !isFC(a[1].r) || !isFC(a[2].r)) pathError(S, "sx_double bounds must be constants");
    unsigned k = S.symCount[nm]++; if (k) nm += "#" + std::to_string(k);
    unsigned id = addSym(nm, true, 0, a[1].r->d(), a[2].r->d()); newSymForSamples(id);
    ret = mkSym(id); return true;
  }
  if (n == "sx_int") {
    std::string nm = cstr(S, I(0));
    unsigned k = S.symCount[nm]++; if (k) nm += "#" + std::to_string(k);
    int lo = (int)I(1), hi = (int)I(2);
    unsigned id = addSym(nm, false, 32, lo, hi); newSymForSamples(id);
    ret = mkSym(id);
    Ref c = mkAnd(mkBin(Op::Sle, mkI(lo, 32), ret.r), mkBin(Op::Sle, ret.r, mkI(hi, 32)));
    std::vector<int> live; for (int s : S.samples) if (gSamples[s].eval(c)) live.push_back(s);
    addPc(S, c, std::move(live));
    return true;
  }
  if (n == "sx_choose") {
    std::string nm = cstr(S, I(0)); long cnt = (long)I(1);
    unsigned k = S.symCount["?" + nm]++; if (k) nm += "#" + std::to_string(k);
    unsigned slot = S.st.back().info->slot.find(cb)->second;
    for (long v = cnt - 1; v >= 1; v--) {
      auto N = std::make_unique<State>(S);
      N->choices.push_back({nm, v});
      Frame& F = N->st.back();
      F.regs[slot] = mkI(v, 32);
      if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(*N, F, inv->getNormalDest()); else ++F.it;
      nForks++;
      work.push_back(std::move(N));
    }
    S.choices.push_back({nm, 0});
    ret = mkI(0, 32); return true;
  }
  if (n == "sx_assume") {
    if (a[0].undef()) pathError(S, "assume on uninitialised value");
    Ref c = a[0].r; if (c->width != 1) c = mkNot(mkBin(Op::Eq, c, mkI(0, c->width)));
    if (isC(c)) { if (!c->ival) { nAssumeCut++; throw PathEnd{"assume"}; } return true; }
    std::vector<int> live; Res r = feasible(S, c, live);
    if (r == Res::UNSAT) { nAssumeCut++; throw PathEnd{"assume"}; }
    if (r == Res::UNKNOWN) S.maybe = true;
    addPc(S, c, std::move(live)); return true;
  }
  if (n == "sx_assert") {
    std::string l = cstr(S, I(1));
    if (a[0].undef()) pathError(S, "assertion on an uninitialised value: " + l);
    Ref c = a[0].r; if (c->width != 1) c = mkNot(mkBin(Op::Eq, c, mkI(0, c->width)));
    doAssert(S, c, c, l); return true;
  }
  if (n == "sx_close") {           // (a, b, rel, abs, label): equality of reals; tolerance for concrete counterexamples
    std::string l = cstr(S, I(4));
    if (a[0].undef() || a[1].undef()) pathError(S, "assertion on an uninitialised value: " + l);
    Ref x = a[0].r, y = a[1].r, rel = a[2].r, ab = a[3].r;
    if (x == y) { doAssert(S, mkI(1, 1), mkI(1, 1), l); return true; }
    Ref diff = mkF(Op::FAbs, mkF(Op::FSub, x, y));
    Ref tol = mkF(Op::FAdd, ab, mkF(Op::FMul, rel, mkF(Op::FAdd, mkF(Op::FAbs, x), mkF(Op::FAbs, y))));
    Ref bothNan = mkAnd(mkFCmp(Op::FNan, x), mkFCmp(Op::FNan, y));
    Ref loose = mkOr(mkFCmp(Op::FLe, diff, tol), bothNan);
    Ref cond = gMode == Mode::REAL ? mkFCmp(Op::FEq, x, y) : mkOr(mkFCmp(Op::FEq, x, y), bothNan);
    if (isFC(x) && isFC(y)) cond = loose;
    doAssert(S, cond, loose, l); return true;
  }
  if (n == "sx_same") {            // same value (bitwise up to NaN payload and zero sign)
    std::string l = cstr(S, I(2));
    if (a[0].undef() && a[1].undef()) { doAssert(S, mkI(1, 1), mkI(1, 1), l); return true; }
    if (a[0].undef() || a[1].undef()) pathError(S, "assertion on an uninitialised value: " + l);
    Ref x = a[0].r, y = a[1].r;
    Ref c = x == y ? mkI(1, 1) : mkOr(mkFCmp(Op::FEq, x, y), mkAnd(mkFCmp(Op::FNan, x), mkFCmp(Op::FNan, y)));
    doAssert(S, c, c, l); return true;
  }
  if (n == "sx_reach") { std::string l = cstr(S, I(0)); if (!S.samples.empty()) reaches[l]++; else reaches[l] += 0; return true; }
  if (n == "sx_defined") { ret = mkI(a[0].undef() ? 0 : 1, 32); return true; }
  if (n == "sx_is_const") { ret = mkI(!a[0].undef() && (isC(a[0].r) || isFC(a[0].r)), 32); return true; }
  if (n == "sx_native") { ret = mkI(0, 32); return true; }
  if (n == "sx_mode_real") { ret = mkI(gMode == Mode::REAL, 32); return true; }
  if (n == "sx_stop") throw PathEnd{"stop"};
  return false;
}

static Ref boolOf(State& S, const Val& v, const char* what) {
  if (v.undef()) pathError(S, std::string("uninitialised value decides a ") + what);
  return v.r;
}

static void retTo(State& S, const Val& rv) {
  Frame& cf = S.st.back();
  for (uint64_t a : cf.allocas) {
    auto n = std::make_shared<MemObj>(); auto& p = S.mem[a];
    n->base = a; n->size = p->size; n->kind = MemObj::Stack; n->alive = false; p = n;
  }
  S.st.pop_back();
  if (S.st.empty()) return;
  Frame& F = S.st.back();
  auto* cb = cast<CallBase>(&*F.it);
  if (!cb->getType()->isVoidTy()) F.regs[F.info->slot.find(cb)->second] = rv;
  if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(S, F, inv->getNormalDest());
  else ++F.it;
}

static void setReg(Frame& F, const Instruction* I, Val v) { F.regs[F.info->slot.find(I)->second] = std::move(v); }

static Val castVal(State& S, unsigned opc, const Val& v, Type* dt) {
  if (v.undef()) return Val();
  Ref r = v.r;
  switch (opc) {
    case Instruction::ZExt: return mkExt(Op::ZExt, r, dt->getIntegerBitWidth());
    case Instruction::SExt: return mkExt(Op::SExt, r, dt->getIntegerBitWidth());
    case Instruction::Trunc: return mkExtract(r, 0, dt->getIntegerBitWidth());
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned w = dt->isPointerTy() ? 64 : dt->getIntegerBitWidth();
      return w < r->width ? mkExtract(r, 0, w) : mkExt(Op::ZExt, r, w);
    }
    case Instruction::BitCast:
      if (dt->isDoubleTy()) return r->isD() ? r : mkToFP(Op::BitsToFP, r);
      if (r->isD()) return mkFromFP(Op::FPToBits, r, 64);
      return r;
    case Instruction::SIToFP: return mkToFP(Op::SIToFP, r);
    case Instruction::UIToFP: return mkToFP(Op::UIToFP, r);
    case Instruction::FPToSI: return mkFromFP(Op::FPToSI, r, dt->getIntegerBitWidth());
    case Instruction::FPToUI: return mkFromFP(Op::FPToUI, r, dt->getIntegerBitWidth());
    default: pathError(S, "unsupported cast");
  }
}

static void takeBranch(State& S, Ref c, const Instruction* I, const std::function<void(State&, bool)>& go) {
  if (isC(c)) { go(S, c->ival != 0); return; }
  BranchRes b = branchOn(S, c);
  if (b.t && b.f) {
    unsigned& cnt = S.st.back().forks[I];
    cnt++;
    // witness-guided exploration: sides without a concrete input are left out (counted as cut)
    if ((optGuided || (cnt > optUnwind && cnt <= optDeep)) && (b.lt.empty() || b.lf.empty())) {
      nCut++; cutWhere.insert("no concrete input: " + whereStr(S));
      if (!b.lt.empty()) { addPc(S, c, std::move(b.lt)); go(S, true); return; }
      if (!b.lf.empty()) { addPc(S, mkNot(c), std::move(b.lf)); go(S, false); return; }
      throw PathEnd{"no concrete input"};
    }
    if (cnt > optUnwind && cnt > optDeep) { nCut++; cutWhere.insert(whereStr(S)); throw PathEnd{"unwind bound"}; }
    nForks++;
    auto N = std::make_unique<State>(S);
    addPc(*N, mkNot(c), std::move(b.lf)); if (b.uf) N->maybe = true;
    go(*N, false);
    work.push_back(std::move(N));
    addPc(S, c, std::move(b.lt)); if (b.ut) S.maybe = true;
    go(S, true);
  } else if (b.t) { addPc(S, c, std::move(b.lt)); go(S, true); }
  else { addPc(S, mkNot(c), std::move(b.lf)); go(S, false); }
}

static void execCall(State& S, CallBase* cb) {
  Frame& F = S.st.back();
  Function* callee = cb->getCalledFunction();
  std::vector<Val> args;
  if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
    switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::experimental_noalias_scope_decl:
        ++F.it; return;
      default: break;
    }
  }
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    Value* av = cb->getArgOperand(i);
    if (av->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
    Val v = opv(F, av);
    if (cb->isByValArgument(i)) {
      Type* t = cb->getParamByValType(i);
      ObjP o = allocObj(S, DL->getTypeAllocSize(t), MemObj::Stack);
      copyMem(S, o->base, concInt(S, v, "pointer"), DL->getTypeAllocSize(t));
      v = mkI(o->base, 64);
    }
    args.push_back(v);
  }
  if (!callee) {
    Value* cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) callee = dyn_cast<Function>(ga->getAliaseeObject());
    else callee = dyn_cast<Function>(cv);
    if (!callee) {
      uint64_t a = concInt(S, opv(F, cb->getCalledOperand()), "call target");
      auto it = fnAt.find(a);
      if (it == fnAt.end()) pathError(S, a < 4096 ? "call through null pointer" : "call through invalid pointer");
      callee = it->second;
    }
  }
  std::string n = callee->getName().str();
  Val ret;
  if (callee->isIntrinsic()) {
    auto id = callee->getIntrinsicID();
    auto und = [&](unsigned k) { for (unsigned i = 0; i < k; i++) if (args[i].undef()) return true; return false; };
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: copyMem(S, concInt(S, args[0], "pointer"), concInt(S, args[1], "pointer"), concInt(S, args[2], "size")); break;
      case Intrinsic::memset: callExternal(S, cb, "memset", args, ret); ret = Val(); break;
      case Intrinsic::fabs: if (!und(1)) ret = mkF(Op::FAbs, args[0].r); break;
      case Intrinsic::sqrt: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2:
      case Intrinsic::pow: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint:
      case Intrinsic::exp2: case Intrinsic::copysign: case Intrinsic::maxnum: case Intrinsic::minnum: {
        std::string b = n.substr(5); b = b.substr(0, b.find('.'));
        callExternal(S, cb, b, args, ret); break;
      }
      case Intrinsic::powi: if (!und(2)) ret = mkFun(Fn::Pow, args[0].r, mkToFP(Op::SIToFP, args[1].r)); break;
      case Intrinsic::expect: ret = args[0]; break;
      case Intrinsic::is_constant: ret = mkI(0, 1); break;
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        if (!und(2)) {
          Ref x = args[0].r, y = args[1].r;
          Ref c = (id == Intrinsic::umax || id == Intrinsic::umin) ? mkBin(Op::Ult, x, y) : mkBin(Op::Slt, x, y);
          ret = (id == Intrinsic::umax || id == Intrinsic::smax) ? mkIte(c, y, x) : mkIte(c, x, y);
        } break;
      case Intrinsic::abs: if (!und(1)) { Ref x = args[0].r; ret = mkIte(mkBin(Op::Slt, x, mkI(0, x->width)), mkBin(Op::Sub, mkI(0, x->width), x), x); } break;
      case Intrinsic::ctlz: if (!und(1)) { uint64_t v = concInt(S, args[0], "ctlz"); unsigned w = args[0].r->width; unsigned k = 0; while (k < w && !((v >> (w - 1 - k)) & 1)) k++; ret = mkI(k, w); } break;
      case Intrinsic::is_fpclass: if (!und(1)) { unsigned m = (unsigned)concInt(S, args[1], "mask"); Ref x = args[0].r, inf = mkD(INFINITY), ninf = mkD(-INFINITY), r = mkI(0, 1);
        if (m & ~0x267u & ~0x1f8u || ((m & 3) != 0 && (m & 3) != 3)) pathError(S, "unsupported is_fpclass");
        if ((m & 3) == 3) r = mkOr(r, mkFCmp(Op::FNan, x));
        if (m & 0x200) r = mkOr(r, mkFCmp(Op::FEq, x, inf));
        if (m & 4) r = mkOr(r, mkFCmp(Op::FEq, x, ninf));
        unsigned fin = m & 0x1f8;
        if (fin == 0x1f8) r = mkOr(r, mkAnd(mkFCmp(Op::FLt, ninf, x), mkFCmp(Op::FLt, x, inf)));
        else if (fin == 0x60) r = mkOr(r, mkFCmp(Op::FEq, x, mkD(0)));
        else if (fin == 0x198) r = mkOr(r, mkAnd(mkAnd(mkFCmp(Op::FLt, ninf, x), mkFCmp(Op::FLt, x, inf)), mkNot(mkFCmp(Op::FEq, x, mkD(0)))));
        else if (fin) pathError(S, "unsupported is_fpclass");
        ret = r; } break;
      case Intrinsic::trap: pathError(S, "trap");
      case Intrinsic::stacksave: case Intrinsic::stackrestore: break;
      case Intrinsic::umul_with_overflow: {
        Ref x = args[0].r, y = args[1].r; unsigned w = x->width;
        uint64_t a0 = concInt(S, args[0], "umul"), b0 = concInt(S, args[1], "umul");
        ret.agg = std::make_shared<std::vector<Val>>();
        unsigned __int128 p = (unsigned __int128)a0 * b0;
        ret.agg->push_back(mkI((uint64_t)p, w)); ret.agg->push_back(mkI(p > maskw(w), 1)); (void)y; break;
      }
      case Intrinsic::eh_typeid_for: ret = mkI(1, 32); break;
      default: pathError(S, "unsupported intrinsic " + n);
    }
  } else if (callee->isDeclaration()) {
    if (!callExternal(S, cb, n, args, ret)) {
      stubsUsed.insert(n);
      pathError(S, "unmodelled external function " + demang(n));
    }
    if (n.rfind("sx_", 0) != 0) stubsUsed.insert(n);
  } else {
    pushFrame(S, callee, args);
    return;
  }
  Frame& F2 = S.st.back();
  if (!cb->getType()->isVoidTy()) setReg(F2, cb, ret);
  if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(S, F2, inv->getNormalDest());
  else ++F2.it;
}

static void step(State& S) {
  Frame& F = S.st.back();
  Instruction* I = &*F.it;
  S.steps++; nSteps++;
  if (S.steps > optMaxSteps) { nCut++; cutWhere.insert("steps: " + whereStr(S)); throw PathEnd{"step bound"}; }
  unsigned opc = I->getOpcode();
  switch (opc) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I);
      uint64_t n = concInt(S, opv(F, ai->getArraySize()), "alloca size");
      ObjP o = allocObj(S, n * DL->getTypeAllocSize(ai->getAllocatedType()), MemObj::Stack);
      F.allocas.push_back(o->base);
      setReg(F, I, mkI(o->base, 64)); ++F.it; return;
    }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(I);
      uint64_t a = concInt(S, opv(F, li->getPointerOperand()), "pointer");
      setReg(S.st.back(), I, loadT(S, a, li->getType())); ++F.it; return;
    }
    case Instruction::Store: {
      auto* si = cast<StoreInst>(I);
      uint64_t a = concInt(S, opv(F, si->getPointerOperand()), "pointer");
      storeT(S, a, si->getValueOperand()->getType(), opv(F, si->getValueOperand())); ++F.it; return;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      const Val& b = opv(F, g->getPointerOperand());
      if (b.undef()) { setReg(F, I, Val()); ++F.it; return; }
      Ref r = b.r; bool und = false;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        if (auto* st = gi.getStructTypeOrNull()) {
          unsigned k = cast<ConstantInt>(gi.getOperand())->getZExtValue();
          r = mkBin(Op::Add, r, mkI(DL->getStructLayout(st)->getElementOffset(k), 64));
        } else {
          const Val& ix = opv(F, gi.getOperand());
          if (ix.undef()) { und = true; break; }
          r = mkBin(Op::Add, r, mkBin(Op::Mul, mkExt(Op::SExt, ix.r, 64), mkI(DL->getTypeAllocSize(gi.getIndexedType()), 64)));
        }
      }
      setReg(F, I, und ? Val() : Val(r)); ++F.it; return;
    }
    case Instruction::Br: {
      auto* bi = cast<BranchInst>(I);
      if (bi->isUnconditional()) { enterBlock(S, F, bi->getSuccessor(0)); return; }
      Ref c = boolOf(S, opv(F, bi->getCondition()), "branch");
      BasicBlock *t = bi->getSuccessor(0), *f = bi->getSuccessor(1);
      takeBranch(S, c, I, [&](State& X, bool v) { enterBlock(X, X.st.back(), v ? t : f); });
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val v = opv(F, sw->getCondition());
      uint64_t x = concInt(S, v, "switch");
      BasicBlock* to = sw->getDefaultDest();
      for (auto& c : sw->cases()) if (c.getCaseValue()->getZExtValue() == x) { to = c.getCaseSuccessor(); break; }
      enterBlock(S, S.st.back(), to); return;
    }
    case Instruction::Select: {
      const Val& cv = opv(F, I->getOperand(0));
      if (cv.undef()) pathError(S, "uninitialised value decides a select");
      Val a = opv(F, I->getOperand(1)), b = opv(F, I->getOperand(2));
      if (isC(cv.r)) { setReg(F, I, cv.r->ival ? a : b); ++F.it; return; }
      bool isBool = !a.undef() && !b.undef() && a.r && b.r && !a.r->isD() && a.r->width == 1;
      if (isBool) { setReg(F, I, mkIte(cv.r, a.r, b.r)); ++F.it; return; }
      Ref c = cv.r;
      takeBranch(S, c, I, [&](State& X, bool v) { Frame& G = X.st.back(); setReg(G, I, v ? a : b); ++G.it; });
      return;
    }
    case Instruction::Ret: {
      Val v; if (I->getNumOperands()) v = opv(F, I->getOperand(0));
      retTo(S, v); return;
    }
    case Instruction::Call: case Instruction::Invoke: execCall(S, cast<CallBase>(I)); return;
    case Instruction::ICmp: {
      auto* ic = cast<ICmpInst>(I);
      const Val &a = opv(F, I->getOperand(0)), &b = opv(F, I->getOperand(1));
      if (a.undef() || b.undef()) { setReg(F, I, Val()); ++F.it; return; }
      Ref x = a.r, y = b.r, r = nullptr;
      switch (ic->getPredicate()) {
        case CmpInst::ICMP_EQ: r = mkBin(Op::Eq, x, y); break;
        case CmpInst::ICMP_NE: r = mkNot(mkBin(Op::Eq, x, y)); break;
        case CmpInst::ICMP_ULT: r = mkBin(Op::Ult, x, y); break;
        case CmpInst::ICMP_ULE: r = mkBin(Op::Ule, x, y); break;
        case CmpInst::ICMP_UGT: r = mkBin(Op::Ult, y, x); break;
        case CmpInst::ICMP_UGE: r = mkBin(Op::Ule, y, x); break;
        case CmpInst::ICMP_SLT: r = mkBin(Op::Slt, x, y); break;
        case CmpInst::ICMP_SLE: r = mkBin(Op::Sle, x, y); break;
        case CmpInst::ICMP_SGT: r = mkBin(Op::Slt, y, x); break;
        default: r = mkBin(Op::Sle, y, x); break;
      }
      setReg(F, I, r); ++F.it; return;
    }
    case Instruction::FCmp: {
      auto* fc = cast<FCmpInst>(I);
      const Val &a = opv(F, I->getOperand(0)), &b = opv(F, I->getOperand(1));
      if (a.undef() || b.undef()) { setReg(F, I, Val()); ++F.it; return; }
      Ref x = a.r, y = b.r, r = nullptr;
      auto LT = [](Ref p, Ref q) { return mkFCmp(Op::FLt, p, q); };
      auto LE = [](Ref p, Ref q) { return mkFCmp(Op::FLe, p, q); };
      auto UNO = [&]() { return mkOr(mkFCmp(Op::FNan, x), mkFCmp(Op::FNan, y)); };
      switch (fc->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = mkFCmp(Op::FEq, x, y); break;
        case CmpInst::FCMP_UNE: r = mkNot(mkFCmp(Op::FEq, x, y)); break;
        case CmpInst::FCMP_OLT: r = LT(x, y); break;
        case CmpInst::FCMP_OLE: r = LE(x, y); break;
        case CmpInst::FCMP_OGT: r = LT(y, x); break;
        case CmpInst::FCMP_OGE: r = LE(y, x); break;
        case CmpInst::FCMP_ULT: r = gMode == Mode::REAL ? LT(x, y) : mkNot(LE(y, x)); break;
        case CmpInst::FCMP_ULE: r = gMode == Mode::REAL ? LE(x, y) : mkNot(LT(y, x)); break;
        case CmpInst::FCMP_UGT: r = gMode == Mode::REAL ? LT(y, x) : mkNot(LE(x, y)); break;
        case CmpInst::FCMP_UGE: r = gMode == Mode::REAL ? LE(y, x) : mkNot(LT(x, y)); break;
        case CmpInst::FCMP_ONE: r = mkOr(LT(x, y), LT(y, x)); break;
        case CmpInst::FCMP_UEQ: r = mkNot(mkOr(LT(x, y), LT(y, x))); break;
        case CmpInst::FCMP_ORD: r = mkNot(UNO()); break;
        case CmpInst::FCMP_UNO: r = UNO(); break;
        case CmpInst::FCMP_TRUE: r = mkI(1, 1); break;
        default: r = mkI(0, 1); break;
      }
      setReg(F, I, r); ++F.it; return;
    }
    case Instruction::FNeg: { const Val& a = opv(F, I->getOperand(0)); setReg(F, I, a.undef() ? Val() : Val(mkF(Op::FNeg, a.r))); ++F.it; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      const Val &a = opv(F, I->getOperand(0)), &b = opv(F, I->getOperand(1));
      if (a.undef() || b.undef()) { setReg(F, I, Val()); ++F.it; return; }
      Op o = opc == Instruction::FAdd ? Op::FAdd : opc == Instruction::FSub ? Op::FSub : opc == Instruction::FMul ? Op::FMul : opc == Instruction::FDiv ? Op::FDiv : Op::FRem;
      setReg(F, I, mkF(o, a.r, b.r)); ++F.it; return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      const Val &a = opv(F, I->getOperand(0)), &b = opv(F, I->getOperand(1));
      if (a.undef() || b.undef()) { setReg(F, I, Val()); ++F.it; return; }
      Op o = Op::Add;
      switch (opc) {
        case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break; case Instruction::UDiv: o = Op::UDiv; break;
        case Instruction::SDiv: o = Op::SDiv; break; case Instruction::URem: o = Op::URem; break; case Instruction::SRem: o = Op::SRem; break;
        case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break;
        case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break;
        default: break;
      }
      if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) {
        if (isC(b.r) && b.r->ival == 0) pathError(S, "integer division by zero");
        if (!isC(b.r)) {
          Ref z = mkBin(Op::Eq, b.r, mkI(0, b.r->width));
          BranchRes br = branchOn(S, z);
          if (br.t) {
            State T = S; addPc(T, z, std::move(br.lt));
            try { pathError(T, "integer division by zero"); } catch (PathEnd&) {}
            if (!br.f) throw PathEnd{"div0"};
            addPc(S, mkNot(z), std::move(br.lf));
          }
        }
      }
      Frame& G = S.st.back();
      setReg(G, I, mkBin(o, opv(G, I->getOperand(0)).r, opv(G, I->getOperand(1)).r)); ++G.it; return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
      setReg(F, I, castVal(S, opc, opv(F, I->getOperand(0)), I->getType())); ++F.it; return;
    case Instruction::Freeze: setReg(F, I, opv(F, I->getOperand(0))); ++F.it; return;
    case Instruction::ExtractValue: {
      Val v = opv(F, I->getOperand(0));
      for (unsigned k : cast<ExtractValueInst>(I)->indices()) { if (v.undef()) break; v = Val((*v.agg)[k]); }
      setReg(F, I, v); ++F.it; return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      Val v = opv(F, I->getOperand(0)); if (v.undef()) v = undefOf(I->getType());
      std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val x, ArrayRef<unsigned> ix) {
        if (ix.empty()) return opv(F, iv->getInsertedValueOperand());
        Val y; y.agg = std::make_shared<std::vector<Val>>(*x.agg);
        (*y.agg)[ix[0]] = ins((*x.agg)[ix[0]], ix.slice(1));
        return y;
      };
      setReg(F, I, ins(v, iv->getIndices())); ++F.it; return;
    }
    case Instruction::Unreachable: pathError(S, "reached unreachable code (missing return or undefined behaviour)");
    default: {
      std::string s; raw_string_ostream os(s); I->print(os);
      pathError(S, "unsupported instruction " + s);
    }
  }
}

// run one state to completion
static void runState(std::unique_ptr<State> S, size_t baseDepth) {
  try {
    while (S->st.size() > baseDepth) {
      step(*S);
      if ((S->steps & 4095) == 0 && elapsed() > optWall) { nPending++; return; }
    }
    nPaths++;
    if (baseDepth == 0 && !S->samples.empty()) {   // reservoir of completed paths with a concrete witness
      nWitnessed++;
      size_t slot = witnesses.size() < optWit ? witnesses.size() : rng() % nWitnessed;
      if (slot < optWit) {
        Finding f; f.kind = "witness"; fillInputs(f, gSamples[S->samples[0]].v, *S);
        if (slot == witnesses.size()) witnesses.push_back(f); else witnesses[slot] = f;
      }
    }
  } catch (PathEnd& e) {
    nPaths++;
    if (optVerbose) fprintf(stderr, "path end: %s [%s]\n", e.why.c_str(), whereStr(*S).c_str());
  }
}

static std::string js(const std::string& s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o + "\"";
}

static std::string gEntry, gOut = "-"; static std::atomic<bool> done{false}; static std::mutex dumpMx;
static void dumpJson() {
  std::lock_guard<std::mutex> lk(dumpMx);
  std::ostringstream o;
  o << "{\n\"entry\": " << js(gEntry) << ", \"mode\": \"" << (gMode == Mode::FPX ? "fpx" : gMode == Mode::FPU ? "fpu" : "real") << "\",\n";
  o << "\"paths\": " << nPaths << ", \"cut_paths\": " << nCut << ", \"pending\": " << nPending << ", \"forks\": " << nForks << ", \"instructions\": " << nSteps
    << ", \"assume_cut\": " << nAssumeCut << ",\n";
  o << "\"unwind\": " << optUnwind << ", \"query_timeout_ms\": " << optTimeout << ", \"symbols\": " << gSyms.size() << ", \"exprs\": " << gExprCount << ",\n";
  o << "\"queries\": " << gStats.queries << ", \"unsat\": " << gStats.unsat << ", \"sat\": " << gStats.sat << ", \"unknown\": " << gStats.unknown
    << ", \"ring_decided\": " << gRingDecided << ", \"structural\": " << gStats.structural << ", \"solver_s\": " << gStats.seconds << ", \"max_query_s\": " << gStats.maxSeconds << ",\n";
  o << "\"cross_ok\": " << gCrossOk << ", \"cross_unknown\": " << gCrossUnknown << ", \"cross_bad\": " << gCrossBad << ", \"wall_s\": " << elapsed() << ",\n";
  o << "\"asserts\": {"; bool first = true;
  for (auto& a : asserts) {
    o << (first ? "" : ",") << "\n " << js(a.first) << ": {\"reached\": " << a.second.reached << ", \"proved\": " << a.second.proved << ", \"structural\": " << a.second.structural
      << ", \"violated\": " << a.second.violated << ", \"undecided\": " << a.second.undecided << ", \"witnessed\": " << a.second.witnessed << "}"; first = false;
  }
  o << "},\n\"reach\": {"; first = true;
  for (auto& a : reaches) { o << (first ? "" : ",") << js(a.first) << ": " << a.second; first = false; }
  auto dumpF = [&](const std::vector<Finding>& fs) {
    bool ff = true;
    for (auto& f : fs) {
      o << (ff ? "" : ",") << "\n {\"kind\": " << js(f.kind) << ", \"msg\": " << js(f.msg) << ", \"where\": " << js(f.where) << ", \"inputs\": {"; ff = false;
      bool g = true; for (auto& p : f.inputs) { o << (g ? "" : ", ") << js(p.first) << ": " << js(p.second); g = false; }
      o << "}, \"choices\": ["; g = true; for (auto& p : f.choices) { o << (g ? "" : ", ") << "[" << js(p.first) << ", " << p.second << "]"; g = false; }
      o << "]}";
    }
  };
  o << "},\n\"findings\": ["; dumpF(findings); o << "],\n\"undecided\": ["; dumpF(undecided); o << "],\n\"witnesses\": ["; dumpF(witnesses); o << "],\n\"witnessed_paths\": " << nWitnessed << ",\n\"functions\": ["; first = true;
  for (auto& f : fnsExecuted) { std::string d = demang(f); if (d.rfind("std::", 0) == 0 || d.rfind("__gnu", 0) == 0 || d.find("std::") < d.find('(') || d.rfind("h_", 0) == 0) continue; o << (first ? "" : ", ") << js(d); first = false; }
  o << "],\n\"stubs\": ["; first = true; for (auto& f : stubsUsed) { o << (first ? "" : ", ") << js(f); first = false; }
  o << "],\n\"cut_where\": ["; first = true; for (auto& f : cutWhere) { o << (first ? "" : ", ") << js(f); first = false; }
  o << "]}\n";
  if (gOut == "-") std::cout << o.str(); else { std::ofstream f(gOut); f << o.str(); }
}
static int mainArgc; static char** mainArgv;
static int realMain(int argc, char** argv) {
  std::string file, entry, out = "-";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--mode") { std::string m = nx(); gMode = m == "fpx" ? Mode::FPX : m == "real" ? Mode::REAL : Mode::FPU; }
    else if (a == "--unwind") optUnwind = stoul(nx());
    else if (a == "--timeout") optTimeout = stoul(nx());
    else if (a == "--wall") optWall = stod(nx());
    else if (a == "--steps") optMaxSteps = stoul(nx());
    else if (a == "--paths") optMaxPaths = stoul(nx());
    else if (a == "--samples") optSamples = stoul(nx());
    else if (a == "--dag") gMaxDag = stoul(nx());
    else if (a == "--search") optSearch = stoul(nx());
    else if (a == "--seed") rng.seed(stoul(nx()));
    else if (a == "--deep") optDeep = stoul(nx());
    else if (a == "--guided") optGuided = true;
    else if (a == "--cross") gCrossCheck = true;
    else if (a == "-v") optVerbose = true;
    else file = a;
  }
  gEntry = entry; gOut = out;
  T0 = std::chrono::steady_clock::now();
  // a normal-form computation or solver call that ignores its time limit must not lose the results so far
  std::thread([]() {
    while (!done && elapsed() < optWall * 1.2 + 10) std::this_thread::sleep_for(std::chrono::milliseconds(200));
    if (done) return;
    nPending++; dumpJson(); fflush(stdout); _exit(0);
  }).detach();
  LLVMContext ctx; SMDiagnostic err;
  M = parseIRFile(file, err, ctx);
  if (!M) { err.print("symex", errs()); return 3; }
  DL = &M->getDataLayout();
  solverInit();
  initSamples();
  auto S = std::make_unique<State>();
  for (size_t i = 0; i < gSamples.size(); i++) S->samples.push_back(i);
  // addresses
  uint64_t fa = 0x100000;
  for (auto& f : *M) { gaddr[&f] = fa; fnAt[fa] = &f; fa += 16; }
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    ObjP o = allocObj(*S, sz, MemObj::Global, g.getName().str());
    gaddr[&g] = o->base;
  }
  for (auto& g : M->globals()) if (g.hasInitializer()) {
    storeT(*S, gaddr[&g], g.getValueType(), constVal(g.getInitializer()));
  } else if (!g.isDeclaration() || true) {
    // external data (vtables of the C++ runtime): leave undefined
  }
  for (auto& g : M->globals()) if (g.isConstant()) S->mem[gaddr[&g]]->ro = true;
  Function* ef = M->getFunction(entry);
  if (!ef) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  // global constructors run first
  std::vector<Function*> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& o : ca->operands()) if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1))) ctors.push_back(f);
  for (Function* f : ctors) {
    pushFrame(*S, f, {});
    try { while (!S->st.empty()) step(*S); } catch (PathEnd& e) { fprintf(stderr, "constructor %s failed: %s\n", f->getName().str().c_str(), e.why.c_str()); return 3; }
  }
  S->steps = 0;
  pushFrame(*S, ef, {});
  work.push_back(std::move(S));
  while (!work.empty()) {
    if (elapsed() > optWall || nPaths >= optMaxPaths) { nPending += work.size(); break; }
    // depth first, but take a random pending state now and then when the frontier is large
    size_t pick = work.size() - 1;
    if (optGuided) pick = rng() % work.size();
    else if (work.size() > 64 && rng() % 8 == 0) pick = rng() % work.size();
    else for (size_t n = 0; n < 32 && n < work.size(); n++) if (!work[work.size() - 1 - n]->samples.empty()) { pick = work.size() - 1 - n; break; }
    std::swap(work[pick], work.back());
    auto X = std::move(work.back()); work.pop_back();
    runState(std::move(X), 0);
  }
  done = true;
  dumpJson();
  return 0;
}
static int rcode;
static void* thr(void*) { rcode = realMain(mainArgc, mainArgv); return nullptr; }
int main(int argc, char** argv) {
  mainArgc = argc; mainArgv = argv;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30);
  pthread_t t; pthread_create(&t, &at, thr, nullptr); pthread_join(t, nullptr);
  fflush(stdout); _exit(rcode);
}
