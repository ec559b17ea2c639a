// Replay runtime: reads the solver's assignment and evaluates the same harness natively.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, double> vals; static std::vector<std::pair<std::string, long>> ch; static size_t ci; static std::map<std::string, unsigned> cnt;
static bool loaded;
static void load() {
  if (loaded) return; loaded = true;
  const char* fn = getenv("SX_REPLAY"); FILE* f = fn ? fopen(fn, "r") : nullptr; if (!f) return;
  char buf[1024];   // "v|c <name, which may have spaces> <value>"
  while (fgets(buf, sizeof buf, f)) {
    std::string l = buf; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
    size_t e = l.rfind(' '); if (l.size() < 4 || e == std::string::npos || e < 2) continue;
    std::string name = l.substr(2, e - 2); const char* val = l.c_str() + e + 1;
    if (l[0] == 'v') vals[name] = strtod(val, nullptr); else ch.push_back({name, atol(val)});
  }
  fclose(f);
}
static std::string uniq(const char* n) { std::string s = n; unsigned k = cnt[s]++; if (k) s += "#" + std::to_string(k); return s; }
extern "C" {
double sx_double(const char* n, double lo, double hi) { load(); auto s = uniq(n); auto i = vals.find(s); return i == vals.end() ? lo + (hi - lo) * 0.5 : i->second; }
int sx_int(const char* n, int lo, int hi) { load(); auto s = uniq(n); auto i = vals.find(s); return i == vals.end() ? lo : (int)i->second; }
int sx_choose(const char* n, int k) { load(); if (ci < ch.size()) return (int)ch[ci++].second; return 0; }
void sx_assume(bool c) { if (!c) { printf("SX_ASSUME_FALSE\n"); fflush(stdout); _Exit(0); } }
static void fail(const char* l) { printf("SX_ASSERT_FAIL %s\n", l); fflush(stdout); _Exit(42); }
void sx_assert(bool c, const char* l) { if (!c) fail(l); }
void sx_close(double a, double b, double rel, double ab, const char* l) {
  if (a != a && b != b) return;
  if (!(std::fabs(a - b) <= ab + rel * (std::fabs(a) + std::fabs(b)))) { printf("  left %.17g right %.17g\n", a, b); fail(l); }
}
void sx_same(double a, double b, const char* l) { if (!(a == b || (a != a && b != b))) { printf("  left %.17g right %.17g\n", a, b); fail(l); } }
void sx_reach(const char*) {}
int sx_native() { return 1; }
void sx_stop() { _Exit(0); }
}
#ifndef SX_ENTRY
#error
#endif
extern "C" void SX_ENTRY();
int main() { SX_ENTRY(); printf("SX_OK\n"); return 0; }
