// Interface between harnesses and the symbolic executor (or, natively, the replay runtime).
#pragma once
extern "C" {
double sx_double(const char* name, double lo, double hi);   // arbitrary double in [lo, hi]
int sx_int(const char* name, int lo, int hi);               // arbitrary int in [lo, hi] (symbolic)
int sx_choose(const char* name, int n);                     // arbitrary 0..n-1 (one path each)
void sx_assume(bool c);
void sx_assert(bool c, const char* label);
void sx_close(double a, double b, double rel, double abs, const char* label);  // equal as reals
void sx_same(double a, double b, const char* label);        // same double
void sx_reach(const char* label);                           // vacuity witness
int sx_native();
void sx_stop();
}
#define HARNESS extern "C" void
