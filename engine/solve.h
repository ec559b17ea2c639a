#pragma once
#include "expr.h"
#include <string>
enum class Res { UNSAT, SAT, UNKNOWN };
struct SolveStats { uint64_t queries = 0, unsat = 0, sat = 0, unknown = 0; double seconds = 0, maxSeconds = 0; uint64_t structural = 0; };
extern SolveStats gStats;
extern bool gCrossCheck;              // dump every UNSAT query and confirm with a second solver
extern uint64_t gCrossOk, gCrossUnknown, gCrossBad;
// Decides the conjunction.  On SAT fills model with one value per symbol (best effort in REAL mode).
Res solveConj(const std::vector<Ref>& conj, std::vector<uint64_t>* model, unsigned timeoutMs);
void solverInit();
