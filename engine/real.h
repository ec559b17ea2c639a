#pragma once
#include "solve.h"
namespace z3 { class context; }
void realInit(z3::context* c);
Res solveReal(const std::vector<Ref>& conj, std::vector<uint64_t>* model, unsigned timeoutMs);
