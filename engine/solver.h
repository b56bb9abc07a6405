// Z3 back end: independent-constraint slicing, caching, model reuse.
#pragma once
#include "term.h"
#include <functional>
#include <set>

namespace sx {
enum class Sat { Yes, No, Unknown };
struct SolverStats { uint64_t queries = 0, hits = 0, modelHits = 0, unknown = 0, sat = 0, unsat = 0; double secs = 0; };
extern SolverStats gStats;
extern unsigned gQueryTimeoutMs;
extern double gDeadline;  // absolute, seconds (monotonic)
double nowSecs();

// Is (pc and cond) satisfiable? On Yes, *model (if given) is a full model of pc and cond.
Sat solve(const std::vector<T>& pc, T cond, Model* model, const Model* hint = nullptr, unsigned timeoutMs = 0);
// raw check without slicing (used by the equivalence engine)
Sat solveRaw(const std::vector<T>& cs, Model* model, unsigned timeoutMs);
}  // namespace sx
