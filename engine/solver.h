#pragma once
#include "expr.h"
#include <memory>
namespace sx {
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
  double seconds = 0, maxQuery = 0;
  uint64_t dumped = 0;
};
extern SolverStats gSolver;
void solverInit(unsigned timeoutMs, const std::string& dumpDir, unsigned dumpEvery);
// Is (conj of constraints sharing variables with cond, transitively) & cond satisfiable?
// On SAT *m receives values for the variables of that slice.
SatRes solveSlice(const std::vector<E>& constraints, E cond, Model* m);
}  // namespace sx
