#pragma once
#include "expr.h"
#include <vector>
#include <cstdint>
enum SRes { S_SAT, S_UNSAT, S_UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, z3Queries = 0, sat = 0, unsat = 0, unknown = 0, fresh = 0; double time = 0; double maxTime = 0; };
extern SolverStats gSolverStats;
// Is (constraints /\ q) satisfiable?  base satisfies constraints; on SAT *out satisfies constraints /\ q.
SRes solverCheck(const std::vector<E>& constraints, E q, const ModelP& base, ModelP* out, unsigned timeoutMs);
void solverInit();
