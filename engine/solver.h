#pragma once
#include "expr.h"
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, coreHits = 0, intCalls = 0; double z3time = 0; };
extern SolverStats gSS;
extern int gQueryTimeoutMs;
extern const char* gDumpDir; extern int gDumpMax;
// is  (conjunction of the constraints related to cond) /\ cond  satisfiable?  On SAT, m (in: a model of the constraints) is updated into a model of constraints /\ cond.
SatRes solverCheck(const std::vector<Expr*>& pc, Expr* cond, Model& m);
