#pragma once
#include "expr.h"
#include <vector>
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double time = 0; };
extern SolverStats g_ss;
extern unsigned g_rlimit;            // per-query z3 resource limit (branch queries)
extern unsigned g_rlimit_assert;     // for assertion queries
void solverInit();
void solverAfterFork();
// is pc /\ q satisfiable?  On SAT fills model (indexed by var index).
// precise=false: floating-point operations are uninterpreted (over-approximation).
SatRes solve(const std::vector<Expr *> &pc, Expr *q, std::vector<u128> *model, bool precise, unsigned rlimit);
bool anyFp(const std::vector<Expr *> &pc, Expr *q);
