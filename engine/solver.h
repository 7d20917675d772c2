#pragma once
#include "expr.h"
#include <set>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fallback = 0;
    double seconds = 0, maxSeconds = 0;
    uint64_t fpQueries = 0, fast = 0, confirmed = 0, mismatch = 0, confirmTimeout = 0, order = 0;
    double confirmSeconds = 0;
};
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
extern bool g_debugSolver;

// Is the conjunction of cs satisfiable?  On Sat the model of every symbol that
// occurs in cs is stored in m.
Res solve(const std::vector<Expr *> &cs, Model *m);
void solverReset();

// the MiniSat front line (blast.cpp); Unknown when the budget runs out
Res blastSolve(const std::vector<Expr *> &cs, const std::set<uint32_t> &syms, Model *m, int64_t conflicts);
void blastReset();
// comparisons only (order.cpp)
// the constraints with what earlier ones tell put into later ones; {0} when they contradict each other
std::vector<Expr *> withFacts(const std::vector<Expr *> &cs, bool &changed);
Res orderSolve(const std::vector<Expr *> &cs, const std::set<uint32_t> &syms, Model *m);
extern bool g_confirm;      // the next query decides an assertion: have Z3 confirm an unsat verdict
