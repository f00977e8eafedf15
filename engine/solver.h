#pragma once
#include "expr.h"
#include <map>
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
struct Model {
    std::map<uint32_t, std::string> val;  // var id -> textual value (integer decimal, or hex float for fp/real)
    std::map<uint32_t, double> d;
    std::map<uint32_t, uint64_t> u;
};
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, identities = 0, identityTerms = 0, intervalHits = 0;
    double time = 0, identityTime = 0;
};
extern SolverStats g_ss;
extern int g_timeoutMs, g_branchMs;
extern bool g_verbose;
// satisfiability of /\ pc /\ extra ; pc is sliced with respect to extra when `slice`
Res checkSat(const std::vector<Expr*>& pc, Expr* extra, Model* m, bool slice = true, int timeoutMs = 0);
// proves a polynomial / rational identity a == b over the reals (exact normalisation)
bool proveEqReal(Expr* a, Expr* b);
