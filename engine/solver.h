// Decides satisfiability of conjunctions of width-1 Exprs with Z3 (bit-vectors; floating point lazily refined, then exact FPA).
#pragma once
#include "expr.h"
enum class Res
{
    Sat,
    Unsat,
    Unknown
};
struct SolverStats
{
    u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fpQueries = 0, fpPrecise = 0, validationFailures = 0, order = 0;
    double seconds = 0;
};
extern SolverStats g_sstats;
extern unsigned g_queryTimeoutMs;
// conjunction; on Sat fills m.v with values for every symbol occurring in cs
Res solve(const std::vector<Expr *> & cs, Model & m);
// keep only constraints of pc that share (transitively) symbols with e
void slice(const std::vector<Expr *> & pc, Expr * e, std::vector<Expr *> & out);
