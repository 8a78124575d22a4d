#pragma once
#include "expr.h"
#include <memory>
#include <vector>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats
{
   uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fpQueries = 0, external = 0, cross = 0,
            crossDisagree = 0, crossInconclusive = 0;
   double seconds = 0, maxSeconds = 0, crossSeconds = 0;
};
extern SolverStats gStats;
extern unsigned gQueryTimeoutMs;    // in-process limit
extern unsigned gExternTimeoutS;    // limit for the external portfolio (0 = off)
extern unsigned gCrossEvery;        // cross-check every n-th query with a second solver (0 = off)
extern double gSolverBudgetS;       // total budget

// Is (pc and extra) satisfiable?  When Sat, *m satisfies the slice, merged over base.
// exact=false: the model satisfies the abstraction of the checksum function only.
Res solve( const std::vector<E> &pc, const std::vector<E> &extra, const Model *base, Model *m, bool *exact );
