#pragma once
#include "expr.hpp"
#include <set>
#include <utility>

enum class R { Sat, Unsat, Unknown };

struct PathCond {
    std::vector<E> cons;                              // every constraint, in order
    std::vector<std::pair<u32, Bits256>> dom;         // remaining values of narrow variables with unary constraints
    std::vector<u32> mixedVars;                       // variables occurring in non-unary constraints (sorted)
    bool add(E c);                                    // false if trivially unsatisfiable
    const Bits256* domain(u32 var) const;
};

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, tableHits = 0, modelHits = 0, assertQueries = 0;
    double seconds = 0, maxQuery = 0;
};
extern SolverStats gStats;
extern unsigned gTimeoutMs;
extern std::string gDumpDir; // when set, assertion queries are dumped as SMT-LIB 2
extern unsigned gDumpMax;

// is cons(slice) && extra satisfiable?  On Sat, patches `m` (which satisfied cons before).
// The model must satisfy cons. fullPath: use every constraint.
R solve(const PathCond& pc, E extra, Model& m, bool isAssert = false, unsigned timeoutMs = 0);
