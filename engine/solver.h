#pragma once
#include "expr.h"
#include <map>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats {
    uint64_t queries = 0, z3_queries = 0, cache_hits = 0, model_hits = 0, sat = 0, unsat = 0, unknown = 0, external = 0;
    double time = 0;
};
extern SolverStats g_solver_stats;
extern unsigned g_query_timeout_ms;
extern unsigned g_ext_timeout_s;
extern std::string g_scratch_dir;
// Decide the conjunction of 'cs'. On Sat, 'model' assigns the variables.
Res solverCheck(const std::vector<E> &cs, Assignment *model, bool final_query = false);
