#pragma once
#include "expr.h"
#include <functional>
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, model_hits = 0, fp_queries = 0, int_queries = 0, real_queries = 0;
    double time = 0, max_time = 0;
};
extern SolverStats g_ss;
extern unsigned g_query_timeout_ms;
extern std::string g_dump_dir;
void solverInit();
/// Is conj(slice) satisfiable?  On SAT `out` holds values for the variables of the slice.
Res solverCheck(const std::vector<E>& conj, Model* out);
/// constraints of `pc` transitively sharing variables with q
std::vector<E> sliceFor(const std::vector<E>& pc, E q);
