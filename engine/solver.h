// SMT back end: translates Expr DAGs to z3, with slicing, caching and model reuse.
#pragma once
#include "expr.h"
#include <map>
#include <memory>

enum class SR { Sat, Unsat, Unknown };

struct SolverStats {
  uint64_t queries = 0;      // decided satisfiability questions
  uint64_t smt = 0;          // of which sent to z3
  uint64_t cacheHits = 0, modelHits = 0;
  uint64_t sat = 0, unsat = 0, unknown = 0;
  double seconds = 0, maxSeconds = 0;
};
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
extern std::string g_dumpDir;

void solverInit();
// Decide sat(cons). On Sat (and model != null) the model covers the variables of cons.
SR solverCheck(const std::vector<E> &cons, Model *model);
// Slice of pc relevant to `extra` (variable-connected)
void relevantSlice(const std::vector<E> &pc, E extra, std::vector<E> &out);
