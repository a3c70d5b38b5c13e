#pragma once
#include "expr.h"
#include <unordered_map>
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, ns = 0, escalated = 0; };
extern SolverStats gStats;   // per-process deltas, flushed by the interpreter
extern unsigned gRlimit;
extern const char *gDumpDir;  // when set, dump a sample of queries as SMT-LIB2

struct PathCond {
  std::vector<E> cons;
  std::vector<std::vector<uint32_t>> csyms;
  std::unordered_map<uint32_t, std::vector<uint32_t>> bySym;
  std::unordered_map<E, bool> known;   // literals asserted
  Model cur;                            // always satisfies cons
  bool contradiction = false;

  // add a constraint that is known to be consistent with cons; m (if given) is
  // a model of slice+c used to repair cur when cur does not satisfy c.
  void add(E c, const Model *m = nullptr, const std::vector<uint32_t> *msyms = nullptr);
  // is cons && c satisfiable?  On SAT fills m / msyms (symbols of the slice).
  Res check(E c, Model *m, std::vector<uint32_t> *msyms);
  bool may(E c, bool *unknown = nullptr);
};
void solverInit();
