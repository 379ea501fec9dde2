#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fallback = 0, crossChecked = 0;
  double time = 0, maxTime = 0;
  u64 assertQueries = 0;
};
struct SolverOpts { bool relaxed = false; unsigned timeoutMs = 20000; bool cross = false; std::string dumpDir; unsigned fallbackMs = 60000; bool bvNative = false; };
struct Model { Assignment as; bool exact = false; };
class Solver {
 public:
  SolverOpts opt; SolverStats st;
  Solver();
  // is (and pc) /\ cond satisfiable?
  Res check(const std::vector<E> &pc, E cond, Model *m);
  std::string lastError;
 private:
  struct Impl; Impl *im;
};
