#pragma once
#include "expr.h"
#include <memory>
#include <z3.h>
typedef std::vector<uint64_t> Model;
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; };
struct Solver {
  Z3_context ctx = nullptr;
  Z3_solver s = nullptr;
  uint64_t nlits = 0;
  uint64_t rlimit = 60000000;
  SolverStats st;
  std::vector<Ex> litExprs;
  std::vector<Ex> trans; // translated nodes (to reset)
  void init();
  void reset();
  Z3_ast bv(Ex e);
  Z3_ast boolean(Ex e);
  // 1 sat (model filled), 0 unsat, -1 unknown
  int check(const std::vector<Ex> &pc, Ex extra, Model *m);
  std::string dump(const std::vector<Ex> &pc, Ex extra);
};
