#pragma once
#include "expr.h"
#include <z3.h>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct Solver {
  Z3_context ctx = nullptr;
  Z3_solver slv = nullptr;
  std::vector<Z3_ast> memo;          // by expression id
  std::unordered_map<uint64_t, Z3_ast> vmemo;
  uint64_t rlimit = 0;
  // statistics
  uint64_t retries = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, hits = 0, asserts = 0;
  double secs = 0, maxsec = 0;
  std::string dumpDir; uint64_t dumpEvery = 0, dumped = 0;
  struct Ent { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::unordered_map<std::string, Ent> cache;
  void init(uint64_t rl);
  Z3_ast tr(E e);
  // conjunction of cs satisfiable?  model for variables of cs returned in m
  Res check(const std::vector<E> &cs, std::vector<std::pair<uint32_t, uint64_t>> &m);
};
