#pragma once
#include "term.h"
#include <z3.h>
struct SolverStats { u64 cached = 0; u64 queries = 0, sat = 0, unsat = 0, unknown = 0, exact = 0; double time = 0; };
extern SolverStats SST;
bool isAbsNode(const Node& x);
struct Solver {
  Z3_context ctx = nullptr; Z3_solver s = nullptr;
  std::vector<T> stack;
  std::vector<Z3_ast> memo[3]; bool usedAbs = false;
  std::map<u64, Z3_func_decl> decls; std::map<std::string,u32> dummy;
  std::vector<u8> absMemo; bool hasAbs(T t);
  unsigned timeoutMs = 4000;
  Solver(); ~Solver();
  void init(); void fini();
  void reset() { fini(); init(); }
  Z3_ast tr(T t, int exact);
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<T>& pc, T extra, Model* m, const Model* base = nullptr);
  bool hasFp(T t);
  int exactFp(const std::vector<T>& pc, T extra, Model* m); // floating point operations with their IEEE meaning
  void getModel(Z3_solver sv, Model* m);
  const std::vector<u32>& support(T t); std::vector<std::vector<u32>*> supMemo;
  struct CE { int r; std::vector<std::pair<T,u64>> vals; std::map<std::vector<u64>,u64> ufs; std::map<u64,u64> ufElse; std::vector<u32> ufIds; bool hasModel; };
  std::unordered_map<std::string, CE> cache;
};
