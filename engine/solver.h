#pragma once
#include "expr.h"
#include <unordered_map>
#include <map>

struct SolverStats {
  uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
  uint64_t usec = 0, fpcalls = 0, retries = 0, lia = 0;
};

// Bit set of variable ordinals an expression mentions.
typedef std::vector<uint64_t> VarSet;
const VarSet& varsOf(E e);
inline bool intersects(const VarSet& a, const VarSet& b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true;
  return false;
}
inline bool subset(const VarSet& a, const VarSet& b) {
  for (size_t i = 0; i < a.size(); i++) if (a[i] & ~(i < b.size() ? b[i] : 0)) return false;
  return true;
}
inline void unite(VarSet& a, const VarSet& b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) a[i] |= b[i];
}

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

class Solver {
 public:
  Solver();
  void reset();  // fresh z3 context (used in forked children)
  // Is (cons and cond) satisfiable?  `model` satisfies cons on entry (may be stale for cond);
  // on SAT it is updated to satisfy cons and cond.
  Res check(const std::vector<E>& cons, E cond, std::vector<u128>& model);
  SolverStats stats;
  unsigned rlimit = 0;
  std::string dumpSmt2(const std::vector<E>& cons, E cond);
  // cross-check sampling: called with each decided query
  void (*crossHook)(const std::string& smt2, bool sat) = nullptr;
  uint64_t crossEvery = 0;

 private:
  Z3_ast tr(E e);
  Z3_ast trFP(E e);
  Z3_context ctx;
  Z3_solver slv;
  unsigned gen = 0;
  std::vector<const Expr*> translated;
  struct Cached { Res r; std::vector<std::pair<uint32_t, u128>> model; };
  struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
  std::unordered_map<std::vector<uint32_t>, Cached, KeyHash> cache;
};
