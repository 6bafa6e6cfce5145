// hse: decision procedures over the expression DAG (intervals, z3 in process, external z3/cvc5 portfolio).
#pragma once
#include "expr.hpp"

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

// Interval facts: FP nodes as [lo,hi] + mayNaN, bit-vector nodes as unsigned [lo,hi].
struct FRng { double lo, hi; bool nan; };
struct URng { u64 lo, hi; };
// c + sum coef*leaf, off by at most err (bounds hold for the rounded floating-point value)
struct Aff { bool ok = false; long double c = 0, err = 0; std::vector<std::pair<E, long double>> t; };
struct Ranges {
  bool affine = false;              // also bound sums and scalings by first-order error forms (slower)
  std::unordered_map<E, Aff> amemo; std::unordered_map<E, double> period;   // period: remainder node -> assumed number of whole divisors
  std::unordered_map<E, bool> truth;   // conditions learnt (affine mode only)
  const Aff& aff(E e);              // floating-point node
  Aff affInt(E e);                  // signed value of a bit-vector node
  FRng affRange(const Aff& a);
  std::unordered_map<E, FRng> ffact, fmemo;
  std::unordered_map<E, URng> ufact, umemo;
  void learn(E cond, bool truth);   // record single-node bounds implied by a path constraint
  FRng f(E e);
  URng u(E e);
  int decide(E cond);               // 1 true, 0 false, -1 unknown
  void flush() { fmemo.clear(); umemo.clear(); amemo.clear(); }
};

struct SolverStats { u64 queries, trivial, interval, pool, cache, z3n, extn, relax, sat, unsat, unknown, mismatch; double z3t, extt; u64 ufLemmas; };

struct SolveOpts { double z3Secs = 2, extSecs = 10; E goal = nullptr; };   // goal: the constraint being asked about (the others are known to be satisfiable)

struct Solver {
  SolverStats st{};
  std::string tmpDir, z3bin, cvc5bin;
  std::vector<Model> pool;
  std::unordered_map<std::string, int> cacheUnsat;
  // Decide the conjunction. On SAT the model is validated against the constraints with true libm values.
  Res solve(const std::vector<E>& cs, Model& out, const Model& base, const SolveOpts& o);
  bool dump = false;
 private:
  bool refute(const std::vector<E>& cs, E goal, int depth, const std::unordered_map<E, double>& period);
  bool guess(const std::vector<E>& cs, const std::vector<u32>& vars, const Model& base, Model& out);
  Res z3Query(const std::string& smt, const std::vector<std::string>& names, std::vector<u128>& vals, double secs, bool fp);
  Res z3Try(const std::string& smt, const std::vector<std::string>& names, std::vector<u128>& vals, double secs, const std::vector<const char*>& tactics);
  Res extQuery(const std::string& smt, const std::vector<std::string>& names, std::vector<u128>& vals, double secs);
};
double nowSec();
void collectVars(E e, std::unordered_set<E>& seen, std::vector<u32>& vars);
