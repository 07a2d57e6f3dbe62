// Problem generator and independent truth oracle (uses nothing of the library).
#pragma once
#include "core.h"
struct Problem {
  std::string kind; int n = 0, m = 0, p = 0; u64 seed = 0; int expz = 0;
  std::vector<double> P, G, A, c, h, b;          // dense, column major
  std::vector<u8> zP, zG, zA;                    // entries stored explicitly although zero (sparse form)
  u64 jumble = 0;                                // order of the entries within the columns of the sparse form, if not ascending
  bool wellposed = false;                        // strictly convex, strictly feasible, well scaled
  bool has_nan = false;
};
Problem make_problem(const std::string &kind, int n, int m, int p, u64 seed, int expz, u64 var = 0);
extern const std::vector<std::string> problem_kinds;
static const u64 problem_reordered = 1 << 20;   // bit of var
struct Csc { std::vector<long> jc, ir; std::vector<double> pr; };
Csc to_csc(int r, int c, const std::vector<double> &d, const std::vector<u8> &z, u64 jumble = 0);
std::vector<double> row_major(int r, int c, const std::vector<double> &d);
// checks a claim of optimality; returns "" if it is true
std::string truth_optimal(const Problem &q, bool useA, const double *x, const double *y, const double *z, const double *s, double fval, double reltol, double abstol);
std::string truth_stats(const Problem &q, const double *x, const double *y, const double *z, const double *s, const double *st);
int method_iterations(const Problem &q, bool useA, double reltol, double abstol, double sigma, int limit);
