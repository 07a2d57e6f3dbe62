#include "problem.h"
#include "harness.h"
#include <cmath>
#include <algorithm>
const std::vector<std::string> problem_kinds = {"strict", "box", "zerorow", "mpc", "psdbox", "lpbox", "degen", "infeas", "unbounded", "scaled", "nan", "duprow", "int", "cone", "mild", "open"};

// small whole numbers, many of them equal or zero: exact ties in every comparison
static void whole(Problem &q, Rng &r, bool cone) {
  int n = q.n, m = q.m, p = q.p, k = (int)r.below(n); bool ident = r.chance(0.5);
  for (int i = 0; i < n; i++) q.P[i * n + i] = ident ? 1 : r.range(1, 3);
  if (r.chance(0.3)) { std::vector<int> v(n); for (auto &e : v) e = r.range(-1, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.P[i * n + j] += v[i] * v[j]; }
  if (!(cone ? r.chance(0.7) : r.chance(0.3))) for (auto &e : q.c) e = r.range(-2, 2);
  std::vector<int> x0(n, 0); if (!cone && r.chance(0.6)) for (auto &e : x0) e = r.range(-1, 1);
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < n; j++) q.G[j * m + i] = r.chance(0.4) ? r.range(-1, 1) : 0;
    if (cone) { q.G[k * m + i] = -1; q.h[i] = 0; }
    else { if (r.chance(0.8)) q.G[r.below(n) * m + i] = r.chance(0.5) ? 1 : -1; int t = 1; for (int j = 0; j < n; j++) t += (int)q.G[j * m + i] * x0[j]; q.h[i] = t; }
  }
  for (int i = 0, j = 0; i < p; i++, j++) {      // trapezoid: independent rows; the cone's inner direction stays free
    if (cone && j == k) j++;
    if (j >= n) { for (int e = 0; e < n; e++) q.A[e * p + i] = 0; continue; }
    q.A[j * p + i] = 1; for (int e = j + 1; e < n; e++) if (!(cone && e == k) && r.chance(0.4)) q.A[e * p + i] = r.range(-1, 1);
    double t = 0; for (int e = 0; e < n; e++) t += q.A[e * p + i] * x0[e]; q.b[i] = t;
  }
}
static double val(Rng &r) { return std::floor(r.sym() * 1000.0) / 256.0; }

Problem make_problem(const std::string &kind, int n, int m, int p, u64 seed, int expz, u64 var) {
  Problem q; Rng r(mix(seed, 0x9909));
  q.kind = kind; q.seed = seed; q.expz = expz;
  if (n < 1) n = 1;
  if (m < 1) m = 1;
  if (p < 0) p = 0;
  bool boxed = kind == "box" || kind == "psdbox" || kind == "lpbox";
  if (boxed) m = 2 * n;
  if (kind == "infeas" && m < 2) m = 2;
  if ((kind == "degen" || kind == "duprow") && m < 2) m = 2;
  if (p > n) p = n;
  q.n = n; q.m = m; q.p = p;
  q.P.assign(n * n, 0); q.G.assign(m * n, 0); q.A.assign(p * n, 0); q.c.assign(n, 0); q.h.assign(m, 0); q.b.assign(p, 0);
  double dens = r.chance(0.5) ? 1.0 : 0.15 + 0.5 * r.uni();
  if (kind == "int" || kind == "cone") {
    if (kind == "cone" && p >= n - 1) { q.p = p = std::max(0, n - 2); q.A.assign(p * n, 0); q.b.assign(p, 0); }
    whole(q, r, kind == "cone"); q.wellposed = !var;
    if (var) { Rng v(mix(seed, var)); for (auto &e : q.c) e = v.range(-2, 2); q.wellposed = true; }
    goto pattern;
  }
  {
  // cost
  if (kind == "lpbox") {}
  else if (kind == "box" && r.chance(0.5)) { for (int i = 0; i < n; i++) q.P[i * n + i] = 0.25 + 2 * r.uni(); }
  else if (kind == "mpc") {
    for (int i = 0; i < n; i++) { q.P[i * n + i] = 2 + r.uni(); if (i) { double v = 0.5 * r.sym(); q.P[i * n + i - 1] = v; q.P[(i - 1) * n + i] = v; } }
  } else {
    int rank = kind == "psdbox" ? std::max(1, n / 2) : n;
    std::vector<double> M(n * rank, 0);
    for (auto &v : M) if (r.chance(dens)) v = val(r) / 2;
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
      double t = 0; for (int k = 0; k < rank; k++) t += M[i * rank + k] * M[j * rank + k];
      t /= rank;
      q.P[i * n + j] = q.P[j * n + i] = t;
    }
    if (kind != "psdbox" && kind != "unbounded") { double dl = 0.25 + r.uni(); for (int i = 0; i < n; i++) q.P[i * n + i] += dl; }
  }
  for (auto &v : q.c) v = val(r);
  std::vector<double> x0(n); for (auto &v : x0) v = r.sym();
  // inequalities, strictly feasible at x0
  if (boxed) {
    for (int i = 0; i < n; i++) { q.G[i * m + i] = 1; q.G[i * m + n + i] = -1; }
  } else if (kind == "mpc") {
    for (int i = 0; i < m; i++) { int j = (int)(((u64)i * n) / m); q.G[j * m + i] = r.chance(0.5) ? 1 : -1; if (j + 1 < n && r.chance(0.5)) q.G[(j + 1) * m + i] = 0.5 * r.sym(); }
  } else {
    for (int i = 0; i < m; i++) { bool any = false; for (int j = 0; j < n; j++) if (r.chance(dens)) { double v = val(r); q.G[j * m + i] = v; any |= v != 0; }
      if (!any) q.G[(int)r.below(n) * m + i] = r.chance(0.5) ? 1 : -1; }
  }
  if (kind == "zerorow" || kind == "degen") for (int i = 0; i < m; i++) if (r.chance(i == 0 ? 0.5 : 0.2)) for (int j = 0; j < n; j++) q.G[j * m + i] = 0;
  if (kind == "zerorow") { int i = (int)r.below(m); for (int j = 0; j < n; j++) q.G[j * m + i] = 0; }
  for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += q.G[j * m + i] * x0[j]; q.h[i] = t + 0.1 + 2 * r.uni(); }
  if (kind == "duprow" || kind == "degen") for (int i = 1; i < m; i++) if (r.chance(0.4)) { int k = (int)r.below(i); for (int j = 0; j < n; j++) q.G[j * m + i] = q.G[j * m + k]; q.h[i] = q.h[k]; }
  // equalities with full row rank by construction: unit lower trapezoid in permuted columns
  std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
  for (int i = 0; i < p; i++) {
    for (int j = 0; j < n; j++) q.A[perm[j] * p + i] = j == i ? 1.0 + r.uni() : j < i ? 0.0 : (r.chance(dens) ? val(r) / 4 : 0.0);
    double t = 0; for (int j = 0; j < n; j++) t += q.A[j * p + i] * x0[j];
    q.b[i] = t;
  }
  if (kind == "degen" && p >= 2) { for (int j = 0; j < n; j++) q.A[j * p + p - 1] = q.A[j * p]; q.b[p - 1] = q.b[0]; }
  if (kind == "infeas") { for (int j = 0; j < n; j++) { q.G[j * m + 1] = -q.G[j * m]; } q.h[1] = -q.h[0] - 1 - r.uni(); }
  if (kind == "unbounded") { for (auto &v : q.P) v = 0; for (int i = 0; i < m; i++) q.G[0 * m + i] = 0; for (int j = 0; j < p; j++) q.A[0 * p + j] = 0; q.c[0] = 1 + r.uni();
    for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += q.G[j * m + i] * x0[j]; q.h[i] = t + 1; } for (int i = 0; i < p; i++) { double t = 0; for (int j = 0; j < n; j++) t += q.A[j * p + i] * x0[j]; q.b[i] = t; } }
  if (kind == "scaled") {
    static const double sc[] = {1e-6, 1e-4, 1e-2, 1, 1e2, 1e4, 1e6};
    for (int i = 0; i < m; i++) { double k = sc[r.below(7)]; for (int j = 0; j < n; j++) q.G[j * m + i] *= k; q.h[i] *= k; }
    double k = sc[r.below(7)]; for (auto &v : q.P) v *= k;
    k = sc[r.below(7)]; for (auto &v : q.c) v *= k;
  }
  if (kind == "mild") {      // rows, costs and bounds of sizes that differ by one or two orders of magnitude
    auto f = [&](double d) { return std::pow(10, std::floor(4 * d * r.sym()) / 4); };
    for (int i = 0; i < m; i++) { double k = f(1.5); for (int j = 0; j < n; j++) q.G[j * m + i] *= k; q.h[i] *= k; }
    double k = f(1); for (auto &v : q.c) v *= k;
    k = f(0.5); for (auto &v : q.P) v *= k;
  }
  if (kind == "nan") {
    q.has_nan = true; static const double bad[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308};
    double v = bad[r.below(5)];
    switch (r.below(4)) { case 0: q.c[r.below(n)] = v; break; case 1: q.h[r.below(m)] = v; break; case 2: q.G[r.below(m * n)] = v; break; default: { int i = (int)r.below(n); q.P[i * n + i] = v; } }
  }
  if (kind == "open") {      // sides written as an infinite or very large bound
    q.has_nan = true; static const double inf[] = {INFINITY, 1e20, 1e21, 1e25, 1e30};
    double v = inf[r.below(5)]; for (int i = 0; i < m; i++) if (r.chance(0.4)) q.h[i] = r.chance(0.8) ? v : inf[r.below(5)];
  }
  if (var && !q.has_nan) {     // the same sparsity pattern and sizes, other numbers
    Rng v(mix(seed, var)); double f = 0.5 + 1.5 * v.uni();
    for (auto &e : q.P) e *= f;
    for (auto &e : q.c) e = val(v);
    for (int i = 0; i < m; i++) { f = 0.5 + 1.5 * v.uni(); for (int j = 0; j < n; j++) q.G[j * m + i] *= f; q.h[i] *= f; if (kind != "infeas") q.h[i] += 0.25 * v.uni(); }
    for (int i = 0; i < p; i++) { f = 0.5 + 1.5 * v.uni(); for (int j = 0; j < n; j++) q.A[j * p + i] *= f; q.b[i] *= f; }
  }
  q.wellposed = kind == "strict" || kind == "box" || kind == "zerorow" || kind == "mpc" || kind == "mild";
  }
pattern:
  if (var & problem_reordered) {     // variables and rows in another order: the same sizes and entries, another pattern
    Rng v(mix(seed, var + 1)); auto shuffled = [&](int k) { std::vector<int> o(k); for (int i = 0; i < k; i++) o[i] = i; for (int i = k - 1; i > 0; i--) std::swap(o[i], o[v.below(i + 1)]); return o; };
    auto cn = shuffled(n), rm = shuffled(m), rp = shuffled(p); Problem t = q;
    for (int j = 0; j < n; j++) { q.c[cn[j]] = t.c[j]; for (int i = 0; i < n; i++) q.P[cn[i] * n + cn[j]] = t.P[i * n + j]; for (int i = 0; i < m; i++) q.G[cn[j] * m + rm[i]] = t.G[j * m + i]; for (int i = 0; i < p; i++) q.A[cn[j] * p + rp[i]] = t.A[j * p + i]; }
    for (int i = 0; i < m; i++) q.h[rm[i]] = t.h[i];
    for (int i = 0; i < p; i++) q.b[rp[i]] = t.b[i];
  }
  q.zP.assign(n * n, 0); q.zG.assign(m * n, 0); q.zA.assign(p * n, 0);
  if (expz) {
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (q.P[i * n + j] == 0 && r.below(100) < (u64)expz) q.zP[i * n + j] = q.zP[j * n + i] = 1;
    for (auto &v : q.zG) v = r.below(100) < (u64)expz;
    for (auto &v : q.zA) v = r.below(100) < (u64)expz;
  }
  return q;
}

Csc to_csc(int rr, int cc, const std::vector<double> &d, const std::vector<u8> &z, u64 jumble) {
  Csc s; s.jc.push_back(0); Rng r(mix(jumble, rr * 64 + cc));
  for (int j = 0; j < cc; j++) { for (int i = 0; i < rr; i++) { double v = d[j * rr + i]; if (v != 0 || (!z.empty() && z[j * rr + i])) { s.ir.push_back(i); s.pr.push_back(v); } }
    if (jumble) for (size_t a = (size_t)s.jc.back(), b = s.ir.size(); b > a + 1; b--) if (r.chance(0.6)) { size_t k = a + r.below(b - a); std::swap(s.ir[b - 1], s.ir[k]); std::swap(s.pr[b - 1], s.pr[k]); }
    s.jc.push_back((long)s.ir.size()); }
  return s;
}
std::vector<double> row_major(int r, int c, const std::vector<double> &d) { std::vector<double> o(r * c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[i * c + j] = d[j * r + i]; return o; }

typedef long double ld;
std::string truth_optimal(const Problem &q, bool useA, const double *x, const double *y, const double *z, const double *s, double fval, double reltol, double abstol) {
  int n = q.n, m = q.m, p = useA ? q.p : 0;
  char buf[300];
  for (int i = 0; i < n; i++) if (!std::isfinite(x[i])) return "primal solution is not finite";
  ld r2 = 0, e2 = 0; const ld U = 2.3e-16L;
  ld nx = 0, ny = 0, nz = 0;
  for (int i = 0; i < n; i++) {
    ld t = q.c[i], a = std::fabs(q.c[i]);
    for (int j = 0; j < n; j++) { ld v = (ld)q.P[j * n + i] * x[j]; t += v; a += std::fabs((double)v); }
    for (int j = 0; j < m; j++) { ld v = (ld)q.G[i * m + j] * z[j]; t += v; a += std::fabs((double)v); }
    for (int j = 0; j < p; j++) { ld v = (ld)q.A[i * p + j] * y[j]; t += v; a += std::fabs((double)v); }
    nx += t * t; e2 += a * a;
  }
  for (int i = 0; i < p; i++) {
    ld t = -(ld)q.b[i], a = std::fabs(q.b[i]);
    for (int j = 0; j < n; j++) { ld v = (ld)q.A[j * p + i] * x[j]; t += v; a += std::fabs((double)v); }
    ny += t * t; e2 += a * a;
  }
  for (int i = 0; i < m; i++) {
    ld t = (ld)s[i] - q.h[i], a = std::fabs(q.h[i]) + std::fabs(s[i]);
    for (int j = 0; j < n; j++) { ld v = (ld)q.G[j * m + i] * x[j]; t += v; a += std::fabs((double)v); }
    nz += t * t; e2 += a * a;
  }
  r2 = nx + ny + nz;
  ld slack = U * 4 * (n + m + p + 8) * sqrtl(e2);
  if (!(sqrtl(r2) < (ld)reltol * (1 + 1e-9L) + slack)) { snprintf(buf, sizeof buf, "stacked residual %.3Le (stationarity %.3Le equality %.3Le inequality %.3Le) is not below the tolerance %.3e", sqrtl(r2), sqrtl(nx), sqrtl(ny), sqrtl(nz), reltol); return buf; }
  ld mu = 0, am = 0;
  for (int i = 0; i < m; i++) { if (!(s[i] >= 0) || !(z[i] >= 0)) { snprintf(buf, sizeof buf, "slack or multiplier %d is negative (s=%.3e z=%.3e)", i, s[i], z[i]); return buf; } mu += (ld)s[i] * z[i]; am += std::fabs((double)((ld)s[i] * z[i])); }
  if (!(mu / m < (ld)abstol + U * (m + 8) * am)) { snprintf(buf, sizeof buf, "mean complementarity %.3Le is not below the tolerance %.3e", mu / m, abstol); return buf; }
  ld f = 0, fa = 0;
  for (int i = 0; i < n; i++) { f += (ld)q.c[i] * x[i]; fa += std::fabs((double)((ld)q.c[i] * x[i])); for (int j = 0; j < n; j++) { ld v = 0.5L * q.P[j * n + i] * x[i] * x[j]; f += v; fa += std::fabs((double)v); } }
  if (fabsl(f) > 1e300L || fa > 1e300L) return "";   // the objective has no double value
  if (!(std::fabs((double)(f - (ld)fval)) <= 1e-12L * fa * (n + 8) + 1e-300L)) { snprintf(buf, sizeof buf, "reported objective %.17g but the objective at the returned point is %.17Lg", fval, f); return buf; }
  return "";
}

// the statistics reported with a point describe that point; st = n_rx n_ry n_rz n_mu
std::string truth_stats(const Problem &q, const double *x, const double *y, const double *z, const double *s, const double *st) {
  int n = q.n, m = q.m, p = q.p; const ld U = 2.3e-16L; ld nv[3] = {0, 0, 0}, ev[3] = {0, 0, 0}; char buf[200];
  for (int i = 0; i < n; i++) {
    ld t = q.c[i], a = std::fabs(q.c[i]);
    for (int j = 0; j < n; j++) { ld v = (ld)q.P[j * n + i] * x[j]; t += v; a += std::fabs((double)v); }
    for (int j = 0; j < m; j++) { ld v = (ld)q.G[i * m + j] * z[j]; t += v; a += std::fabs((double)v); }
    for (int j = 0; j < p; j++) { ld v = (ld)q.A[i * p + j] * y[j]; t += v; a += std::fabs((double)v); }
    nv[0] += t * t; ev[0] += a * a;
  }
  for (int i = 0; i < p; i++) { ld t = -(ld)q.b[i], a = std::fabs(q.b[i]); for (int j = 0; j < n; j++) { ld v = (ld)q.A[j * p + i] * x[j]; t += v; a += std::fabs((double)v); } nv[1] += t * t; ev[1] += a * a; }
  for (int i = 0; i < m; i++) { ld t = (ld)s[i] - q.h[i], a = std::fabs(q.h[i]) + std::fabs(s[i]); for (int j = 0; j < n; j++) { ld v = (ld)q.G[j * m + i] * x[j]; t += v; a += std::fabs((double)v); } nv[2] += t * t; ev[2] += a * a; }
  ld mu = 0; for (int i = 0; i < m; i++) mu += (ld)s[i] * z[i];
  mu /= m;
  const char *nm[3] = {"stationarity", "equality", "inequality"};
  for (int k = 0; k < 3; k++) { ld v = sqrtl(nv[k]); if (!(std::fabs((double)(v - st[k])) <= 1e-9L * v + U * 4 * (n + m + p + 8) * sqrtl(ev[k]) + 1e-300L)) { snprintf(buf, sizeof buf, "the reported %s residual %.6e is not that of the returned point (%.6Le)", nm[k], st[k], v); return buf; } }
  if (!(std::fabs((double)(mu - st[3])) <= 1e-9L * mu + 1e-300L)) { snprintf(buf, sizeof buf, "the reported complementarity %.6e is not that of the returned point (%.6Le)", st[3], mu); return buf; }
  return "";
}

// The published method -- Mehrotra's predictor-corrector with separate primal and dual step lengths -- written down independently,
// on dense matrices in extended precision. Returns the number of iterations it needs, limit+1 if it does not get there.
int method_iterations(const Problem &q, bool useA, double reltol, double abstol, double sigma, int limit) {
  int n = q.n, m = q.m, p = useA ? q.p : 0, N = n + p + m;
  std::vector<ld> x(n), y(p), z(m), s(m), d(N), K(N * N), w(m); std::vector<ld> dz(m), ds(m), tz(m);
  auto solve = [&](std::vector<ld> &v) {           // Gaussian elimination with partial pivoting
    std::vector<ld> M(N * N, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i * N + j] = q.P[j * n + i];
    for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) M[(n + i) * N + j] = M[j * N + n + i] = q.A[j * p + i];
    for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) M[(n + p + i) * N + j] = M[j * N + n + p + i] = q.G[j * m + i]; M[(n + p + i) * N + n + p + i] = -w[i]; }
    for (int k = 0; k < N; k++) {
      int b = k; for (int i = k + 1; i < N; i++) if (fabsl(M[i * N + k]) > fabsl(M[b * N + k])) b = i;
      if (!(fabsl(M[b * N + k]) > 0)) return false;
      if (b != k) { for (int j = k; j < N; j++) std::swap(M[b * N + j], M[k * N + j]); std::swap(v[b], v[k]); }
      for (int i = k + 1; i < N; i++) { ld f = M[i * N + k] / M[k * N + k]; if (f == 0) continue; for (int j = k + 1; j < N; j++) M[i * N + j] -= f * M[k * N + j]; v[i] -= f * v[k]; }
    }
    for (int k = N - 1; k >= 0; k--) { for (int j = k + 1; j < N; j++) v[k] -= M[k * N + j] * v[j]; v[k] /= M[k * N + k]; }
    return true;
  };
  for (int i = 0; i < m; i++) w[i] = 1;
  for (int i = 0; i < n; i++) d[i] = -(ld)q.c[i];
  for (int i = 0; i < p; i++) d[n + i] = q.b[i];
  for (int i = 0; i < m; i++) d[n + p + i] = q.h[i];
  if (!solve(d)) return limit + 1;
  for (int i = 0; i < n; i++) x[i] = d[i];
  for (int i = 0; i < p; i++) y[i] = d[n + i];
  ld lo = 0, hi = 0;
  for (int i = 0; i < m; i++) { ld t = q.h[i]; for (int j = 0; j < n; j++) t -= q.G[j * m + i] * x[j]; s[i] = t; if (!i || t < lo) lo = t; if (!i || t > hi) hi = t; }
  for (int i = 0; i < m; i++) { ld t = s[i]; s[i] = lo > 0 ? t : t + 1 - lo; z[i] = hi < 0 ? -t : -t + 1 + hi; }
  for (int it = 0; it <= limit; it++) {
    ld rx2 = 0, ry2 = 0, rz2 = 0, mu = 0; std::vector<ld> r(N);
    for (int i = 0; i < n; i++) { ld t = -(ld)q.c[i]; for (int j = 0; j < n; j++) t -= q.P[j * n + i] * x[j]; for (int j = 0; j < m; j++) t -= q.G[i * m + j] * z[j]; for (int j = 0; j < p; j++) t -= q.A[i * p + j] * y[j]; r[i] = t; rx2 += t * t; }
    for (int i = 0; i < p; i++) { ld t = q.b[i]; for (int j = 0; j < n; j++) t -= q.A[j * p + i] * x[j]; r[n + i] = t; ry2 += t * t; }
    for (int i = 0; i < m; i++) { ld t = (ld)q.h[i] - s[i]; for (int j = 0; j < n; j++) t -= q.G[j * m + i] * x[j]; r[n + p + i] = t; rz2 += t * t; mu += s[i] * z[i]; }
    mu /= m; ld tol = reltol / sqrtl(3.0L);
    if (sqrtl(rx2) < tol && sqrtl(rz2) < tol && (!p || sqrtl(ry2) < tol) && mu < abstol) return it;
    if (!(rx2 < 1e300L) || !(mu < 1e300L)) return limit + 1;
    for (int i = 0; i < m; i++) w[i] = s[i] / z[i];
    auto direction = [&]() {
      d = r; for (int i = 0; i < m; i++) d[n + p + i] -= tz[i] / z[i];
      if (!solve(d)) return false;
      for (int i = 0; i < m; i++) { dz[i] = d[n + p + i]; ds[i] = (tz[i] - s[i] * dz[i]) / z[i]; }
      return true;
    };
    auto steps = [&](ld &ap, ld &ad) { ap = ad = 1e10L; bool a = false, b = false;
      for (int i = 0; i < m; i++) { if (ds[i] < 0) { a = true; ap = std::min(ap, -s[i] / ds[i]); } if (dz[i] < 0) { b = true; ad = std::min(ad, -z[i] / dz[i]); } }
      if (!a) ap = 1;
      if (!b) ad = 1; };
    ld ap, ad;
    if (sigma > 0) {
      for (int i = 0; i < m; i++) tz[i] = -s[i] * z[i];
      if (!direction()) return limit + 1;
      steps(ap, ad); ld rho = 0; for (int i = 0; i < m; i++) rho += (s[i] + ap * ds[i]) * (z[i] + ad * dz[i]);
      rho /= mu * m; rho = std::min(rho, (ld)1); sigma = (double)std::max((ld)0, rho * rho * rho);
      for (int i = 0; i < m; i++) tz[i] = -s[i] * z[i] - ds[i] * dz[i] + sigma * mu;
    } else for (int i = 0; i < m; i++) tz[i] = -s[i] * z[i];
    if (!direction()) return limit + 1;
    steps(ap, ad); ap = std::min(0.99L * ap, (ld)1); ad = std::min(0.99L * ad, (ld)1);
    for (int i = 0; i < n; i++) x[i] += ap * d[i];
    for (int i = 0; i < p; i++) y[i] += ad * d[n + i];
    for (int i = 0; i < m; i++) { s[i] += ap * ds[i]; z[i] += ad * dz[i]; }
  }
  return limit + 1;
}

void unsolved(const Problem &q, bool useA, double reltol, double abstol, const std::string &msg) {
  int k = method_iterations(q, useA, reltol, abstol, 100, 100);
  if (k > 40) sim::violate("cycles", msg + "; the method with separate step lengths needs " + (k > 100 ? "more than 100" : std::to_string(k)) + " iterations for it in exact form, too");
  else sim::violate("noconv", msg);
}
