// Sparsity patterns for the fill-reducing ordering, and what is known about them by other means.
#pragma once
#include "core.h"
#include <algorithm>
#include <cmath>
namespace order {
struct Pat {
  int n = 0, kind = 0; bool arrays = true, good = true, neg = false; int expect = 0;      // expect: status of a call in which nothing fails
  std::vector<long> Ap, Ai;                 // as handed to the ordering
  std::vector<std::vector<u8>> S;           // pattern of A + A', without the diagonal
  long nz = 0, nzdiag = 0, both = 0, edges = 0; int control = 0; bool info = true;
  std::vector<int> natural;                 // an order known to be good
};
// sizes of the columns of the factor for an elimination order
static inline std::vector<long> columns(const Pat &a, const std::vector<int> &P) {
  int n = a.n; std::vector<int> inv(n); for (int k = 0; k < n; k++) inv[P[k]] = k;
  std::vector<int> parent(n, -1), flag(n, -1); std::vector<long> cnt(n, 0);
  for (int k = 0; k < n; k++) { flag[k] = k; for (int i0 = 0; i0 < n; i0++) if (a.S[P[k]][i0]) { int i = inv[i0]; if (i < k) for (; flag[i] != k; i = parent[i]) { if (parent[i] < 0) parent[i] = k; cnt[i]++; flag[i] = k; } } }
  return cnt;
}
static inline long fill(const Pat &a, const std::vector<int> &P) { long s = 0; for (long v : columns(a, P)) s += v; return s; }
// exact minimum degree
static inline long mindeg(const Pat &a) {
  int n = a.n; auto g = a.S; std::vector<u8> out(n, 0); std::vector<int> deg(n, 0); long s = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) deg[i] += g[i][j];
  for (int k = 0; k < n; k++) {
    int b = -1; for (int i = 0; i < n; i++) if (!out[i] && (b < 0 || deg[i] < deg[b])) b = i;
    out[b] = 1; std::vector<int> v; for (int i = 0; i < n; i++) if (g[b][i] && !out[i]) v.push_back(i);
    s += (long)v.size();
    for (int i : v) { g[i][b] = 0; deg[i]--; for (int j : v) if (i != j && !g[i][j]) { g[i][j] = 1; deg[i]++; } }
  }
  return s;
}
static const int nkinds = 14;
static inline Pat make(u64 seed, bool small) {
  Rng r(mix(seed, 0xa3d)); Pat a; int kind = a.kind = (int)r.below(nkinds);
  int n = r.chance(0.5) ? r.range(1, 12) : r.range(10, 60); if (!small && r.chance(0.12)) n = r.range(60, 160);
  if (small) n = r.range(12, 50);
  std::vector<std::pair<int, int>> e; auto edge = [&](int i, int j) { if (i != j) e.push_back({i, j}); };
  if (kind == 0 || kind == 12) { double d = r.uni() * r.uni(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.chance(d)) edge(i, j); }
  if (kind == 1) { int k = r.range(1, 5); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) edge(i, (int)r.below(n)); }
  if (kind == 2) { int b = r.range(1, 6); for (int i = 0; i < n; i++) for (int j = std::max(0, i - b); j < i; j++) edge(i, j); }
  if (kind == 3) { int hd = r.range(1, 4); for (int k = 1; k <= hd && k <= n; k++) for (int i = 0; i < n - k; i++) edge(i, n - k); }
  if (kind == 4) { int w = r.range(2, 8); for (int i = 0; i < n; i++) { if (i % w) edge(i, i - 1); if (i >= w) edge(i, i - w); } }
  if (kind == 5) for (int i = 0; i + 1 < n; i++) edge(i, i + 1 + (int)r.below(std::min(n - 1 - i, r.chance(0.5) ? 3 : n)));
  if (kind == 6) { int c = r.range(2, 9), o = r.range(1, 2); for (int b = 0; b < n; b += std::max(1, c - o)) for (int i = b; i < std::min(n, b + c); i++) for (int j = b; j < i; j++) edge(i, j); }
  if (kind == 7) {                            // the system of a quadratic program
    int q = std::max(1, n / 3), m = n - q; double d = r.chance(0.5) ? 0.15 : 0.5; int p = m ? (int)r.below(m / 2 + 1) : 0;
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i;
    for (int i = 0; i < q; i++) { if (r.chance(0.5)) for (int j = 0; j < i; j++) if (r.chance(0.3)) edge(i, j); }
    for (int k = 0; k < m; k++) { int any = (int)r.below(q); edge(q + k, any); for (int i = 0; i < q; i++) if (r.chance(k < p ? 0.4 : d)) edge(q + k, i); }
  }
  if (kind == 8) { if (r.chance(0.5)) for (int i = 0; i + 1 < n; i += 2) if (r.chance(0.3)) edge(i, i + 1); }
  if (kind == 9) { if (!small && n < 100) n = r.range(100, 150); int hd = r.range(1, 6); for (int i = 0; i < n; i++) for (int k = 1; k <= hd; k++) if (i < n - k) edge(i, n - k); int b = r.range(0, 2); for (int i = 0; i < n; i++) for (int j = std::max(0, i - b); j < i; j++) edge(i, j); }
  if (kind == 10) { n = std::min(n, 40); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) edge(i, j); }
  if (kind == 11) {                           // chordal: every vertex joins part of a clique of later ones
    int k = r.range(1, 5); std::vector<std::vector<int>> q(n);
    for (int i = n - 2; i >= 0; i--) { int t = i + 1 + (int)r.below(std::min(n - 1 - i, 8)); std::vector<int> c = q[t]; c.push_back(t); while ((int)c.size() > k) c.erase(c.begin() + r.below(c.size())); for (int j : c) edge(i, j); q[i] = c; }
  }
  if (kind == 13) { int b = r.range(2, 6); for (int s = 0; s < n; s += b) for (int i = s; i < std::min(n, s + b); i++) for (int j = s; j < i; j++) edge(i, j); for (int i = 0; i < n; i += b) for (int k = 1; k <= 2 && n - k > i; k++) edge(i, n - k); }   // identical rows: supervariables
  a.n = n; a.S.assign(n, std::vector<u8>(n, 0));
  std::vector<int> lab(n); for (int i = 0; i < n; i++) lab[i] = i;
  if (r.chance(0.75)) for (int i = n - 1; i > 0; i--) std::swap(lab[i], lab[r.below(i + 1)]);
  a.natural.resize(n); for (int i = 0; i < n; i++) a.natural[i] = lab[i];
  int store = r.range(0, 4); double dg = r.chance(0.5) ? 1 : r.chance(0.5) ? 0 : 0.5;   // 0 both halves 1 upper 2 lower 3 mixed 4 one side each
  std::vector<std::vector<u8>> A(n, std::vector<u8>(n, 0));      // A[col][row]
  for (auto &x : e) {
    int i = lab[x.first], j = lab[x.second]; if (a.S[i][j]) continue;
    a.S[i][j] = a.S[j][i] = 1; a.edges++;
    int u = std::min(i, j), v = std::max(i, j);      // (u, v) is above the diagonal
    int w = store == 3 ? r.range(0, 2) : store == 4 ? r.range(1, 2) : store;
    if (w != 2) A[v][u] = 1;
    if (w != 1) A[u][v] = 1;
    if (w == 0) a.both++;
  }
  for (int i = 0; i < n; i++) if (r.chance(dg)) { A[i][i] = 1; a.nzdiag++; }
  std::vector<std::vector<long>> col(n);
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (A[j][i]) { col[j].push_back(i); a.nz++; }
  if (!small && r.chance(0.25)) {               // unsorted, repeated
    bool dup = r.chance(0.6), shuf = !dup || r.chance(0.6);
    for (int j = 0; j < n; j++) {
      if (dup) for (int k = (int)col[j].size(); k-- > 0;) if (r.chance(0.2)) col[j].insert(col[j].begin() + k, col[j][k]);
      if (shuf) for (int k = (int)col[j].size() - 1; k > 0; k--) std::swap(col[j][k], col[j][r.below(k + 1)]);
    }
  }
  for (auto &c : col) for (size_t k = 1; k < c.size(); k++) if (c[k] <= c[k - 1]) a.expect = 1;
  a.Ap.push_back(0); for (auto &c : col) { for (long i : c) a.Ai.push_back(i); a.Ap.push_back((long)a.Ai.size()); }
  a.control = r.range(0, 5); a.info = r.chance(0.85);      // NULL, default, never dense, few entries are dense, no aggressive absorption, as the solver
  if (!small && r.chance(0.15)) {
    int w = r.range(0, 7); long nz = (long)a.Ai.size(); a.expect = -2; a.good = false;
    if (w == 0 && nz) a.Ai[r.below(nz)] = n + (long)r.below(3);
    else if (w == 1 && nz) a.Ai[r.below(nz)] = -1 - (long)r.below(3);
    else if (w == 2 && n > 1 && nz) { int k = r.range(1, n - 1); long last = a.Ap[n]; a.Ap[k] = last; a.Ap[k + 1] = k + 1 == n ? last : 0; if (k + 1 == n || last == 0) { a.Ap[0] = 1; } }
    else if (w == 3) a.Ap[0] = nz ? 1 : 0;
    else if (w == 4) a.Ap[n] = -1 - (long)r.below(5);
    else if (w == 5) a.arrays = false;
    else if (w == 6) a.neg = true;
    else if (w == 7) { a.n = 0; a.Ap.assign(1, 0); a.expect = 0; }
    if ((w == 3 && !nz) || (w < 3 && !nz) || (w == 2 && n <= 1)) { a.Ap[n] = -1; }
  }
  return a;
}
}
