// Simulator of the core library and the Simulink blocks: seeded histories of calls by several caller
// threads against the real code; allocator, clock, output and scheduling are simulated.
#include "harness.h"
#include "problem.h"
#include "order.h"
#include <sstream>
#include <algorithm>
#include <cmath>
#include <memory>
#include <array>
extern "C" {
#include "qpSWIFT.h"
}
#undef MAX
#undef MIN
#include "simstruc.h"
using sim::violate;

extern "C" {
extern void *(*amd_malloc)(size_t) __attribute__((weak));
extern void (*amd_free)(void *) __attribute__((weak));
extern void *(*amd_realloc)(void *, size_t) __attribute__((weak));
extern void *(*amd_calloc)(size_t, size_t) __attribute__((weak));
extern int (*amd_printf)(const char *, ...) __attribute__((weak));
void simblk_outputs(SimStruct *, int); void simblk_sizes(SimStruct *); void simblk_start(SimStruct *); void simblk_update(SimStruct *, int); void simblk_end(SimStruct *);
void simblke_outputs(SimStruct *, int); void simblke_sizes(SimStruct *); void simblke_start(SimStruct *); void simblke_update(SimStruct *, int); void simblke_end(SimStruct *);
}
u64 wrap_time[MAXC][4], wrap_calls[MAXC][4];      // time inside the KKT solves / numeric factorisations of the current operation
extern "C" int wrap_present __attribute__((weak)), wrap_adapter __attribute__((weak)); 

struct Op {
  int id = 0, client = 0, handle = 0; std::string kind;   // setup set solve cleanup sfun amd
  int prob = 0, api = 0, perm = 0; u64 permseed = 0; double sig = 0; std::string field; double val = 0; int variant = 0; int noeq = 0;
};
struct FaultSpec { int op; i64 r, len; bool order; };
struct Scenario {
  std::vector<Problem> probs; EnvCfg env; ClockCfg clk; OutCfg out; bool valid = true, priv = false, scatter = false, amdhook = false, refquiet = false, refapi = false; int nclients = 1, base = 0; u64 stale = 0; u32 fpmode = 0;
  SchedMode mode = SCHED_RUN; u64 sseed = 1; double gap = 1000; std::vector<Switch> plan;
  std::vector<Op> ops; std::vector<FaultSpec> faults; std::string profile;
};

static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

static Scenario parse(const std::string &t) {
  Scenario s; std::istringstream in(t); std::string line;
  std::map<int, Problem> pm;
  while (std::getline(in, line)) {
    auto w = split(line); if (w.empty() || w[0][0] == '#') continue;
    auto I = [&](size_t i) -> i64 { return i < w.size() ? strtoll(w[i].c_str(), 0, 10) : 0; };
    auto U = [&](size_t i) -> u64 { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0; };
    auto D = [&](size_t i) -> double { return i < w.size() ? atof(w[i].c_str()) : 0; };
    if (w[0] == "profile") s.profile = w[1];
    else if (w[0] == "prob") { pm[(int)I(1)] = make_problem(w[2], (int)I(3), (int)I(4), (int)I(5), U(6), (int)I(7), U(8)); pm[(int)I(1)].jumble = U(9); }
    else if (w[0] == "env") { s.env.fill = U(1); s.env.mode = (int)I(2); s.env.gap = U(3); s.env.reuse = (int)I(4); s.env.stack = U(5); s.env.misc = U(6); }
    else if (w[0] == "clock") { s.clk.tick = U(1); s.clk.base = U(2); s.clk.readjump = (int)I(3); s.clk.stallgap = U(4); s.clk.maxexp = (int)I(5); s.clk.seed = U(6); }
    else if (w[0] == "out") { s.out.mode = (int)I(1); s.out.seed = U(2); }
    else if (w[0] == "private") s.priv = I(1);
    else if (w[0] == "scatter") s.scatter = I(1);
    else if (w[0] == "amdhook") s.amdhook = I(1);
    else if (w[0] == "refquiet") s.refquiet = I(1);
    else if (w[0] == "refapi") s.refapi = I(1);
    else if (w[0] == "stale") s.stale = U(1);
    else if (w[0] == "fpmode") s.fpmode = (u32)U(1) & 0xffc0;
    else if (w[0] == "clients") s.nclients = (int)std::min<i64>(MAXC, std::max<i64>(1, I(1)));
    else if (w[0] == "sched") { s.mode = SCHED_SEED; s.sseed = U(2); s.gap = (double)U(3); }
    else if (w[0] == "sw") { s.mode = SCHED_EXPLICIT; s.plan.push_back({(int)I(1), U(2), (int)I(3)}); }
    else if (w[0] == "fault") s.faults.push_back({(int)I(2), I(3), std::max<i64>(1, I(4)), w[1] == "order"});
    else if (w[0] == "op") {
      Op o; o.id = (int)I(1); o.client = (int)I(2); o.handle = (int)I(3); o.kind = w[4];
      if (o.kind == "setup") { o.prob = (int)I(5); o.api = (int)I(6); o.perm = (int)I(7); o.permseed = U(8); o.sig = D(9); o.noeq = (int)I(10); }
      else if (o.kind == "set") { o.field = w[5]; o.val = D(6); }
      else if (o.kind == "sfun") { o.prob = (int)I(5); o.variant = (int)I(6); }
      else if (o.kind == "amd") { o.permseed = U(5); o.variant = (int)I(6); }
      s.ops.push_back(o);
    }
  }
  int mx = pm.empty() ? 0 : pm.rbegin()->first;
  s.probs.resize(mx + 1);
  for (auto &p : pm) s.probs[p.first] = p.second;
  for (auto &q : s.probs) if (!q.n) q = make_problem("strict", 3, 3, 0, 1, 0);
  // behind the problems, the same problems without their equality constraints
  s.base = mx + 1; s.probs.resize(2 * s.base);
  for (int i = 0; i < s.base; i++) { Problem q = s.probs[i]; q.p = 0; q.A.clear(); q.b.clear(); q.zA.clear(); s.probs[s.base + i] = q; }
  for (auto &o : s.ops) if ((o.kind == "setup" || o.kind == "sfun") && (!pm.count(o.prob) || (o.kind == "sfun" && pm[o.prob].n < 3))) s.valid = false;
  for (auto &o : s.ops) { if (o.prob < 0 || o.prob > mx) o.prob = 0; if (o.client < 0 || o.client >= s.nclients) o.client = 0; }
  // a budget without a practical limit is only given to a first solve that is sure to end
  std::map<int, bool> sure;
  for (auto &o : s.ops) {
    if (o.kind == "setup") sure[o.handle] = s.probs[o.prob].wellposed && !o.perm && !o.noeq && !o.sig;
    else if (o.kind == "set" && o.field == "maxit") { if (o.val > 1e6 && !sure[o.handle]) o.val = MAXIT; }
    else if (!(o.kind == "set" && o.field == "verbose")) sure[o.handle] = false;
  }
  return s;
}

// ---------------------------------------------------------------- caller data
template <class T> struct Arr { T *p = nullptr; std::vector<T> copy; };
template <class T> static Arr<T> put(const std::vector<T> &v) { Arr<T> a; a.copy = v; a.p = (T *)sim::input_alloc(v.size() * sizeof(T)); memcpy(a.p, v.data(), v.size() * sizeof(T)); return a; }
struct Inputs {
  Arr<double> c, h, b, Pr, Gr, Ar, Pc, Gc, Ac, Pp, Gp, Ap; Arr<long> Pj, Pi, Gj, Gi, Aj, Ai;
};
struct Rec {
  bool ran = false, null = false; long rc = -1, iter = 0, flag = -1, amd = 0; std::vector<double> x, y, z, s;
  double st[7] = {0, 0, 0, 0, 0, 0, 0}; double t[4] = {0, 0, 0, 0}; std::string out; u64 outcalls = 0;
  u64 allocs = 0, amdallocs = 0, fired = 0, amdfired = 0, outfailed = 0; long ran_iters = 0;
};
struct Hnd { QP *q = nullptr; VC vc; size_t next = 0; bool dense = false, tainted = false, setup_done = false; int prob = 0; long maxit = 100; double reltol = 1e-6, abstol = 1e-6; bool custom = false; long total = 0; double sigd = 0; int verbose = 0; bool solved = false; Inputs priv; Arr<long> pperm; };

struct Block { SimStruct S; std::vector<const double *> ptr[6]; std::vector<double> scat[6], stale[6], fresh[6]; bool e = false; int step = 0; };
struct Phase {
  Scenario *s; bool main = false; bool quiet = false; u64 stale = 0; u32 fpmode = 0;
  std::vector<Inputs> in; std::map<int, Arr<long>> perms; std::map<int, Hnd> h; std::map<int, Rec> rec;
  std::map<int, std::vector<int>> horder;     // op indices per handle
  std::map<int, std::pair<i64, i64>> afault, ofault;
  std::vector<Op> ops;
  std::map<int, std::vector<double *>> sig;   // signal buffers of the block of each client
  std::map<std::array<int, 5>, std::shared_ptr<Block>> blocks;    // by client, kind and sizes
};

static std::string mask_times(const std::string &t) {
  std::istringstream in(t); std::string l, o;
  while (std::getline(in, l)) { size_t k = l.find(':'); if (k != std::string::npos && (l.find("Time") != std::string::npos || l.find("time") != std::string::npos || l.find(" ms") != std::string::npos)) l = l.substr(0, k + 1); o += l + "\n"; }
  return o;
}

static Inputs fill_inputs(Problem &q, const std::set<int> &apis, const std::function<void()> &pad) {
  Inputs I;
  I.c = put(q.c); pad(); I.h = put(q.h); pad(); I.b = put(q.b);
  if (apis.count(0)) {
    u64 jb = q.jumble; Csc P = to_csc(q.n, q.n, q.P, q.zP, jb), G = to_csc(q.m, q.n, q.G, q.zG, jb * 3), A = to_csc(q.p, q.n, q.A, q.zA, jb * 5);
    pad(); I.Pj = put(P.jc); I.Pi = put(P.ir); I.Pp = put(P.pr); pad(); I.Gj = put(G.jc); I.Gi = put(G.ir); I.Gp = put(G.pr);
    pad(); I.Aj = put(A.jc); I.Ai = put(A.ir); I.Ap = put(A.pr);
  }
  if (apis.count(1)) { I.Pr = put(row_major(q.n, q.n, q.P)); pad(); I.Gr = put(row_major(q.m, q.n, q.G)); I.Ar = put(row_major(q.p, q.n, q.A)); }
  if (apis.count(2)) { I.Pc = put(q.P); pad(); I.Gc = put(q.G); I.Ac = put(q.A); }
  return I;
}
static std::vector<long> make_perm(Scenario &s, const Op &o) {
  Problem &q = s.probs[o.prob + (o.noeq ? s.base : 0)]; int N = q.n + q.m + q.p;
  std::vector<long> p(N); for (int i = 0; i < N; i++) p[i] = i;
  if (o.perm == 2) { Rng pr(mix(o.permseed, 99)); for (int i = N - 1; i > 0; i--) std::swap(p[i], p[pr.below(i + 1)]); }
  if (o.perm == 3) std::reverse(p.begin(), p.end());
  return p;
}
static void build_inputs(Phase &ph, bool vary) {
  Scenario &s = *ph.s; Rng r(mix(s.env.fill, 5150));
  ph.in.assign(s.probs.size(), Inputs());
  std::vector<std::set<int>> apis(s.probs.size()); bool blocks = false;
  for (auto &o : ph.ops) { if (o.kind == "setup") apis[o.prob].insert(o.api); if (o.kind == "sfun") { apis[o.prob].insert(2); blocks = true; } }
  auto pad = [&]() { if (vary) sim::input_alloc(8 * r.below(20)); };
  if (s.priv) {
    // every handle has arrays of its own, every client its own signal buffers
    if (blocks) for (int c = 0; c < s.nclients; c++) {
      size_t n = 1, m = 1; for (auto &q : s.probs) { n = std::max<size_t>(n, q.n); m = std::max<size_t>(m, std::max(q.m, q.p)); }
      size_t w[6] = {n * n, n, m * n, m, m * n, m};
      for (int k = 0; k < 6; k++) ph.sig[c].push_back((double *)sim::input_alloc(w[k] * 8));
    }
    return;
  }
  for (size_t i = 0; i < s.probs.size(); i++) if (!apis[i].empty()) ph.in[i] = fill_inputs(s.probs[i], apis[i], pad);
  for (auto &o : ph.ops) if (o.kind == "setup" && o.perm) ph.perms[o.id] = put(make_perm(s, o));
}
template <class T> static void chk(const Arr<T> &a, const char *n) { if (a.p && !a.copy.empty() && memcmp(a.p, a.copy.data(), a.copy.size() * sizeof(T))) violate("inputwrite", std::string("caller array ") + n + " differs after the calls"); }
static void check_inputs1(Inputs &I) {
  { chk(I.c, "c"); chk(I.h, "h"); chk(I.b, "b"); chk(I.Pr, "P"); chk(I.Gr, "G"); chk(I.Ar, "A"); chk(I.Pc, "P"); chk(I.Gc, "G"); chk(I.Ac, "A"); chk(I.Pp, "P.pr"); chk(I.Gp, "G.pr"); chk(I.Ap, "A.pr"); chk(I.Pj, "P.jc"); chk(I.Pi, "P.ir"); chk(I.Gj, "G.jc"); chk(I.Gi, "G.ir"); chk(I.Aj, "A.jc"); chk(I.Ai, "A.ir"); }
}
static void check_inputs(Phase &ph) {
  for (auto &I : ph.in) check_inputs1(I);
  for (auto &p : ph.perms) chk(p.second, "permutation");
  for (auto &h : ph.h) { check_inputs1(h.second.priv); chk(h.second.pperm, "permutation"); }
}
template <class T> static void drop(Arr<T> &a) { if (a.p) sim::input_free(a.p); a.p = nullptr; a.copy.clear(); }
static void drop_inputs(Hnd &h) {           // the caller releases its arrays once the handle is gone
  Inputs &I = h.priv; check_inputs1(I); chk(h.pperm, "permutation");
  drop(I.c); drop(I.h); drop(I.b); drop(I.Pr); drop(I.Gr); drop(I.Ar); drop(I.Pc); drop(I.Gc); drop(I.Ac); drop(I.Pp); drop(I.Gp); drop(I.Ap); drop(I.Pj); drop(I.Pi); drop(I.Gj); drop(I.Gi); drop(I.Aj); drop(I.Ai); drop(h.pperm);
}

static void snap(Rec &r, QP *q) {
  auto v = [](double *p, long n) { return p && n > 0 ? std::vector<double>(p, p + n) : std::vector<double>(); };
  r.x = v(q->x, q->n); r.y = v(q->y, q->p); r.z = v(q->z, q->m); r.s = v(q->s, q->m);
}
static void snap_stats(Rec &r, QP *q) {
  stats *t = q->stats; r.iter = t->IterationCount; r.flag = t->Flag; r.amd = t->AMD_RESULT;
  double a[7] = {t->n_rx, t->n_ry, t->n_rz, t->n_mu, t->alpha_p, t->alpha_d, t->fval}; memcpy(r.st, a, sizeof a);
  r.t[0] = t->tsetup; r.t[1] = t->tsolve; r.t[2] = t->kkt_time; r.t[3] = t->ldl_numeric;
}

static void time_range(const char *what, double v, double lo_ns, double hi_ns, int op) {
  double lo = lo_ns * 1e-9 - 1e-9 - 1e-12 * lo_ns * 1e-9, hi = hi_ns * 1e-9 + 1e-9 + 1e-12 * hi_ns * 1e-9;
  if (!(v >= lo) || !(v <= hi)) { char b[300]; snprintf(b, sizeof b, "op %d: reported %s %.12g s, but between %.12g s and %.12g s passed", op, what, v, lo, hi); violate("time", b); }
}
static u64 margin() { u64 n = sim::cur->local - sim::cur->op_local0; return std::max<u64>(200, n / 10); }

static bool well(Phase &ph, Hnd &h) { return ph.s->probs[h.prob].wellposed && h.sigd == 0 && !h.custom && h.reltol >= 1e-6 && h.abstol >= 1e-6; }

static const u64 SENT = 0x7ff8dead5e4711adull;
// a block instance lives for the whole run: registered and started once, stepped, terminated
static Block &get_block(Phase &ph, const Op &o) {
  Problem &q = ph.s->probs[o.prob]; Inputs &I = ph.in[o.prob];
  bool e = o.variant == 1 && q.p > 0;
  auto &slot = ph.blocks[{ph.main ? o.client : 0, e, q.n, q.m, e ? q.p : 0}]; bool fresh = !slot;
  if (fresh) { slot = std::make_shared<Block>(); slot->e = e; memset(&slot->S, 0, sizeof slot->S); if (e) simblke_sizes(&slot->S); else simblk_sizes(&slot->S);
    // what the block declares: its ports, and the widths it writes
    if (ph.main) { SimStruct &D = slot->S; bool ok = D.nin == (e ? 6 : 4) && D.nout == 5 && !D.badport && D.nst != 0 && !D.error;
      for (int k = 0; k < (e ? 6 : 4); k++) ok &= D.inw[k] != 0;
      for (int k = 0; k < 5; k++) ok &= D.outwd[k] < 0 || D.outwd[k] == (k ? 1 : 3);
      if (!ok) violate("blockout", "the block declares other ports, widths or sample times than it uses"); } }
  Block &B = *slot; SimStruct &S = B.S;
  for (int k = 0; k < 6; k++) { B.ptr[k].clear(); B.fresh[k].clear(); }
  // the signals of a block keep their addresses from step to step
  auto port = [&](int k, int sig, const std::vector<double> &v, double *p) {
    if (ph.s->priv) { p = ph.sig[ph.main ? o.client : 0][sig]; sim::input_resize(p, v.size() * 8); if (!v.empty()) memcpy(p, v.data(), v.size() * 8); }
    auto &ptr = B.ptr; size_t st = 1; const double *base = p;
    // a port without direct feed-through may be filled after the block has run: it sees the signals of the step before
    if (ph.main && !S.feed[k]) { B.fresh[k] = v; B.stale[k].resize(v.size(), 0); p = B.stale[k].data(); base = p; count("stale_signals"); }
    // a signal that comes from a mux or selector is not contiguous unless the block asked the host for that
    if (ph.main && ph.s->scatter && !S.contig[k] && S.feed[k] && v.size() > 1) { st = 3; B.scat[k].assign(3 * v.size(), 0); for (size_t i = 0; i < B.scat[k].size(); i++) B.scat[k][i] = i % 3 ? (double)(long)(mix(o.id, i) % 17) - 8 : v[i / 3]; p = B.scat[k].data(); base = p; count("scattered_signals"); }
    for (size_t i = 0; i < v.size(); i++) ptr[k].push_back(base + st * i);
    if (v.empty()) ptr[k].push_back(p);
    S.cin[k] = p; S.in[k] = ptr[k].data(); S.width[k] = (int)v.size();
    if (S.inw[k] > 0 && S.inw[k] != S.width[k]) violate("blockout", "the block refuses a signal of a legal width"); };
  if (o.variant == 0 || q.p == 0) { port(0, 0, q.P, I.Pc.p); port(1, 1, q.c, I.c.p); port(2, 2, q.G, I.Gc.p); port(3, 3, q.h, I.h.p); }
  else { port(0, 0, q.P, I.Pc.p); port(1, 1, q.c, I.c.p); port(2, 4, q.A, I.Ac.p); port(3, 5, q.b, I.b.p); port(4, 2, q.G, I.Gc.p); port(5, 3, q.h, I.h.p); }
  for (int k = 0; k < 5; k++) { S.outw[k] = k ? 1 : 3; S.out[k] = S.outbuf[k]; for (int i = 0; i < 3; i++) { u64 z = SENT; memcpy(&S.outbuf[k][i], &z, 8); } }
  if (fresh) { sim::cur->owner = 90000 + sim::cur->id; if (e) simblke_start(&S); else simblk_start(&S); sim::cur->owner = o.handle; }
  S.now = 0.01 * B.step++;
  return B;
}
static void end_blocks(Phase &ph, int client) {
  for (auto &b : ph.blocks) if (b.first[0] == client) { if (b.second->e) simblke_end(&b.second->S); else simblk_end(&b.second->S); }
  size_t n = sim::live_of_owner(90000 + client);
  if (n && ph.main) { char buf[100]; snprintf(buf, sizeof buf, "%zu blocks are still allocated when the block instances have ended", n); violate("leak", buf); }
}

// ---------------------------------------------------------------- the ordering as a service of its own
// Orders one pattern (or a batch of them), then factorises and solves with the order.
struct OrderJob { order::Pat a; Arr<long> Ap, Ai; long *P = nullptr; double *C = nullptr, *F = nullptr; };
static void order_factor(OrderJob &j, const std::vector<int> &P, const std::vector<long> &cols, const Op &o) {
  int n = j.a.n; long lnz = 0; for (long v : cols) lnz += v; char buf[300];
  Rng r(mix(o.permseed, 31)); std::vector<long> Ap(1, 0), Ai; std::vector<double> Ax, diag(n, 1), want(n), B(n, 0);
  std::vector<std::vector<double>> M(n, std::vector<double>(n, 0));
  for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) if (j.a.S[i][k]) { double v = 0.25 + r.uni(); if (r.chance(0.5)) v = -v; M[i][k] = M[k][i] = v; diag[i] += fabs(v); diag[k] += fabs(v); }
  for (int i = 0; i < n; i++) { M[i][i] = r.chance(0.5) ? diag[i] : -diag[i]; want[i] = r.sym() * 3; }
  for (int k = 0; k < n; k++) { for (int i = 0; i < n; i++) if (i == k || j.a.S[k][i]) { Ai.push_back(i); Ax.push_back(M[k][i]); } Ap.push_back((long)Ai.size()); }
  for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) B[i] += M[i][k] * want[k];
  auto L = [&](size_t k) { return (long *)sim::alloc(std::max<size_t>(1, k) * 8, 0); }; auto D = [&](size_t k) { return (double *)sim::alloc(std::max<size_t>(1, k) * 8, 0); };
  auto ap = put(Ap), ai = put(Ai), pp = put(std::vector<long>(P.begin(), P.end())); auto ax = put(Ax), bb = put(B);
  long *Lp = L(n + 1), *Parent = L(n), *Lnz = L(n), *Flag = L(n), *Pinv = L(n), *Li = L(lnz), *Pt = L(n); double *Lx = D(lnz), *Dg = D(n), *Y = D(n), *X = D(n), *W = D(n);
  std::vector<void *> mem = {Lp, Parent, Lnz, Flag, Pinv, Li, Pt, Lx, Dg, Y, X, W};
  sim::begin_op(o.id);
  LDL_symbolic(n, ap.p, ai.p, Lp, Parent, Lnz, Flag, pp.p, Pinv);
  std::string why; bool ok = Lp[n] == lnz && Lp[0] == 0;
  for (int k = 0; k < n && ok; k++) ok = Lp[k + 1] - Lp[k] == cols[k];
  if (!ok) { snprintf(buf, sizeof buf, "the analysis predicts a factor of %ld entries (or other columns), but it has %ld", Lp[n], lnz); why = buf; }
  else {
    long d = LDL_numeric(n, ap.p, ai.p, ax.p, Lp, Parent, Lnz, Li, Lx, Dg, Y, Pt, Flag, pp.p, Pinv);
    for (int k = 0; k < n; k++) if (Lnz[k] != cols[k]) { snprintf(buf, sizeof buf, "column %d of the factor has %ld entries, predicted were %ld", k, Lnz[k], cols[k]); why = buf; }
    if (d != n) why = "a diagonally dominant system was not factorised";
    if (why.empty()) {
      for (int k = 0; k < n; k++) for (long q = Lp[k]; q < Lp[k + 1]; q++) if (Li[q] <= k || Li[q] >= n || (q > Lp[k] && Li[q] <= Li[q - 1])) why = "the factor is not lower triangular with sorted columns";
      if (why.empty()) {
        LDL_perm(n, X, bb.p, pp.p); LDL_lsolve(n, X, Lp, Li, Lx); LDL_dsolve(n, X, Dg); LDL_ltsolve(n, X, Lp, Li, Lx); LDL_permt(n, W, X, pp.p);
        double e = 0, sc = 1; for (int k = 0; k < n; k++) { e = std::max(e, W[k] == W[k] ? fabs(W[k] - want[k]) : 1e300); sc = std::max(sc, diag[k]); }
        if (!(e <= 1e-9 * sc * (n + 1))) { snprintf(buf, sizeof buf, "the solution computed in this order is off by %.3g", e); why = buf; }
      }
    }
  }
  sim::end_op();
  for (void *m : mem) sim::dealloc(m, "harness");
  chk(ap, "Ap"); chk(ai, "Ai"); chk(ax, "Ax"); chk(bb, "b"); chk(pp, "P"); drop(ap); drop(ai); drop(ax); drop(bb); drop(pp);
  if (!why.empty()) { char b2[500]; snprintf(b2, sizeof b2, "op %d: %s (%d unknowns, kind %d)", o.id, why.c_str(), n, j.a.kind); violate("orderfill", b2); }
  count("order_factored");
}
static void do_amd(Phase &ph, const Op &o, Rec &r, const std::function<void()> &finish) {
  Client *c = sim::cur; i64 fn = c->fault_nth, an = c->afault_nth; c->fault_nth = c->afault_nth = -1;
  bool batch = o.variant == 1; int K = batch ? 24 : 1; std::vector<OrderJob> js(K); char buf[300];
  for (int k = 0; k < K; k++) {
    OrderJob &j = js[k]; j.a = order::make(batch ? mix(o.permseed, k) : o.permseed, batch);
    j.Ap = put(j.a.Ap); std::vector<long> ai = j.a.Ai; if (ai.empty()) ai.push_back(0); j.Ai = put(ai);
    j.P = (long *)sim::alloc(std::max(1, j.a.n) * 8, 0);
    if (j.a.control) j.C = (double *)sim::alloc(AMD_CONTROL * 8, 0);
    if (j.a.info) j.F = (double *)sim::alloc(AMD_INFO * 8, 0);
  }
  c->fault_nth = fn; c->afault_nth = an;
  sim::begin_op(o.id);
  std::vector<long> rcs;
  for (OrderJob &j : js) {
    if (j.C) { amd_l_defaults(j.C); if (j.a.control == 2) j.C[AMD_DENSE] = -1; if (j.a.control == 3) j.C[AMD_DENSE] = 1; if (j.a.control == 4) j.C[AMD_AGGRESSIVE] = 0; }
    rcs.push_back(amd_l_order(j.a.neg ? -1 : j.a.n, j.Ap.p, j.a.arrays ? j.Ai.p : nullptr, j.P, j.C, j.F));
  }
  finish();
  double sum = 0; int nq = 0; bool all = true;
  for (int k = 0; k < K; k++) {
    OrderJob &j = js[k]; order::Pat &a = j.a; long rc = rcs[k]; std::string why; bool fault = r.fired || r.amdfired;
    std::vector<int> P; std::vector<double> F; std::vector<long> cols;
    if (rc >= 0) for (int i = 0; i < a.n; i++) { P.push_back((int)j.P[i]); if (j.P[i] < 0 || j.P[i] >= a.n) why = "?"; }
    if (j.F) F.assign(j.F, j.F + AMD_INFO);
    r.rc = rc; for (int v : P) r.x.push_back(v); for (double v : F) r.z.push_back(v);
    sim::hash((u64)rc); for (int v : P) sim::hash((u64)v);
    for (void *m : {(void *)j.P, (void *)j.C, (void *)j.F}) if (m) sim::dealloc(m, "harness");
    chk(j.Ap, "Ap"); chk(j.Ai, "Ai"); drop(j.Ap); drop(j.Ai);
    if (!ph.main) continue;
    count("orderings");
    if (rc == AMD_OUT_OF_MEMORY && fault) { count("order_no_memory"); if (!F.empty() && F[AMD_STATUS] != rc) { snprintf(buf, sizeof buf, "op %d: the ordering failed, but the information says %g", o.id, F[AMD_STATUS]); violate("orderstatus", buf); } all = false; continue; }
    if (rc != a.expect) { snprintf(buf, sizeof buf, "op %d: the ordering returned %ld instead of %d (%d unknowns, kind %d)", o.id, rc, a.expect, a.n, a.kind); violate("orderstatus", buf); all = false; continue; }
    if (!F.empty() && F[AMD_STATUS] != rc) { snprintf(buf, sizeof buf, "op %d: the ordering returned %ld, but the information says %g", o.id, rc, F[AMD_STATUS]); violate("orderstatus", buf); }
    if (rc < 0) { count("order_refused"); continue; }
    if (!a.n) continue;
    std::vector<u8> seen(a.n, 0);
    if (why.empty()) for (int v : P) { if (seen[v]) why = "?"; seen[v] = 1; }
    if (!why.empty()) { snprintf(buf, sizeof buf, "op %d: the ordering of %d unknowns is no permutation (kind %d)", o.id, a.n, a.kind); violate("orderperm", buf); all = false; continue; }
    cols = order::columns(a, P); long f = 0, mx = 0; for (long v : cols) { f += v; mx = std::max(mx, v + 1); }
    if (!F.empty()) {
      double sym = a.nz == a.nzdiag ? 1 : 2.0 * a.both / (a.nz - a.nzdiag);
      if (F[AMD_N] != a.n || F[AMD_NZ] != a.nz || F[AMD_NZDIAG] != a.nzdiag || F[AMD_NZ_A_PLUS_AT] != 2 * a.edges || fabs(F[AMD_SYMMETRY] - sym) > 1e-12) why = "the information describes another pattern";
      // what it predicts bounds the factor from above, and not wildly
      if (F[AMD_LNZ] < f || F[AMD_DMAX] < mx) { snprintf(buf, sizeof buf, "it predicts a factor of %g entries with at most %g in a column, but it has %ld with up to %ld", F[AMD_LNZ], F[AMD_DMAX], f, mx); why = buf; }
      if (a.control != 3 && F[AMD_LNZ] > f + 0.6 * (f + a.n)) { snprintf(buf, sizeof buf, "it predicts a factor of %g entries, but it has only %ld", F[AMD_LNZ], f); why = buf; }
      count("order_info_checked");
    }
    if (a.control != 3) {
      long best = std::min(order::fill(a, a.natural), order::mindeg(a)); double q = (double)(f - best) / (best + a.n); sum += q; nq++;
      if (q > 0.6) { snprintf(buf, sizeof buf, "the factor has %ld entries, with a good order %ld", f, best); why = buf; }
      count("order_quality_checked");
    }
    if (!why.empty()) { char b2[500]; snprintf(b2, sizeof b2, "op %d: %s (%d unknowns, kind %d)", o.id, why.c_str(), a.n, a.kind); violate("orderfill", b2); }
    else if (!batch) order_factor(j, P, cols, o);
  }
  if (batch && all && ph.main && nq && sum / nq > 0.045) { snprintf(buf, sizeof buf, "op %d: on average over %d patterns the factors are %.1f%% larger than with a good order", o.id, nq, 100 * sum / nq); violate("orderfill", buf); }
  size_t n = sim::live_of_owner(o.handle);
  if (n && ph.main) { snprintf(buf, sizeof buf, "op %d: the ordering left %zu blocks allocated", o.id, n); violate(r.fired || r.amdfired ? "oomleak" : "leak", buf); }
  if (r.outcalls && ph.main) violate("noise", "the ordering wrote output");
}
// the elimination order of a handle, and the size of the factor it was given
static void check_order(QP *q, const Op &o) {
  char buf[300]; kkt *k = q->kkt; long n = k->kktmatrix->n; if (!k->P || !k->Lp) return;
  order::Pat a; a.n = (int)n; a.S.assign(n, std::vector<u8>(n, 0)); std::vector<int> P; std::vector<u8> seen(n, 0);
  for (long c = 0; c < n; c++) for (long p = k->kktmatrix->jc[c]; p < k->kktmatrix->jc[c + 1]; p++) { long i = k->kktmatrix->ir[p]; if (i != c && i >= 0 && i < n) a.S[i][c] = a.S[c][i] = 1; }
  for (long i = 0; i < n; i++) { long v = k->P[i]; if (v < 0 || v >= n || seen[v]) { snprintf(buf, sizeof buf, "op %d: the elimination order of the handle is no permutation", o.id); violate("orderperm", buf); return; } seen[v] = 1; P.push_back((int)v); }
  if (n > 120) return;
  long f = order::fill(a, P); count("handle_orders");
  if (k->Lp[n] != f) { snprintf(buf, sizeof buf, "op %d: the handle predicts a factor of %ld entries, but it has %ld", o.id, (long)k->Lp[n], f); violate("orderfill", buf); }
}
static void check_print(const Rec &r, const Op &o);
static void do_op(Phase &ph, const Op &o) {
  Hnd &h = ph.h[o.handle]; Rec r; Client *c = sim::cur;
  Scenario &s = *ph.s; Problem &q = s.probs[o.prob];
  if (s.priv && o.kind == "setup" && !h.setup_done) { h.priv = fill_inputs(q, {o.api}, [] {}); if (o.perm) h.pperm = put(make_perm(s, o)); }
  Inputs &I = s.priv ? h.priv : ph.in[o.prob];
  c->owner = o.handle;
  if (ph.main && s.env.stack) sim::scribble_stack(mix(s.env.stack, o.id));
  c->fault_nth = c->afault_nth = -1;
  if (ph.main) {
    auto f = ph.afault.find(o.id); if (f != ph.afault.end()) { c->fault_nth = f->second.first; c->fault_len = f->second.second; }
    f = ph.ofault.find(o.id); if (f != ph.ofault.end()) { c->afault_nth = f->second.first; c->afault_len = f->second.second; }
  }
  memset(wrap_time[c->id], 0, sizeof wrap_time[0]); memset(wrap_calls[c->id], 0, sizeof wrap_calls[0]);
  auto finish = [&]() {
    sim::end_op();
    c->fault_nth = c->afault_nth = -1;
    r.ran = true; r.out = c->out.text; r.outcalls = c->out.calls; r.allocs = c->op_allocs; r.amdallocs = c->op_amd_allocs; r.fired = c->op_fired; r.amdfired = c->op_amd_fired; r.outfailed = c->op_out_failed;
  };
  char buf[400];
  if (o.kind == "setup" && !h.setup_done) {
    h.setup_done = true; h.prob = o.prob + (o.noeq ? s.base : 0); h.dense = o.api != 0; h.sigd = o.api == 0 ? o.sig : 0; h.maxit = MAXIT; h.reltol = RELTOL; h.abstol = ABSTOL; h.verbose = 0; h.custom = false;
    long *perm = !o.perm ? nullptr : s.priv ? h.pperm.p : ph.perms[o.id].p;
    // equality constraints are left out by p = 0 or by any missing array
    bool eq = q.p > 0; int pp = o.noeq & 16 ? 0 : q.p; bool na = !eq || (o.noeq & 4), nb = !eq || (o.noeq & 8);
    if (o.noeq && eq) count("eq_unused");
    sim::begin_op(o.id);
    if (o.api == 0) h.q = QP_SETUP(q.n, q.m, pp, I.Pj.p, I.Pi.p, I.Pp.p, !eq || (o.noeq & 1) ? nullptr : I.Aj.p, !eq || (o.noeq & 2) ? nullptr : I.Ai.p, na ? nullptr : I.Ap.p, I.Gj.p, I.Gi.p, I.Gp.p, I.c.p, I.h.p, nb ? nullptr : I.b.p, o.sig, perm);
    else if (o.api == 1) h.q = QP_SETUP_dense(q.n, q.m, pp, I.Pr.p, na ? nullptr : I.Ar.p, I.Gr.p, I.c.p, I.h.p, nb ? nullptr : I.b.p, perm, ROW_MAJOR_ORDERING);
    else h.q = QP_SETUP_dense(q.n, q.m, pp, I.Pc.p, na ? nullptr : I.Ac.p, I.Gc.p, I.c.p, I.h.p, nb ? nullptr : I.b.p, perm, COLUMN_MAJOR_ORDERING);
    u64 mg = margin();
    finish();
    u64 outer = sim::time_outer(), lo = sim::time_lo(mg);
    r.null = !h.q;
    if (r.null && s.priv) drop_inputs(h);
    if (h.q) { snap_stats(r, h.q); time_range("setup time", r.t[0], (double)lo, (double)outer, o.id); }
    if (ph.main) {
      if (r.fired) { h.tainted = true; count("op_setup_alloc_fault"); }
      if (r.null) {
        count("op_setup_null");
        if (!r.fired && r.amdfired) { snprintf(buf, sizeof buf, "op %d: setup returned NULL although only ordering workspace could not be allocated", o.id); violate("ordernull", buf); }
        else if (!r.fired) { snprintf(buf, sizeof buf, "op %d: setup returned NULL although nothing failed", o.id); violate("setupnull", buf); }
        size_t n = sim::live_of_owner(o.handle);
        if (n) { snprintf(buf, sizeof buf, "op %d: setup returned NULL and left %zu blocks allocated", o.id, n); violate("oomleak", buf); }
      }
      if (r.outcalls) { snprintf(buf, sizeof buf, "op %d: setup wrote output although verbose is 0 by default", o.id); violate("noise", buf); }
      if (h.q) check_order(h.q, o);
      if (r.amdfired) { h.tainted = true; count("op_setup_order_fault"); if (!r.null) count("op_order_fallback"); }
    }
    sim::hash(r.null); 
  } else if (o.kind == "set" && h.q) {
    settings *t = h.q->options;
    sim::begin_op(o.id);
    if (o.field == "maxit") { t->maxit = (long)o.val; h.maxit = (long)o.val; }
    else if (o.field == "reltol") { t->reltol = o.val; h.reltol = o.val; }
    else if (o.field == "abstol") { t->abstol = o.val; h.abstol = o.val; }
    else if (o.field == "sigma") { t->sigma = o.val; h.custom = true; }
    else if (o.field == "verbose") { t->verbose = ph.quiet ? 0 : (long)o.val; h.verbose = (int)t->verbose; }
    finish();
  } else if (o.kind == "solve" && h.q) {
    long before = h.q->stats->IterationCount;
    sim::begin_op(o.id);
    r.rc = QP_SOLVE(h.q);
    u64 mg = margin();
    finish();
    u64 outer = sim::time_outer(), lo = sim::time_lo(mg);
    snap(r, h.q); snap_stats(r, h.q);
    r.ran_iters = r.iter - before; h.total += r.ran_iters; h.solved = true;
    time_range("solve time", r.t[1], (double)lo, (double)outer, o.id);
    bool w = &wrap_present != nullptr;
    // with an undisturbed clock the times of the parts are also bounded from above
    bool calm = s.clk.readjump == 0 && s.clk.stallgap == 0 && s.nclients == 1 && ph.main;
    if (w && calm && (long)wrap_calls[c->id][0] >= r.ran_iters && (long)wrap_calls[c->id][1] >= r.ran_iters) {
      const char *nm[2] = {"KKT time", "LDL time"};
      for (int k = 0; k < 2; k++) time_range(nm[k], r.t[2 + k], 0, 1.15 * wrap_time[c->id][k] + (double)wrap_calls[c->id][k] * 400 * s.clk.tick, o.id);
    }
    time_range("KKT time", r.t[2], w ? (double)wrap_time[c->id][0] : 0, r.t[1] * 1e9, o.id);
    time_range("LDL time", r.t[3], w ? (double)wrap_time[c->id][1] : 0, r.t[2] * 1e9, o.id);
    sim::hash((u64)r.rc); sim::hash((u64)r.iter); sim::hash_bytes(r.x.data(), r.x.size() * 8); sim::hash_bytes(r.z.data(), r.z.size() * 8);
    if (ph.main) {
      count(r.rc == QP_OPTIMAL ? "solve_optimal" : r.rc == QP_MAXIT ? "solve_maxit" : "solve_other");
      if (r.fired) { count("op_solve_alloc_fault"); h.tainted = true; }
      if (r.rc != r.flag) { snprintf(buf, sizeof buf, "op %d: solve returned %ld but the stored exit flag is %ld", o.id, r.rc, r.flag); violate("status", buf); }
      if (r.rc < 0 || r.rc > 3) { snprintf(buf, sizeof buf, "op %d: solve returned %ld, which is no exit code", o.id, r.rc); violate("status", buf); }
      if (r.ran_iters < 0 || r.ran_iters > std::max(0L, h.maxit)) { snprintf(buf, sizeof buf, "op %d: %ld iterations in a call whose budget is %ld", o.id, r.ran_iters, h.maxit); violate("budget", buf); }
      if (r.rc == QP_MAXIT && r.ran_iters != std::max(0L, h.maxit)) { snprintf(buf, sizeof buf, "op %d: reported that the iteration limit was reached after %ld of %ld iterations", o.id, r.ran_iters, h.maxit); violate("status", buf); }
      if (r.rc == QP_OPTIMAL) {
        Problem &hq = s.probs[h.prob];
        std::string e = truth_optimal(hq, h.q->p > 0 || hq.p > 0, r.x.data(), r.y.data(), r.z.data(), r.s.data(), r.st[6], h.reltol, h.abstol);
        if (hq.p > 0 && r.y.size() != (size_t)hq.p) e = "no multipliers of the equality constraints";
        if (e.empty()) e = truth_stats(hq, r.x.data(), r.y.data(), r.z.data(), r.s.data(), r.st);
        if (!e.empty()) { snprintf(buf, sizeof buf, "op %d (problem %d): reported optimal but %s", o.id, h.prob, e.c_str()); violate("untrue", buf); }
        count("truth_checked");
      }
      if (well(ph, h) && r.rc != QP_OPTIMAL && (r.rc != QP_MAXIT || h.total >= MAXIT)) { snprintf(buf, sizeof buf, "op %d: a well-posed problem was not solved (exit flag %ld after %ld iterations)", o.id, r.rc, h.total); unsolved(s.probs[h.prob], true, h.reltol, h.abstol, buf); }
      if (h.verbose > 0 && !r.outfailed) check_print(r, o);
      if (h.verbose <= 0 && r.outcalls) { snprintf(buf, sizeof buf, "op %d: wrote output although verbose is 0", o.id); violate("noise", buf); }
    }
  } else if (o.kind == "cleanup" && h.setup_done) {
    sim::begin_op(o.id);
    if (h.q) { if (h.dense) QP_CLEANUP_dense(h.q); else QP_CLEANUP(h.q); }
    finish();
    if (s.priv) drop_inputs(h);
    h.q = nullptr; h.setup_done = false; h.total = 0; h.solved = false; h.tainted = h.tainted;
    if (ph.main) {
      if (h.verbose <= 0 && r.outcalls) { snprintf(buf, sizeof buf, "op %d: clean-up wrote output although verbose is 0", o.id); violate("noise", buf); }
      auto l = sim::live_blocks(o.handle);
      if (!l.empty()) { snprintf(buf, sizeof buf, "op %d: %zu blocks of this handle are still allocated after clean-up (first: %zu bytes, allocated in op %d)", o.id, l.size(), l[0].size, l[0].op); violate("leak", buf); }
      count("op_cleanup");
    }
  } else if (o.kind == "amd") {
    do_amd(ph, o, r, finish);
  } else if (o.kind == "sfun") {
    i64 fn = c->fault_nth, an = c->afault_nth; c->fault_nth = c->afault_nth = -1;
    Block &B = get_block(ph, o); SimStruct &S = B.S; bool e = B.e;
    c->fault_nth = fn; c->afault_nth = an;
    sim::begin_op(o.id);
    double phase = S.period > 0 ? std::fmod(S.now - S.offset + 1e-9, S.period) : 0;     // the model runs at 100 Hz
    if (S.period <= 0 || phase < 2e-9) { if (e) { simblke_outputs(&S, 0); simblke_update(&S, 0); } else { simblk_outputs(&S, 0); simblk_update(&S, 0); } }
    finish();
    for (int k = 0; k < 6; k++) if (!B.fresh[k].empty()) B.stale[k] = B.fresh[k];
    u64 outer = sim::time_outer();
    r.x.assign(S.outbuf[0], S.outbuf[0] + 3); r.rc = (long)S.outbuf[1][0]; r.iter = (long)S.outbuf[2][0];
    r.t[0] = S.outbuf[3][0]; r.t[1] = S.outbuf[4][0];
    time_range("setup time of the block", r.t[0], 0, (double)outer, o.id); time_range("solve time of the block", r.t[1], 0, (double)outer, o.id);
    // one setup and one solve in the step: each is reported with its own time
    if (&wrap_adapter && ph.main && !r.fired && wrap_calls[c->id][2] == 1 && wrap_calls[c->id][3] == 1) {
      bool calm = s.clk.readjump == 0 && s.clk.stallgap == 0 && s.nclients == 1; const char *nm[2] = {"setup time of the block", "solve time of the block"};
      for (int k = 0; k < 2; k++) { double w = (double)wrap_time[c->id][2 + k]; time_range(nm[k], r.t[k], calm ? std::max(0.0, 0.8 * w - 400.0 * s.clk.tick) : 0, w, o.id); }
      count("block_times"); }
    if (r.t[0] + r.t[1] > outer * 1e-9 + 1e-8) { violate("time", "setup and solve time of the block exceed the time of the call"); }
    sim::hash((u64)r.rc); sim::hash_bytes(r.x.data(), 24);
    if (ph.main) {
      count("block_steps");
      if (S.outbuf[1][0] != (double)r.rc || r.rc < 0 || r.rc > 3) violate("status", "the block reported no valid exit flag");
      if (r.fired) { h.tainted = true; count("block_step_alloc_fault"); }
      size_t n = sim::live_of_owner(o.handle);
      if (n) { snprintf(buf, sizeof buf, "op %d: the block step left %zu blocks allocated", o.id, n); violate(r.fired ? "oomleak" : "leak", buf); }
      if (S.badport || (S.error && !r.fired)) violate("blockout", "the block stopped the simulation or used a port it did not declare");
      if (r.outcalls) violate("noise", "the block wrote output although verbose is 0");
      if (r.rc == QP_FATAL && !r.fired) { snprintf(buf, sizeof buf, "op %d: the block reported a failed setup although nothing failed", o.id); violate("setupnull", buf); }
      bool z = true; for (double v : r.x) if (v != 0) z = false;
      if (r.rc == QP_FATAL && (!z || r.iter != 0)) violate("blockout", "the block reported a failed setup together with a solution");
      for (int k = 0; k < 5; k++) for (int i = 0; i < (k ? 1 : 3); i++) if (!memcmp(&S.outbuf[k][i], &SENT, 8)) { violate("blockout", "the block left an output unwritten"); break; }
      if (q.wellposed && r.rc != QP_OPTIMAL && !(r.fired && r.rc == QP_FATAL)) { snprintf(buf, sizeof buf, "op %d: a well-posed problem was not solved by the block (exit flag %ld)", o.id, r.rc); unsolved(q, e, RELTOL, ABSTOL, buf); }
    }
  }
  ph.rec[o.id] = r;
}

// what is printed for a solve are the values of that solve (lines that are recognised)
static void check_print(const Rec &r, const Op &o) {
  std::istringstream in(r.out); std::string l, why; long its = 0, lastit = -1; char last[6][40]; bool have = false, opt = false, lim = false, bad = false; char b[100]; double step[2]; bool steps = false;
  auto fm = [&](double v) { snprintf(b, sizeof b, "%e", v); return std::string(b); };
  while (std::getline(in, l)) {
    long k; char w[5][40];
    if (sscanf(l.c_str(), "It: %ld || pcost : %39s || rx:%39s || ry:%39s || rz:%39s || mu:%39s", &k, last[0], last[1], last[2], last[3], last[4]) == 6) {
      if (its && k != lastit + 1) why = "the printed iteration numbers are not consecutive";
      its++; lastit = k; have = true;
    }
    if (l.find("Optimal Solution Found") != std::string::npos) opt = true;
    if (l.find("Maximum Iterations reached") != std::string::npos) lim = true;
    if (l.find("Unknown Error") != std::string::npos || l.find("Factorization fail") != std::string::npos) bad = true;
    double t, u;
    if (sscanf(l.c_str(), " || Primal Step Size : %lf || Dual Step Size : %lf", &t, &u) == 2) { steps = true; step[0] = t; step[1] = u; }
    if (sscanf(l.c_str(), "Iterations : %ld", &k) == 1 && k != r.iter) why = "the printed number of iterations is not that of the solve";
    if (sscanf(l.c_str(), "KKT_Solve Time : %lf", &t) == 1 && fabs(t - r.t[2] * 1e3) > 1e-6 + 1e-12 * fabs(t)) why = "the printed KKT time is not the reported one";
    if (sscanf(l.c_str(), "LDL Time : %lf", &t) == 1 && fabs(t - r.t[3] * 1e3) > 1e-6 + 1e-12 * fabs(t)) why = "the printed LDL time is not the reported one";
    if (sscanf(l.c_str(), "Solve Time : %lf", &t) == 1 && fabs(t - r.t[1] * 1e3) > 1e-6 + 1e-12 * fabs(t) && fabs(t - (r.t[0] + r.t[1]) * 1e3) > 1e-6 + 1e-12 * fabs(t)) why = "the printed solve time is not the reported one";
  }
  if (have && r.rc == QP_OPTIMAL) {
    double v[5] = {r.st[6], r.st[0], r.st[1], r.st[2], r.st[3]};
    for (int k = 0; k < 5; k++) if (fm(v[k]) != last[k] && !(v[k] != v[k])) { if (strncmp(last[k], fm(v[k]).c_str(), fm(v[k]).size())) why = "the last printed line does not show the values of the returned point"; }
    if (its != r.ran_iters + 1) why = "the number of printed iterations is not that of the call";
    if (lastit != r.iter) why = "the last printed iteration number is not that of the returned point";
  } else if (have && r.rc == QP_MAXIT && (its != r.ran_iters || lastit != r.iter - 1)) why = "the number of printed iterations is not that of the call";
  if (opt != (r.rc == QP_OPTIMAL) && (opt || have)) why = "the text does not state the status of the solve";
  if (lim != (r.rc == QP_MAXIT) && (lim || have)) why = "the text does not state the status of the solve";
  if (bad && (r.rc == QP_OPTIMAL || r.rc == QP_MAXIT)) why = "the text speaks of a failure the solve does not report";
  if (steps && (r.rc == QP_OPTIMAL || r.rc == QP_MAXIT)) for (int k = 0; k < 2; k++) if (fabs(step[k] - r.st[4 + k]) > 1e-6) why = "the last printed step sizes are not the reported ones";
  count("print_checked");
  if (!why.empty()) { snprintf(b, sizeof b, "op %d: %s", o.id, why.c_str()); violate("misprint", b); }
}

// more steps than the calls could possibly need: several times what dense factorisations at every iteration cost
static u64 allowance(Scenario &s, const std::vector<Op> &ops) {
  double a = 2e7; std::map<int, int> prob; std::map<int, double> it;
  auto cube = [&](int p) { Problem &q = s.probs[p]; double N = q.n + q.m + q.p + 4; return N * N * N; };
  for (auto &o : ops) {
    if (o.kind == "setup") { prob[o.handle] = o.prob; it[o.handle] = MAXIT; a += 1e6 + 20 * cube(o.prob); }
    if (o.kind == "set" && o.field == "maxit") it[o.handle] = o.val > 1e6 ? (double)MAXIT : std::max(0.0, o.val);
    if (o.kind == "solve" && prob.count(o.handle)) a += 1e6 + 10 * (it[o.handle] + 2) * cube(prob[o.handle]);
    if (o.kind == "amd") a += 1e8;
    if (o.kind == "sfun") a += 1e6 + 10 * (MAXIT + 6) * cube(o.prob);
  }
  return (u64)a;
}
static void run_phase(Phase &ph, bool main) {
  Scenario &s = *ph.s; ph.main = main;
  sim::step_cap = sim::st.steps + allowance(s, ph.ops);
  sim::reset_memory(); sim::restore_globals(); sim::reset_sync();
  if (s.amdhook) {
    if (&amd_malloc) amd_malloc = sim_amd_malloc;
    if (&amd_free) amd_free = sim_amd_free;
    if (&amd_realloc) amd_realloc = sim_amd_realloc;
    if (&amd_calloc) amd_calloc = sim_amd_calloc;
  }
  if (main) sim::begin_phase(s.env, s.clk, s.out, s.nclients > 1 || s.mode == SCHED_EXPLICIT ? s.mode : SCHED_RUN, s.sseed, s.gap, s.plan);
  else { EnvCfg e; e.stale = ph.stale; e.fpmode = ph.fpmode; sim::begin_phase(e, ClockCfg(), OutCfg(), SCHED_RUN, 1, 1000, {}); }
  build_inputs(ph, main && s.env.fill != 0);
  for (size_t i = 0; i < ph.ops.size(); i++) ph.horder[ph.ops[i].handle].push_back((int)i);
  for (auto &o : ph.horder) { Hnd h; memset(&h.vc, 0, sizeof h.vc); ph.h[o.first] = h; }
  sim::recording = main;
  int nc = main ? s.nclients : 1;
  std::vector<std::function<void(int)>> bodies;
  for (int c = 0; c < nc; c++) bodies.push_back([&ph, main](int id) {
    for (size_t i = 0; i < ph.ops.size(); i++) {
      const Op &o = ph.ops[i];
      if (main && o.client != id) continue;
      Hnd &h = ph.h[o.handle]; auto &ord = ph.horder[o.handle];
      sim::wait_until([&h, &ord, i]() { return h.next < ord.size() && ord[h.next] == (int)i; });
      sim::acquire_vc(h.vc);
      do_op(ph, o);
      sim::release_vc(h.vc);
      h.next++;
    }
    end_blocks(ph, id);
  });
  u64 used0 = sim::st.steps, allow = sim::step_cap - used0;
  sim::run_clients(bodies);
  if (getenv("QPSIM_WORK")) count("work_permille", (sim::st.steps - used0) * 1000 / allow);
  sim::recording = false;
  check_inputs(ph);
}

static bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
static std::string diff(const Rec &a, const Rec &b, bool text, bool sol) {
  char buf[200];
  if (a.ran != b.ran || a.null != b.null) return "one call took place and the other did not";
  if (a.rc != b.rc) { snprintf(buf, sizeof buf, "exit flag %ld instead of %ld", a.rc, b.rc); return buf; }
  if (a.iter != b.iter) { snprintf(buf, sizeof buf, "%ld iterations instead of %ld", a.iter, b.iter); return buf; }
  if (sol) {
    const std::vector<double> *va[4] = {&a.x, &a.y, &a.z, &a.s}, *vb[4] = {&b.x, &b.y, &b.z, &b.s}; const char *nm[4] = {"x", "y", "z", "s"};
    for (int k = 0; k < 4; k++) if (!same(*va[k], *vb[k])) { size_t i = 0; while (i < va[k]->size() && i < vb[k]->size() && !memcmp(&(*va[k])[i], &(*vb[k])[i], 8)) i++; snprintf(buf, sizeof buf, "%s[%zu] is %.17g instead of %.17g", nm[k], i, i < va[k]->size() ? (*va[k])[i] : NAN, i < vb[k]->size() ? (*vb[k])[i] : NAN); return buf; }
  }
  const char *sn[7] = {"n_rx", "n_ry", "n_rz", "n_mu", "alpha_p", "alpha_d", "fval"};
  for (int k = 0; k < 7; k++) if (memcmp(&a.st[k], &b.st[k], 8)) { snprintf(buf, sizeof buf, "statistic %s is %.17g instead of %.17g", sn[k], a.st[k], b.st[k]); return buf; }
  if (a.flag != b.flag || a.amd != b.amd) return "stored status differs";
  if (text && mask_times(a.out) != mask_times(b.out)) { snprintf(buf, sizeof buf, "the printed text differs (%zu and %zu characters)", a.out.size(), b.out.size()); return buf; }
  return "";
}

// the same problem through another entry or storage order
static void other_entry(Scenario &s, Op &o) {
  Problem &q = s.probs[o.prob]; bool plain = !q.jumble && o.sig == 0;
  for (auto *z : {&q.zP, &q.zG, &q.zA}) for (u8 v : *z) if (v) plain = false;
  int to = plain ? (o.api + 1 + (int)(o.permseed & 1)) % 3 : o.api == 1 ? 2 : o.api == 2 ? 1 : 0;
  if (to == o.api) return;
  if (o.noeq) o.noeq = 16;
  o.api = to; count("other_entry");
}

void run_scenario(const std::string &text) {
  Scenario s = parse(text);
  if (!s.valid) { violate("invalid", "the scenario refers to something it does not define"); return; }
  // reference executions: every handle alone, from the initial state of the library, in the canonical environment
  std::map<int, Rec> ref, merged; std::set<int> handles; std::map<int, u64> setup_allocs, setup_orders;
  for (auto &o : s.ops) handles.insert(o.handle);
  for (int hd : handles) {
    Phase p; p.s = &s; p.quiet = s.refquiet;
    for (auto &o : s.ops) if (o.handle == hd) p.ops.push_back(o);
    if (s.refapi) for (auto &o : p.ops) if (o.kind == "setup") other_entry(s, o);
    run_phase(p, false);
    for (auto &r : p.rec) ref[r.first] = r.second;
    p.ops.clear(); for (auto &o : s.ops) if (o.handle == hd) p.ops.push_back(o);
    // the same work with the iteration budgets of successive solves in one call
    std::vector<Op> mo; double tot = 0; int nsolve = 0, lastsolve = -1; bool ok = true, insolve = false; double cur = MAXIT, lastb = 0;
    for (auto &o : p.ops) {
      if (o.kind == "setup") { if (!mo.empty()) ok = false; mo.push_back(o); }
      else if (o.kind == "set" && o.field == "maxit") cur = o.val;
      else if (o.kind == "set" && o.field == "verbose") {}
      else if (o.kind == "set") { if (insolve) ok = false; mo.push_back(o); }
      else if (o.kind == "solve") { if (lastsolve == -2) ok = false; else { insolve = true; nsolve++; tot += std::max(0.0, cur); lastsolve = o.id; lastb = cur; } }
      else if (o.kind == "cleanup") break; else ok = false;
    }
    if (ok && lastb >= 1 && nsolve > 1 && !mo.empty() && mo[0].kind == "setup") {
      Phase p2; p2.s = &s; p2.ops = mo;
      Op st; st.id = 1000000; st.handle = hd; st.kind = "set"; st.field = "maxit"; st.val = tot; Op so; so.id = 1000001; so.handle = hd; so.kind = "solve";
      p2.ops.push_back(st); p2.ops.push_back(so);
      run_phase(p2, false);
      merged[lastsolve] = p2.rec[1000001];
    }
  }
  // the same calls in the same environment, except for what the caller's earlier work left in errno and the exception flags
  if (s.stale) for (int hd : handles) {
    Phase p; p.s = &s; p.quiet = s.refquiet; p.stale = s.stale; char b[400];
    for (auto &o : s.ops) if (o.handle == hd) p.ops.push_back(o);
    run_phase(p, false); count("stale_histories");
    for (auto &o : p.ops) {
      std::string d = diff(p.rec[o.id], ref[o.id], true, o.kind == "solve");
      if (d.empty()) { count("stale_compared"); continue; }
      snprintf(b, sizeof b, "op %d (%s, handle %d): stale exception flags or error codes of the caller change the call: %s", o.id, o.kind.c_str(), o.handle, d.c_str()); violate("stale", b); break;
    }
  }
  Phase m; m.s = &s; m.ops = s.ops;
  for (auto &f : s.faults) {
    u64 n = f.order ? ref[f.op].amdallocs : ref[f.op].allocs;
    if (n) (f.order ? m.ofault : m.afault)[f.op] = {1 + (i64)((u64)f.r % n), f.len};
  }
  run_phase(m, true);
  // simulink blocks against the core entry point on the same data
  std::map<int, Rec> blk;
  for (auto &o : s.ops) if (o.kind == "sfun") {
    Phase p; p.s = &s; Op a; a.kind = "setup"; a.id = 2000000; a.handle = 1; a.prob = o.prob; a.api = 2; Op b = a; b.kind = "solve"; b.id++; 
    Problem keep = s.probs[o.prob]; if (o.variant == 0) { s.probs[o.prob].p = 0; s.probs[o.prob].A.clear(); s.probs[o.prob].b.clear(); s.probs[o.prob].zA.clear(); }
    p.ops = {a, b}; run_phase(p, false); blk[o.id] = p.rec[2000001];
    s.probs[o.prob] = keep;
  }
  std::set<int> taintedh; std::map<int, const Op *> byid;
  for (auto &o : s.ops) byid[o.id] = &o;
  char buf[500];
  for (auto &o : s.ops) {
    Rec &a = m.rec[o.id], &b = ref[o.id];
    if (!a.ran) continue;
    if (a.fired || a.amdfired) taintedh.insert(o.handle);
    if (a.fired && o.kind != "sfun") continue;
    if (o.kind == "amd" && a.amdfired) continue;
    if (o.kind == "sfun") {
      if (a.fired && a.rc == QP_FATAL) continue;      // a failed setup, reported as such
      if (a.fired || a.amdfired) {                    // survived, perhaps with another elimination order: the same point, not bit by bit
        std::string e;
        if (a.rc == QP_OPTIMAL && a.iter == 0 && b.iter != 0) e = "reported an optimal solution after 0 iterations";
        if (s.probs[o.prob].wellposed) for (int i = 0; i < 3; i++) if (!(std::fabs(a.x[i] - b.x[i]) <= 0.1 * (1 + std::fabs(b.x[i])))) e = "x[" + std::to_string(i) + "] is " + num(a.x[i]) + " instead of " + num(b.x[i]);
        if (!e.empty()) { snprintf(buf, sizeof buf, "op %d: the block step survived a failed allocation, but %s (exit flag %ld)", o.id, e.c_str(), a.rc); violate("blockdiff", buf); }
        count("block_survived");
        continue;
      }
      std::string d = diff(a, b, false, true);
      if (!d.empty()) { snprintf(buf, sizeof buf, "op %d: block outputs differ from those of the same step alone: %s", o.id, d.c_str()); violate("blockdiff", buf); }
      Rec &k = blk[o.id]; bool bad = k.rc != a.rc || k.iter != a.iter; for (int i = 0; i < 3; i++) if (i < (int)k.x.size() && memcmp(&k.x[i], &a.x[i], 8)) bad = true;
      if (bad) { snprintf(buf, sizeof buf, "op %d: block outputs (exit flag %ld, %ld iterations, x0 %.17g) differ from the solver's (%ld, %ld, %.17g)", o.id, a.rc, a.iter, a.x[0], k.rc, k.iter, k.x.empty() ? NAN : k.x[0]); violate("blockdiff", buf); }
      continue;
    }
    if (taintedh.count(o.handle)) continue;
    bool text = !s.refquiet && !s.refapi && a.outfailed == 0;
    std::string d = diff(a, b, text, o.kind == "solve" || o.kind == "amd");
    if (!d.empty()) {
      bool onlytext = d.find("printed text") != std::string::npos;
      snprintf(buf, sizeof buf, "op %d (%s, handle %d): differs from the same calls alone%s in a quiet environment: %s", o.id, o.kind.c_str(), o.handle, s.refapi ? " through another entry" : "", d.c_str());
      violate(s.refapi ? "entrydiff" : onlytext ? "difftext" : "differs", buf); continue;
    }
    if (s.refquiet || a.outcalls == b.outcalls || a.outfailed) {} 
    auto mg = merged.find(o.id);
    if (mg != merged.end() && o.kind == "solve") {
      Rec x = a; d = diff(x, mg->second, false, true);
      count("resume_checked");
      if (!d.empty()) { snprintf(buf, sizeof buf, "op %d: continuing with a further budget does not give what one call with the whole budget gives: %s", o.id, d.c_str()); violate("resume", buf); }
    }
    count("ops_compared");
  }
  // a host with a floating-point mode of its own: it is not the library's to change
  if (s.fpmode) for (int hd : handles) {
    Phase p; p.s = &s; p.quiet = s.refquiet; p.fpmode = s.fpmode;
    for (auto &o : s.ops) if (o.handle == hd) p.ops.push_back(o);
    run_phase(p, false); count("fpmode_histories");
  }
  // an optimal handle solved again stays where it is
  std::map<int, const Rec *> last;
  for (auto &o : s.ops) {
    Rec &a = m.rec[o.id];
    if (!a.ran) continue;
    if (o.kind == "setup" || o.kind == "cleanup") last.erase(o.handle);
    if (o.kind == "set" && (o.field == "reltol" || o.field == "abstol")) last.erase(o.handle);
    if (o.kind == "set" && o.field == "maxit" && o.val < 1) last.erase(o.handle);
    if (o.kind == "solve") {
      auto it = last.find(o.handle);
      if (it != last.end() && it->second->rc == QP_OPTIMAL) {
        count("idempotent_checked");
        if (a.rc != QP_OPTIMAL || a.ran_iters != 0 || !same(a.x, it->second->x) || !same(a.z, it->second->z)) { snprintf(buf, sizeof buf, "op %d: solving an optimal handle again gave exit flag %ld after %ld more iterations", o.id, a.rc, a.ran_iters); violate("resume", buf); }
      }
      last[o.handle] = &a;
      if (a.rc != QP_OPTIMAL) {}
    }
  }
}

// ---------------------------------------------------------------- scenario generation
struct Gen { std::ostringstream o; Rng r; Gen(u64 s) : r(s) {} };
static std::string pick_kind(Rng &r, const std::string &prof) {
  static const std::vector<std::string> wp = {"strict", "strict", "box", "zerorow", "mpc", "int", "cone", "mild", "mild"};
  if (prof == "c02") return wp[r.below(wp.size())];
  if (r.chance(0.45)) return wp[r.below(wp.size())];
  return problem_kinds[r.below(problem_kinds.size())];
}
static std::string tolerance(Rng &r) {
  static const char *tol[] = {"1e-3", "1e-4", "1e-8", "1e-9", "0.1", "1", "1e-6"};
  if (r.chance(0.7)) return tol[r.below(7)];
  char b[32]; snprintf(b, sizeof b, "%.3g", pow(10, r.uni() * 16 - 13)); return b;
}
std::string gen_scenario(const std::string &prof, u64 seed) {
  u64 ph = 0; for (char ch : prof) ph = mix(ph, (u64)ch);
  Gen g(mix(mix(seed, 0x51ab), ph)); Rng &r = g.r; auto &o = g.o;
  o << "profile " << prof << "\n";
  auto P = [&](const char *p) { return prof == p; };
  int nc = 1;
  if (P("c04")) nc = r.range(2, 5);
  else if (P("c06")) nc = r.chance(0.4) ? r.range(2, 3) : 1;
  else if (!P("c05") && r.chance(P("c08") || P("c09") ? 0.25 : 0.4)) nc = r.range(2, 4);
  bool blocks = P("c18");
  // problems
  int np = r.range(1, P("c04") || P("c10") ? 2 : 3);
  bool big = r.chance(0.03), huge = mix(seed, 79) % 1200 == 0;
  if (huge) { big = true; np = nc = 1; }
  bool many = !huge && mix(seed, 81) % 250 == 0;       // dozens of handles, alive one after the other or all at once
  if (many) { big = false; np = 1; nc = std::min(nc, 2); }
  int maxn = 1; u64 ps0 = 0; int ez0 = 0;
  std::vector<int> pn, pm, pp; std::vector<std::string> pk;
  for (int i = 0; i < np; i++) {
    int n = r.range(1, 6), m = r.range(1, 10), p = r.chance(0.5) ? 0 : r.range(1, 3);
    if (r.chance(0.1)) { n = r.range(6, 16); m = r.range(6, 30); p = r.range(0, 5); }
    if (big && i == 0) { n = r.range(20, 60); m = r.range(30, 120); p = r.range(0, 8); }
    if (many) { n = r.range(1, 3); m = r.range(1, 4); p = n > 1 && r.chance(0.3); }
    if (huge) { n = r.range(50, 200); m = r.range(60, 320); p = r.range(0, 30); }
    std::string k = pick_kind(r, prof);
    if (blocks) { n = std::max(n, 3); if (k == "nan" || k == "infeas" || k == "unbounded") k = r.chance(0.8) ? "strict" : k; }
    if (big && i && k != "zerorow" && k != "box") k = "strict";
    if (big && i == 0) k = r.chance(0.5) ? "strict" : r.chance(0.5) ? "mpc" : "box";
    if (P("c12") && r.chance(0.7)) k = "strict";
    if (P("c09") && r.chance(0.6)) k = r.chance(0.5) ? "zerorow" : "strict";
    int ez = r.chance(0.25) ? r.range(5, 60) : 0;
    u64 ps = r.below(1ull << 40), var = 0;
    if (i && r.chance(0.5)) { n = pn[0]; m = pm[0]; p = pp[0]; if (r.chance(0.6)) { k = pk[0]; ps = ps0; ez = ez0; var = 1 + r.below(1000); if (r.chance(0.4)) var |= problem_reordered; } }   // same sizes, often the same pattern, other numbers
    if (!i) { ps0 = ps; ez0 = ez; }
    o << "prob " << i << " " << k << " " << n << " " << m << " " << p << " " << ps << " " << ez << " " << var << " " << (r.chance(P("c09") ? 0.35 : 0.1) ? 1 + r.below(1000000) : 0) << "\n";
    pn.push_back(n); pm.push_back(m); pp.push_back(p); pk.push_back(k); maxn = std::max(maxn, n);
  }
  // environment
  bool cleanenv = P("c04") ? r.chance(0.7) : P("c03") || P("c12") ? r.chance(0.5) : P("c05") ? false : r.chance(0.2);
  if (!cleanenv) o << "env " << 1 + r.below(1u << 30) << " " << r.range(0, 4) << " " << (r.chance(0.5) ? 0 : 16 << r.range(0, 8)) << " " << (r.chance(0.3) ? 0 : r.range(10, 100)) << " " << (r.chance(0.2) ? 0 : 1 + r.below(1u << 30)) << " " << r.below(1u << 30) << "\n";
  { // clock
    double pj = P("c06") ? 0.8 : 0.3;
    u64 base = r.chance(0.5) ? r.below(1ull << 50) : (r.below(100000) * 1000000000ull + 999990000ull + r.below(10000));
    u64 tick = P("c06") ? (r.chance(0.5) ? r.range(1, 20) : 1 << r.range(0, 14)) : r.range(1, 4);
    if (r.chance(pj)) o << "clock " << tick << " " << base << " " << (r.chance(0.6) ? r.range(1, 400) : 0) << " " << (r.chance(0.6) ? (u64)1 << r.range(6, 18) : 0) << " " << r.range(8, (P("c06") ? 38 : 34) + (mix(seed, 78) % 8 == 0 ? 8 : 0)) << " " << r.below(1u << 30) << "\n";
    else o << "clock " << tick << " " << base << " 0 0 30 1\n";
  }
  bool outfault = P("c12") ? r.chance(0.6) : r.chance(0.1);
  if (outfault) o << "out " << r.range(1, 3) << " " << r.below(1u << 30) << "\n";
  if (P("c12") && r.chance(0.5)) o << "refquiet 1\n";
  if (P("c22")) o << "refapi 1\n";
  if (P("c21")) o << "stale " << 1 + r.below(1u << 30) << "\n";
  if (P("c21") && mix(seed, 90) % 2) {      // the host computes with directed rounding, without denormals, or wants to hear of overflow, division by zero or invalid operations
    u64 v = mix(seed, 91); u32 f = 0;
    if (v & 1) f |= (u32)(1 + (v >> 8) % 3) << 13;
    if (v & 2) f |= 0x8000; if (v & 4) f |= 0x40;
    if (v & 8) f |= 0x80; if (v & 16) f |= 0x200; if (v & 32) f |= 0x400;
    if (f) o << "fpmode " << f << "\n";
  }
  if (r.chance(P("c18") ? 0.7 : 0.4)) o << "private 1\n";
  if (P("c18") && mix(seed, 77) % 3 == 0) o << "scatter 1\n";
  bool amdhook = P("c09") || r.chance(0.25);
  if (amdhook) o << "amdhook 1\n";
  o << "clients " << nc << "\n";
  if (nc > 1) { static const int gaps[] = {3, 20, 100, 400, 2000, 10000, 50000}; o << "sched seed " << r.below(1u << 30) << " " << gaps[r.below(7)] << "\n"; }
  // histories
  struct HOp { int h; std::string t; };
  std::vector<std::vector<std::string>> hist; std::vector<int> home;
  int nh = P("c04") ? r.range(nc, nc + 3) : r.range(1, big ? 2 : 4);
  if (P("c07") || P("c08")) nh = r.range(1, big ? 2 : 6);
  if (huge) nh = 1;
  if (many) nh = r.range(20, 140);
  for (int h = 0; h < nh; h++) {
    std::vector<std::string> v; int pb = (int)r.below(np); std::ostringstream t;
    if (P("c20") && r.chance(0.85)) {
      int k = r.range(1, 3); for (int i = 0; i < k; i++) v.push_back("amd " + std::to_string(r.below(1ull << 40)) + (r.chance(0.08) ? " 1" : ""));
      hist.push_back(v); home.push_back((int)r.below(nc)); continue;
    }
    if (blocks && r.chance(0.85)) {
      int steps = 1;
      for (int k = 0; k < steps; k++) { std::ostringstream q; q << "sfun " << pb << " " << (pp[pb] > 0 && r.chance(0.6) ? 1 : 0); v.push_back(q.str()); }
      hist.push_back(v); home.push_back((int)r.below(nc)); continue;
    }
    int api = r.range(0, 2), perm = r.chance(0.6) ? 0 : r.range(1, 3);
    if (P("c09")) perm = r.chance(0.95) ? 0 : 2;
    int noeq = 0;
    if (pp[pb] > 0 && r.chance(P("c09") ? 0.3 : P("c11") ? 0.2 : 0.08)) noeq = api ? (r.chance(0.25) ? 16 : r.chance(0.4) ? 12 : r.chance(0.5) ? 4 : 8) : (r.chance(0.2) ? 16 : r.chance(0.4) ? 15 : 1 + (int)r.below(15));
    double sig = api == 0 && !P("c02") && r.chance(0.15) ? (r.chance(0.5) ? 0.1 : r.uni()) : 0;
    t << "setup " << pb << " " << api << " " << perm << " " << r.below(1u << 30) << " " << num(sig); if (noeq) t << " " << noeq;
    v.push_back(t.str());
    if (P("c20")) { v.push_back("cleanup"); hist.push_back(v); home.push_back((int)r.below(nc)); continue; }
    if (P("c07") && r.chance(0.15)) { v.push_back("cleanup"); hist.push_back(v); home.push_back((int)r.below(nc)); continue; }
    bool settings_ = !P("c02") && r.chance(P("c01") ? 0.7 : 0.35);
    if (settings_ && r.chance(0.5)) v.push_back("set reltol " + tolerance(r));
    if (settings_ && r.chance(0.5)) v.push_back("set abstol " + tolerance(r));
    if (settings_ && r.chance(0.2)) { static const char *sg[] = {"0", "0.5", "1", "10", "1e-3"}; v.push_back(std::string("set sigma ") + sg[r.below(5)]); }
    double pv = P("c12") ? 0.85 : 0.12;
    if (r.chance(pv)) v.push_back("set verbose " + std::to_string(r.range(1, 2)));
    else if (P("c12") && r.chance(0.3)) v.push_back("set verbose 0");
    int solves = 1;
    bool re = P("c03") || r.chance(P("c12") || P("c06") || P("c01") ? 0.4 : 0.25);
    if (re) solves = r.range(2, P("c03") ? 6 : 4);
    if (re && !big && !many && mix(seed, 80 + h) % (P("c03") ? 16 : 40) == 0) solves = r.range(10, 30);
    bool endless = mix(seed, 95 + h) % 24 == 0;
    for (int k = 0; k < solves; k++) {
      if (!k && endless) { static const char *hb[] = {"4294967296", "2147483648", "1099511627777", "4294967300", "3000000000"}; v.push_back(std::string("set maxit ") + hb[mix(seed, 96 + h) % 5]); v.push_back("solve"); v.push_back("set maxit 100"); }
      if (re && r.chance(k + 1 < solves ? 0.8 : 0.4)) { static const int b[] = {0, 1, 1, 2, 3, 4, 5, 7, 10, 100, 200}; v.push_back("set maxit " + std::to_string(solves > 6 ? (int)r.below(3) : b[r.below(P("c03") ? 10 : 11)])); }
      else if (!re && !P("c02") && r.chance(0.15)) v.push_back("set maxit " + std::to_string(r.range(0, 12)));
      if (re && k && r.chance(0.1)) v.push_back("set reltol " + std::string(r.chance(0.5) ? "1e-9" : "1e-3"));
      if (re && k && r.chance(0.05)) v.push_back("set abstol 1e-9");
      if (P("c12") && k && r.chance(0.4)) v.push_back("set verbose " + std::to_string(r.range(0, 2)));
      if (P("c02") && re && k + 1 < solves) { v.push_back("set maxit " + std::to_string(r.range(0, 9))); }
      if (P("c02") && re && k + 1 == solves) v.push_back("set maxit 100");
      v.push_back("solve");
    }
    if (r.chance(P("c07") ? 0.97 : 0.75)) {
      v.push_back("cleanup");
    }
    hist.push_back(v); home.push_back((int)r.below(nc));
  }
  if (P("c04")) for (int h = 0; h < nh && h < nc; h++) home[h] = h;
  // interleave; operations of a handle stay in order; handles may move between clients
  std::vector<size_t> at(hist.size(), 0); int id = 0; bool migrate = nc > 1 && r.chance(0.3); std::vector<int> setups, sfuns, solveops, amds;
  bool seq = r.chance(many ? 0.6 : 0.3); int cur = -1;
  for (;;) {
    std::vector<int> live; for (size_t h = 0; h < hist.size(); h++) if (at[h] < hist[h].size()) live.push_back((int)h);
    if (live.empty()) break;
    int h = live[r.below(live.size())];
    if (seq && cur >= 0 && at[cur] < hist[cur].size()) h = cur;
    cur = h;
    int c = home[h]; if (migrate && r.chance(0.3)) c = home[h] = (int)r.below(nc);
    const std::string &t = hist[h][at[h]++];
    o << "op " << id << " " << c << " " << h << " " << t << "\n";
    if (t.compare(0, 5, "setup") == 0) setups.push_back(id);
    if (t.compare(0, 4, "sfun") == 0) sfuns.push_back(id);
    if (t.compare(0, 4, "amd ") == 0) amds.push_back(id);
    if (t == "solve") solveops.push_back(id);
    id++;
  }
  double pa = P("c08") ? 0.8 : P("c18") ? 0.4 : P("c11") || P("c07") ? 0.35 : P("c05") || P("c03") ? 0.0 : 0.12;
  double po = P("c09") ? 0.75 : 0.3;
  auto len = [&]() { return r.chance(0.7) ? 1 : r.chance(0.5) ? r.range(2, 6) : 1000; };
  for (int s : setups) { if (r.chance(pa)) o << "fault alloc " << s << " " << r.below(1u << 20) << " " << len() << "\n"; if (amdhook && r.chance(po)) o << "fault order " << s << " " << r.below(1u << 20) << " " << len() << "\n"; }
  for (int s : amds) if (r.chance(0.2)) o << "fault " << (amdhook ? "order " : "alloc ") << s << " " << r.below(1u << 20) << " " << len() << "\n";
  for (int s : sfuns) if (r.chance(pa)) o << "fault alloc " << s << " " << r.below(1u << 20) << " " << len() << "\n";
  for (int s : solveops) if (pa > 0.3 && r.chance(0.15)) o << "fault alloc " << s << " " << r.below(1u << 20) << " " << len() << "\n";
  return o.str();
}
int main(int argc, char **argv) { return harness_main(argc, argv); }
