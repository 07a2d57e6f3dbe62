#include "core.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <time.h>
#include <algorithm>

namespace sim {
Client *cur = nullptr;
std::vector<Client *> clients;
Stats st;
std::vector<Violation> viol;
u64 now_ns = 1000000000ull;
u64 evhash = 0;
std::vector<Switch> sched_log;
std::set<u64> sites;
EnvCfg env; ClockCfg clk; OutCfg outc;
bool recording = false;
u64 step_cap = 400000000ull;
std::function<void()> emit_and_exit;
std::function<void()> alloc_fail_cb;
void (*foreign_cb)(u64, u64, bool, u64); u64 foreign_lo, foreign_hi;

static SchedMode smode = SCHED_RUN;
static double sgap = 1000;
static std::vector<Switch> splan;
static u64 sseed = 1;
static Rng alloc_rng(1), out_rng(1);
static u64 alloc_index = 0;

// ---------------------------------------------------------------- memory layout
static const u64 HEAP = 0x200000000000ull, HEAP_SZ = 192ull << 20;
static const u64 INP = HEAP + HEAP_SZ, INP_SZ = 64ull << 20;
static const u64 ARENA_SZ = HEAP_SZ + INP_SZ;
static const u64 SHADOW = 0x210000000000ull;      // 1 byte per 8
static const u64 CELLS = 0x220000000000ull;       // race cells, 16 bytes per 8
static const u64 STACKS = 0x230000000000ull, STACK_SZ = 2ull << 20;
static const u64 GCELLS = 0x240000000000ull;

struct Cell { u16 wclk; u8 wtid; u8 wmask; u16 rclk[MAXC]; };
static_assert(sizeof(Cell) == 16, "");

extern "C" {
extern char __start_libdata[] __attribute__((weak)); extern char __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)); extern char __stop_libbss[] __attribute__((weak));
}
static u64 gd0, gd1, gb0, gb1;
static std::vector<char> snap_data, snap_bss;

struct Block { size_t size, cap; int owner, op; bool live, input; };
static std::map<u64, Block> blocks;     // by address, live and freed (heap), live inputs
static std::vector<u64> freelist, in_free;
static u64 brk_heap, brk_inp;
static bool multi = false;

static inline u8 *sh(u64 a) { return (u8 *)(SHADOW + ((a - HEAP) >> 3)); }
static void poison(u64 a, size_t n, u8 v) { if (n) memset(sh(a), v, (n + 7) >> 3); }
static void unpoison(u64 a, size_t n) { memset(sh(a), 0, n >> 3); if (n & 7) *sh(a + (n & ~7ull)) = n & 7; }

std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

void hash(u64 v) { if (recording) evhash = mix(evhash, v); }
void hash_bytes(const void *p, size_t n) { if (!recording) return; const u8 *b = (const u8 *)p; u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; hash(h); }

void violate(const std::string &cls, const std::string &text) {
  for (auto &v : viol) if (v.cls == cls) return;
  viol.push_back({cls, text});
}
void fatal(const std::string &cls, const std::string &text) {
  violate(cls, text);
  if (emit_and_exit) emit_and_exit();
  _exit(97);
}

static void *map_at(u64 a, u64 n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { fprintf(stderr, "qpsim: cannot map %llx\n", (unsigned long long)a); _exit(98); }
  return p;
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
  // an exception the host wants to hear of: it would handle it and go on
  if (sig == SIGFPE && si->si_code != FPE_INTDIV && cur && cur->in_op && (env.fpmode & 0x1f80)) {
    auto *f = ((ucontext_t *)uc)->uc_mcontext.fpregs; f->mxcsr = (f->mxcsr | 0x1f80) & ~0x3fu; f->cwd |= 0x3f; f->swd &= (u16)~0x80ff; cur->trapped = true; return;
  }
  static volatile int again = 0;
  static u64 seen = ~0ull;
  if (sig == SIGPROF && (!cur || st.steps != seen)) { seen = st.steps; return; }     // CPU time passes, but the calls progress
  if (again++) _exit(96);
  if (sig == SIGPROF) { violate("hang", "the run used its CPU-time limit without reaching the next scheduling point"); }
  else {
    char b[200];
    snprintf(b, sizeof b, "%s at address %s while client %d ran operation %d", strsignal(sig),
             (u64)si->si_addr < 4096 ? "near NULL" : "elsewhere", cur ? cur->id : -1, cur ? cur->op : -1);
    violate("crash", b);
  }
  if (emit_and_exit) emit_and_exit();
  _exit(96);
}

void snapshot_globals() {
  if (gd1 > gd0) snap_data.assign((char *)gd0, (char *)gd1);
  if (gb1 > gb0) snap_bss.assign((char *)gb0, (char *)gb1);
}
void init() {
  map_at(HEAP, ARENA_SZ); map_at(SHADOW, ARENA_SZ / 8); map_at(CELLS, ARENA_SZ * 2);
  map_at(STACKS, STACK_SZ * (MAXC + 2));
  gd0 = (u64)__start_libdata; gd1 = (u64)__stop_libdata; gb0 = (u64)__start_libbss; gb1 = (u64)__stop_libbss;
  snapshot_globals();
  map_at(GCELLS, std::max<u64>(4096, ((gd1 - gd0) + (gb1 - gb0)) * sizeof(Cell) + 8192));
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGTRAP}) sigaction(s, &sa, nullptr);
  brk_heap = HEAP + 4096; brk_inp = INP + 4096;
  memset((void *)SHADOW, 0, 1);
}

void restore_globals() {
  if (!snap_data.empty()) memcpy((void *)gd0, snap_data.data(), snap_data.size());
  if (!snap_bss.empty()) memcpy((void *)gb0, snap_bss.data(), snap_bss.size());
}

static void reset_arena() {
  u64 used_h = brk_heap - HEAP + 65536, used_i = brk_inp - INP + 65536;
  if (used_h > HEAP_SZ) used_h = HEAP_SZ;
  if (used_i > INP_SZ) used_i = INP_SZ;
  // unallocated memory carries no addressable bytes
  memset(sh(HEAP), 0xf0, used_h >> 3); memset(sh(INP), 0xf0, used_i >> 3);
  memset((void *)HEAP, 0, used_h); memset((void *)INP, 0, used_i);
  if (multi) { memset((void *)CELLS, 0, used_h * 2); memset((void *)(CELLS + HEAP_SZ * 2), 0, used_i * 2); }
  blocks.clear(); freelist.clear(); in_free.clear();
  brk_heap = HEAP + 4096; brk_inp = INP + 4096;
  alloc_index = 0;
}

// ---------------------------------------------------------------- scheduling
static sem_t csem[MAXC + 2], msem;
static std::vector<std::function<void(int)>> bodies_;
static u64 last_pc = 0;

static const u64 FORCE = 3000000;     // a client that spins gives way in the end
static void plan_next(Client *c) {
  c->next_switch = ~0ull; c->switch_target = -1;
  c->next_force = clients.size() > 1 ? c->local + FORCE : ~0ull;
  if (smode == SCHED_SEED && clients.size() > 1) c->next_switch = c->local + c->rng.geometric(sgap);
  else if (smode == SCHED_EXPLICIT) {
    while (c->plan_pos < splan.size()) {
      auto &s = splan[c->plan_pos];
      if (s.client == c->id && s.step > c->local) { c->next_switch = s.step; c->switch_target = s.target; break; }
      c->plan_pos++;
    }
  }
  c->next_event = std::min(std::min(c->next_switch, c->next_stall), c->next_force);
}
static void plan_stall(Client *c) {
  c->next_stall = clk.stallgap ? c->local + c->rng.geometric((double)clk.stallgap) : ~0ull;
  c->next_event = std::min(std::min(c->next_switch, c->next_stall), c->next_force);
}

static bool runnable(Client *c) {
  if (c->done) return false;
  if (!c->blocked) return true;
  return c->ready && c->ready();
}
static Client *next_runnable(int after) {
  int n = (int)clients.size();
  for (int k = 1; k <= n; k++) { Client *c = clients[(after + k) % n]; if (runnable(c)) return c; }
  return nullptr;
}
// Clients are user-level contexts on stacks of their own; real threads that pass a baton are used instead when
// the library has thread-local storage (the build then links sim_use_threads).
extern "C" {
extern int sim_use_threads __attribute__((weak));
void sim_ctx_switch(void **save, void *load);
}
__asm__(".text\n.globl sim_ctx_switch\nsim_ctx_switch:\n"
        " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
        " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
        " ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
static void *ctx[MAXC + 2], *main_ctx;
static bool threads_ = false;
static void transfer(Client *from, Client *to) {   // from keeps waiting until chosen again
  cur = to;
  if (!threads_) { sim_ctx_switch(&ctx[from->id], ctx[to->id]); return; }
  sem_post(&csem[to->id]);
  while (sem_wait(&csem[from->id]) != 0) {}
}
static void do_switch(Client *c, u64 pc) {
  Client *t = nullptr;
  if (smode == SCHED_SEED) {
    std::vector<Client *> r;
    for (auto *x : clients) if (x != c && runnable(x)) r.push_back(x);
    if (!r.empty()) t = r[c->rng.below(r.size())];
  } else if (c->switch_target >= 0 && c->switch_target < (int)clients.size()) {
    t = clients[c->switch_target];
    if (t == c || !runnable(t)) t = nullptr;
  }
  if (t) {
    st.switches++;
    hash(mix(0x5157, mix(c->id, mix(c->local, t->id))));
    if (sched_log.size() < 200000) sched_log.push_back({c->id, c->local, t->id});
    u64 here = pc;
    t->blocked = false;
    transfer(c, t);
    if (recording && sites.size() < 100000) sites.insert(mix(here, last_pc));
  }
}
static void __attribute__((noinline)) event(Client *c, u64 pc) {
  last_pc = pc;
  if (c->local >= c->next_stall) {
    u64 j = 1ull << c->rng.range(3, clk.maxexp); now_ns += j; st.stalls++; plan_stall(c);
    hash(mix(0x57a11, j));
  }
  if (c->local >= c->next_force) {
    Client *t = next_runnable(c->id);
    if (t && t != c) { t->blocked = false; transfer(c, t); }
    c->next_force = c->local + FORCE;
  }
  if (c->local >= c->next_switch) {
    if (smode == SCHED_SEED) { do_switch(c, pc); plan_next(c); }
    else { do_switch(c, pc); c->plan_pos++; plan_next(c); }
  }
  c->next_event = std::min(std::min(c->next_switch, c->next_stall), c->next_force);
}

static inline void step(u64 pc) {
  Client *c = cur;
  st.steps++; c->local++; now_ns += clk.tick;
  if (!(c->local & 63)) {
    c->cp.push_back(now_ns);
    if (st.steps > step_cap) fatal("hang", "step limit reached: the calls of this run did not return");
  }
  if (c->local >= c->next_event) event(c, pc);
}

void api_step(u64 pc) { if (cur) step(pc); }
void maybe_switch(double p) {
  Client *c = cur;
  if (smode == SCHED_SEED && clients.size() > 1 && c->rng.chance(p)) { c->next_switch = c->local + 1; c->next_event = std::min(c->next_event, c->next_switch); }
  step(1);
}

bool wait_until(std::function<bool()> f) {
  Client *c = cur;
  while (!f()) {
    st.blockedwaits++;
    c->blocked = true; c->ready = f;
    Client *t = next_runnable(c->id);
    if (!t) fatal("deadlock", "every client waits for another one");
    if (t == c) { c->blocked = false; continue; }
    t->blocked = false;
    transfer(c, t);
    c->blocked = false;
  }
  c->blocked = false;
  return true;
}

static void fiber_main() {
  Client *c = cur;
  bodies_[c->id](c->id);
  c->done = true;
  Client *t = next_runnable(c->id);
  void *dead;
  if (t) { t->blocked = false; cur = t; sim_ctx_switch(&dead, ctx[t->id]); }
  for (auto *x : clients) if (!x->done) fatal("deadlock", "a client waits for an event that never comes");
  cur = nullptr;
  sim_ctx_switch(&dead, main_ctx);
  abort();
}
struct TArg { Client *c; };
static void *thread_main(void *p) {
  Client *c = ((TArg *)p)->c;
  static thread_local char alt[32768];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  while (sem_wait(&csem[c->id]) != 0) {}
  bodies_[c->id](c->id);
  c->done = true;
  Client *t = next_runnable(c->id);
  if (t) { t->blocked = false; cur = t; sem_post(&csem[t->id]); }
  else {
    for (auto *x : clients) if (!x->done) fatal("deadlock", "a client waits for an event that never comes");
    cur = nullptr; sem_post(&msem);
  }
  ss.ss_flags = SS_DISABLE; sigaltstack(&ss, nullptr);
  return nullptr;
}

static std::map<u64, u64> procstate, proc0;      // signal handlers, locale categories
void begin_phase(const EnvCfg &e, const ClockCfg &c, const OutCfg &o, SchedMode m, u64 ss, double gap, const std::vector<Switch> &plan) {
  procstate.clear(); proc0.clear();
  env = e; clk = c; outc = o; smode = m; sgap = gap; splan = plan; sseed = ss;
  now_ns = c.base; alloc_rng = Rng(mix(e.fill, 77)); out_rng = Rng(mix(o.seed, 78));
}

void run_clients(std::vector<std::function<void(int)>> bodies) {
  bool was_multi = multi;
  multi = bodies.size() > 1;
  (void)was_multi;
  for (auto *c : clients) delete c;
  clients.clear();
  bodies_ = bodies;
  sched_log.clear();
  if (multi) memset((void *)GCELLS, 0, ((gd1 - gd0) + (gb1 - gb0)) * sizeof(Cell));
  threads_ = &sim_use_threads != nullptr || getenv("QPSIM_THREADS");
  sem_init(&msem, 0, 0);
  std::vector<pthread_t> th(bodies.size());
  std::vector<TArg> args(bodies.size());
  for (size_t i = 0; i < bodies.size(); i++) {
    Client *c = new Client; c->id = (int)i; c->rng = Rng(mix(sseed, mix(clk.seed, i + 1)));
    memset(&c->vc, 0, sizeof c->vc); c->vc.v[i] = 1;
    clients.push_back(c);
    sem_init(&csem[i], 0, 0);
  }
  for (auto *c : clients) { plan_next(c); plan_stall(c); }
  for (size_t i = 0; i < bodies.size(); i++) {
    args[i].c = clients[i];
    // clients start from the same stack contents every time
    memset((void *)(STACKS + i * STACK_SZ + STACK_SZ - 131072), 0, 131072);
    if (!threads_) {
      u64 *sp = (u64 *)(STACKS + (i + 1) * STACK_SZ - 64);
      *--sp = 0; *--sp = (u64)fiber_main;
      for (int k = 0; k < 6; k++) *--sp = 0;
      *--sp = 0x1f80ull | (0x37full << 32);
      ctx[i] = sp;
      continue;
    }
    pthread_attr_t a; pthread_attr_init(&a);
    pthread_attr_setstack(&a, (void *)(STACKS + i * STACK_SZ), STACK_SZ);
    if (pthread_create(&th[i], &a, thread_main, &args[i]) != 0) { fprintf(stderr, "qpsim: pthread_create failed\n"); _exit(98); }
    pthread_attr_destroy(&a);
  }
  Client *first = clients[0];
  if (smode == SCHED_SEED) first = clients[Rng(mix(sseed, 4242)).below(clients.size())];
  else if (smode == SCHED_EXPLICIT && !splan.empty() && splan[0].client == -1 && splan[0].target < (int)clients.size()) first = clients[splan[0].target];
  sched_log.push_back({-1, 0, first->id});
  cur = first;
  if (!threads_) { sim_ctx_switch(&main_ctx, ctx[first->id]); cur = nullptr; return; }
  sem_post(&csem[first->id]);
  while (sem_wait(&msem) != 0) {}
  for (auto &t : th) pthread_join(t, nullptr);
  cur = nullptr;
}

// what the process (and the calling thread) looks like from outside: a call leaves it as it was
// exception flags and an error code that the caller of an operation left behind
static u64 left_behind() { return env.stale ? env.stale : env.misc; }
static u32 ambient_flags(u64 k) {
  if (!left_behind()) return 0;
  u64 v = mix(left_behind(), k); if (v >> 32 & 1) return (u32)(v & 0x3f);
  return 1u << (v % 6);
}
static int ambient_errno(u64 k) {
  static const int usual[] = {ENOMEM, EDOM, ERANGE, EINTR, EAGAIN, EINVAL, ENOSPC, EIO};
  if (!left_behind()) return 0;
  u64 v = mix(left_behind(), k); return v >> 32 & 1 ? usual[v % 8] : (int)(v % 134);
}
static void fp_state(u32 &mx, u16 &cw) { __asm__ volatile("stmxcsr %0" : "=m"(mx)); __asm__ volatile("fnstcw %0" : "=m"(cw)); }
static void proc_begin(Client *c) {
  u32 mx; u16 cw; fp_state(mx, cw); c->fp_was = mx; c->fp_wcw = cw; c->trapped = false;
  if (u32 f = env.fpmode) { mx ^= f; cw = (u16)(cw ^ ((f >> 7 & 0x3f) | (f >> 13 & 3) << 10)); st.extra["host_fp_mode"]++; }
  c->fp_mx = mx & 0xffc0; c->fp_cw = cw; mx = c->fp_mx | (env.fpmode ? 0 : ambient_flags(c->op));      // exception flags raised earlier by the caller
  __asm__ volatile("fldcw %0" ::"m"(cw));
  __asm__ volatile("ldmxcsr %0" ::"m"(mx));
  errno = ambient_errno(c->op + 77);
}
static void proc_end(Client *c) {
  u32 mx; u16 cw; fp_state(mx, cw);
  if (env.fpmode) { u32 m0 = c->fp_was; u16 w0 = c->fp_wcw; __asm__ volatile("ldmxcsr %0" ::"m"(m0)); __asm__ volatile("fldcw %0" ::"m"(w0)); }
  if (c->trapped) { st.extra["host_fp_traps"]++; mx = (mx & ~0x1f80u) | (c->fp_mx & 0x1f80); cw = (u16)((cw & ~0x3f) | (c->fp_cw & 0x3f)); }
  if ((mx & 0xffc0) != c->fp_mx || cw != c->fp_cw) {
    char b[160]; snprintf(b, sizeof b, "op %d: the call changed the floating-point mode of its thread (MXCSR %04x to %04x, x87 %04x to %04x)", c->op, c->fp_mx, mx & 0xffc0, c->fp_cw, cw);
    violate("procstate", b); mx = env.fpmode ? c->fp_was : c->fp_mx; cw = env.fpmode ? c->fp_wcw : c->fp_cw; __asm__ volatile("ldmxcsr %0" ::"m"(mx)); __asm__ volatile("fldcw %0" ::"m"(cw));
  }
  for (auto &e : procstate) if (e.second != proc0[e.first]) {
    violate("procstate", "op " + std::to_string(c->op) + ": the call left a " + (e.first >> 32 ? "locale setting" : "signal handler") + " changed"); procstate = proc0; break; }
}
static void proc_call(const char *f) { if (cur && cur->in_op) { step(0); violate("procstate", "op " + std::to_string(cur->op) + ": the call changed the state of the process with " + f); } }

void begin_op(int op) {
  Client *c = cur;
  c->in_op = true; c->op = op; c->op_local0 = c->local; c->op_t0 = now_ns; c->cp.clear();
  c->first_read = c->last_read = 0; c->nreads = 0;
  c->op_allocs = c->op_amd_allocs = c->op_fired = c->op_amd_fired = c->op_out_failed = 0;
  c->out = OutRec();
  proc_begin(c);
  step(0);
}
void end_op() { Client *c = cur; proc_end(c); step(0); c->in_op = false; c->vc.v[c->id]++; }

// lower bound of the time that passed between the first and last `margin` steps of the current operation
u64 time_lo(u64 margin) {
  Client *c = cur;
  u64 a = c->op_local0 + margin, b = c->local > margin ? c->local - margin : 0;
  // checkpoints exist at local steps that are multiples of 64
  u64 ka = (a + 63) / 64, kb = b / 64, k0 = c->op_local0 / 64 + 1;
  if (kb <= ka) return 0;
  u64 ia = ka - k0, ib = kb - k0;
  if (ib >= c->cp.size() || ia >= ib) return 0;
  return c->cp[ib] - c->cp[ia];
}
u64 time_outer() { return now_ns - cur->op_t0; }

void acquire_vc(const VC &v) { for (int i = 0; i < MAXC; i++) cur->vc.v[i] = std::max(cur->vc.v[i], v.v[i]); }
void release_vc(VC &v) { for (int i = 0; i < MAXC; i++) v.v[i] = std::max(cur->vc.v[i], v.v[i]); cur->vc.v[cur->id]++; }

// ---------------------------------------------------------------- access checks
static std::string where(u64 a) {
  auto it = blocks.upper_bound(a);
  std::string r;
  if (it != blocks.begin()) {
    --it;
    i64 off = (i64)(a - it->first);
    char b[160];
    snprintf(b, sizeof b, "offset %lld of a %zu-byte %s block%s", (long long)off, it->second.size, it->second.input ? "caller" : "library", it->second.live ? "" : " already released");
    r = b;
  }
  return r;
}
static void __attribute__((noinline)) bad_access(u64 a, u64 n, bool w, u64 pc) {
  auto it = blocks.upper_bound(a); bool freed = false;
  if (it != blocks.begin()) { --it; if (a < it->first + it->second.cap && !it->second.live) freed = true; }
  violate(freed ? "uaf" : "oob", std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + where(a) + " pc=" + hex(pc) + " op=" + std::to_string(cur ? cur->op : -1));
  hash(0xbad);
}
static inline bool shadow_ok(u64 a, u64 n) {
  u64 last = a + n - 1;
  if (last >= (a < INP ? brk_heap : brk_inp)) return false;
  u8 s = *sh(last);
  if (s && (s > 7 || (last & 7) >= s)) return false;
  if ((a >> 3) != (last >> 3)) { if (*sh(a)) return false;
    for (u64 q = (a >> 3) + 1; q < (last >> 3); q++) if (*sh(q << 3)) return false; }
  return true;
}
static void __attribute__((noinline)) race_report(u64 a, bool w, u64 pc, int other, bool ow) {
  std::string what;
  if (a >= HEAP && a < HEAP + ARENA_SZ) what = where(a); else what = "library global";
  violate("race", std::string(w ? "write" : "read") + " by client " + std::to_string(cur->id) + " and " + (ow ? "write" : "read") + " by client " + std::to_string(other) + " are unordered on " + what + " pc=" + hex(pc));
}
static inline void race_cell(Cell *k, u8 mask, bool w, u64 a, u64 pc) {
  Client *c = cur; int id = c->id;
  if (k->wclk && k->wtid != id && (k->wmask & mask) && k->wclk > c->vc.v[k->wtid]) race_report(a, w, pc, k->wtid, true);
  if (w) {
    for (int i = 0; i < MAXC; i++) if (i != id && k->rclk[i] > c->vc.v[i]) race_report(a, w, pc, i, false);
    k->wclk = (u16)c->vc.v[id]; k->wtid = (u8)id; k->wmask = mask;
  } else k->rclk[id] = (u16)c->vc.v[id];
}
static inline void check_access(u64 a, u64 n, bool w, u64 pc) {
  if (a - HEAP < ARENA_SZ) {
    if (!shadow_ok(a, n)) { bad_access(a, n, w, pc); return; }
    if (a >= INP) { if (w) { violate("inputwrite", "library wrote to caller data: " + where(a) + " pc=" + hex(pc) + " op=" + std::to_string(cur->op)); } }
    else if (multi) {
      for (u64 q = a >> 3; q <= (a + n - 1) >> 3; q++) {
        u64 lo = std::max(a, q << 3) & 7, hi = std::min(a + n - 1, (q << 3) + 7) & 7;
        u8 mask = (u8)(((2u << hi) - 1) & ~((1u << lo) - 1));
        race_cell((Cell *)(CELLS + ((q << 3) - HEAP) * 2), mask, w, a, pc);
      }
    }
  } else if (a - foreign_lo < foreign_hi - foreign_lo) {
    foreign_cb(a, n, w, pc);
  } else if (multi) {
    u64 base; 
    if (a - gd0 < gd1 - gd0) base = a - gd0; else if (a - gb0 < gb1 - gb0) base = (gd1 - gd0) + (a - gb0); else return;
    for (u64 i = 0; i < n && base + i < (gd1 - gd0) + (gb1 - gb0); i++) race_cell((Cell *)(GCELLS + (base + i) * sizeof(Cell)), 1, w, a, pc);
  }
}
static inline void acc(void *p, u64 n, bool w, void *pc) {
  if (!cur) return;
  check_access((u64)p, n, w, (u64)pc);
  step((u64)pc);
}
static void range(const void *p, u64 n, bool w, u64 pc) {
  if (!cur || !n) return;
  check_access((u64)p, n, w, pc);
  for (u64 i = 0; i < n; i += 64) step(pc);
}

// ---------------------------------------------------------------- allocator
static void fill_block(u64 a, size_t n) {
  u64 k = alloc_index;
  Rng r(mix(env.fill, k + 1000));
  switch (env.mode) {
    case 0: memset((void *)a, 0, n); break;
    case 1: for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy((void *)(a + i), &v, std::min<size_t>(8, n - i)); } break;
    case 2: memset((void *)a, 0xff, n); break;
    case 3: break;                                   // whatever was there before
    default:
      for (size_t i = 0; i < n; i += 8) {
        u64 v; double d;
        switch (r.below(5)) { case 0: v = r.below(16); break; case 1: d = r.sym() * 100; memcpy(&v, &d, 8); break; case 2: v = (u64)-1; break; case 3: v = HEAP + 4096 + r.below(65536); break; default: d = 1e-9 * r.uni(); memcpy(&v, &d, 8); }
        memcpy((void *)(a + i), &v, std::min<size_t>(8, n - i));
      }
  }
  if (env.mode) st.garbage++;
}
void *alloc(size_t n, int) {
  alloc_index++;
  st.allocs++;
  hash(mix(0xa110c, n));
  size_t cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
  u64 a = 0;
  if (env.reuse && !freelist.empty() && (int)alloc_rng.below(100) < env.reuse) {
    size_t tries = std::min<size_t>(freelist.size(), 8);
    for (size_t t = 0; t < tries && !a; t++) {
      size_t i = t == 0 ? freelist.size() - 1 : alloc_rng.below(freelist.size());
      Block &b = blocks[freelist[i]];
      if (b.cap >= cap && b.cap <= 4 * cap + 64) { a = freelist[i]; cap = b.cap; freelist.erase(freelist.begin() + i); st.reuses++; }
    }
  }
  if (!a) {
    u64 gap = 32 + (env.gap ? (alloc_rng.below(env.gap) & ~15ull) : 0);
    a = brk_heap + gap;
    brk_heap = a + cap + 32;
    if (brk_heap + 65536 > HEAP + HEAP_SZ) fatal("memory", "the library asked for more memory than the simulated machine has");
    poison(a - gap, gap, 0xfa); poison(a + cap, 32, 0xfa);
  }
  poison(a, cap, 0xfa); unpoison(a, n);
  if (multi) memset((void *)(CELLS + (a - HEAP) * 2), 0, cap * 2);
  blocks[a] = Block{n, cap, cur ? cur->owner : -1, cur ? cur->op : -1, true, false};
  fill_block(a, n);
  return (void *)a;
}
void dealloc(void *p, const char *what) {
  if (!p) return;
  u64 a = (u64)p;
  auto it = blocks.find(a);
  if (it == blocks.end() || !it->second.live || it->second.input) {
    std::string t = it == blocks.end() ? ((a - HEAP < ARENA_SZ) ? "a pointer into " + where(a) : "a pointer that was never allocated") : it->second.input ? "a caller's array" : "a block already released";
    violate("badfree", std::string(what) + " of " + t + " op=" + std::to_string(cur ? cur->op : -1));
    return;
  }
  st.frees++;
  hash(mix(0xf3ee, it->second.size));
  it->second.live = false;
  poison(a, it->second.cap, 0xfd);
  if (env.mode == 1 || env.mode == 4) { Rng r(mix(env.fill, a)); for (size_t i = 0; i + 8 <= it->second.cap; i += 8) *(u64 *)(a + i) = r.next(); }
  else if (env.mode == 2) memset((void *)a, 0xff, it->second.cap);
  freelist.push_back(a);
}
size_t block_size(void *p) { auto it = blocks.find((u64)p); return it == blocks.end() ? 0 : it->second.size; }
void *input_alloc(size_t n) {
  size_t cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
  for (size_t i = in_free.size(); i-- > 0;) {       // a caller that gets the same address again for other data
    Block &b = blocks[in_free[i]]; u64 a = in_free[i];
    if (b.cap >= cap && b.cap <= 4 * cap + 64) { in_free.erase(in_free.begin() + i); b.size = n; b.live = true; poison(a, b.cap, 0xfa); unpoison(a, n); return (void *)a; }
  }
  u64 a = brk_inp + 64; brk_inp = a + cap + 64;
  poison(a - 64, 64, 0xfa); poison(a, cap, 0xfa); unpoison(a, n); poison(a + cap, 64, 0xfa);
  blocks[a] = Block{n, cap, -2, -1, true, true};
  return (void *)a;
}
void input_free(void *p) { u64 a = (u64)p; auto it = blocks.find(a); if (it == blocks.end()) return; it->second.live = false; poison(a, it->second.cap, 0xfd); memset(p, 0x5a, it->second.size); in_free.push_back(a); }
void input_resize(void *p, size_t n) { auto it = blocks.find((u64)p); if (it == blocks.end() || n > it->second.cap) abort(); it->second.size = n; poison((u64)p, it->second.cap, 0xfa); unpoison((u64)p, n); }
std::vector<LiveBlock> live_blocks(int owner) {
  std::vector<LiveBlock> r;
  for (auto &b : blocks) if (b.second.live && !b.second.input && (owner == -99 || b.second.owner == owner)) r.push_back({b.first, b.second.size, b.second.owner, b.second.op});
  return r;
}
size_t live_of_owner(int o) { return live_blocks(o).size(); }
void reset_memory() { reset_arena(); }

void __attribute__((noinline)) scribble_stack(u64 seed) {
  volatile u64 buf[4096];
  Rng r(seed);
  for (int i = 0; i < 4096; i++) buf[i] = seed ? ((i & 3) == 0 ? r.next() : (i & 3) == 1 ? ~0ull : (i & 3) == 2 ? 0x3ff0000000000000ull + r.below(1ull << 50) : r.below(64)) : 0;
  __asm__ volatile("" ::"r"(buf) : "memory");
  if (recording) st.scribbles++;
}

// ---------------------------------------------------------------- output sink
static int emit_text(const char *t, int n) {
  if (!cur) return n;
  step(0);
  Client *c = cur;
  c->out.calls++;
  if (recording) st.outcalls++;
  int mode = outc.mode;
  if (mode == 3) mode = out_rng.chance(0.5) ? 0 : 1;
  hash(mix(0x0a7, mix(n, mode)));
  if (mode == 1) { st.outfail++; c->op_out_failed++; errno = EIO; return -1; }
  if (mode == 2) { st.outshort++; c->op_out_failed++; c->out.text.append(t, n / 2); errno = ENOSPC; return n / 2; }
  c->out.text.append(t, n);
  return n;
}
static int vout(const char *f, va_list ap) {
  char buf[4096]; int n = vsnprintf(buf, sizeof buf, f, ap);
  if (n < 0) return n;
  return emit_text(buf, std::min(n, (int)sizeof buf - 1));
}

// ---------------------------------------------------------------- clocks
static u64 read_clock(clockid_t id) {
  if (!cur) return now_ns;
  step(0);
  Client *c = cur;
  bool before = true, jump = false; u64 j = 0;
  if (clk.readjump && (int)c->rng.below(1000) < clk.readjump) { jump = true; before = c->rng.below(2); j = 1ull << c->rng.range(3, clk.maxexp); j += c->rng.below(j); }
  if (jump && before) { now_ns += j; st.jumps++; }
  if (recording) st.reads++;
  u64 v = now_ns;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) {
    st.wallreads++;
    // wall clock: offset that is stepped, back and forth, between any two reads
    v = now_ns + 1600000000000000000ull + (c->rng.below(3) - 1) * (c->rng.below(86400) * 1000000000ull);
  } else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) v = now_ns / 7 + 12345;
  else if (id == CLOCK_MONOTONIC_COARSE) v = now_ns / 4000000 * 4000000;
  if (!c->nreads++) c->first_read = v;
  c->last_read = v;
  if (jump && !before) { now_ns += j; st.jumps++; }
  hash(mix(0xc10c, v));
  return v;
}
struct MState { int owner = -1; int depth = 0; VC vc; };
static std::map<u64, MState> mstates;
void reset_sync() { mstates.clear(); }
}  // namespace sim

using namespace sim;


static void *fault_or_alloc(size_t n) {
  if (!cur) return alloc(n, 0);
  step((u64)__builtin_return_address(0));
  Client *c = cur;
  c->op_allocs++;
  if (c->fault_nth > 0 && (i64)c->op_allocs >= c->fault_nth && (i64)c->op_allocs < c->fault_nth + c->fault_len) {
    c->op_fired++; st.allocfaults++; hash(0xfa17);
    if (alloc_fail_cb) alloc_fail_cb();
    errno = ENOMEM; return nullptr;
  }
  return alloc(n, 0);
}
static bool amd_fault() {
  if (!cur) return false;
  Client *c = cur;
  c->op_amd_allocs++;
  if (c->afault_nth > 0 && (i64)c->op_amd_allocs >= c->afault_nth && (i64)c->op_amd_allocs < c->afault_nth + c->afault_len) {
    c->op_amd_fired++; st.amdfaults++; hash(0xfa18); errno = ENOMEM; return true;
  }
  return false;
}

#define RA __builtin_return_address(0)
extern "C" {
void *sim_malloc(size_t n) { return fault_or_alloc(n); }
void sim_free(void *p) { if (cur) step((u64)RA); dealloc(p, "release"); }
void *sim_calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void *p = fault_or_alloc(n); if (p) memset(p, 0, n); return p; }
void *sim_realloc(void *p, size_t n) {
  if (!p) return fault_or_alloc(n);
  void *q = fault_or_alloc(n); if (!q) return nullptr;
  memcpy(q, p, std::min(n, block_size(p))); dealloc(p, "realloc"); return q; }
void *sim_aligned_alloc(size_t, size_t n) { return fault_or_alloc(n); }
int sim_posix_memalign(void **o, size_t, size_t n) { void *p = fault_or_alloc(n); if (!p) return ENOMEM; *o = p; return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)fault_or_alloc(n); if (p) memcpy(p, s, n); return p; }
void *sim_amd_malloc(size_t n) { return amd_fault() ? nullptr : fault_or_alloc(n); }
void sim_amd_free(void *p) { sim_free(p); }
void *sim_amd_calloc(size_t a, size_t b) { return amd_fault() ? nullptr : sim_calloc(a, b); }
void *sim_amd_realloc(void *p, size_t n) { return amd_fault() ? nullptr : sim_realloc(p, n); }

void *sim_memcpy(void *d, const void *s, size_t n) { range(s, n, false, (u64)RA); range(d, n, true, (u64)RA); 
  if (n && (u64)d < (u64)s + n && (u64)s < (u64)d + n && d != s) violate("oob", "memcpy of overlapping blocks");
  return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { range(s, n, false, (u64)RA); range(d, n, true, (u64)RA); return memmove(d, s, n); }
void *sim_memset(void *d, int v, size_t n) { range(d, n, true, (u64)RA); return memset(d, v, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { range(a, n, false, (u64)RA); range(b, n, false, (u64)RA); return memcmp(a, b, n); }
void sim_qsort(void *b, size_t n, size_t s, int (*f)(const void *, const void *)) { range(b, n * s, true, (u64)RA); qsort(b, n, s, f); }

int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vout(f, ap); va_end(ap); return r; }
int sim_vprintf(const char *f, va_list ap) { return vout(f, ap); }
int sim_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int r = vout(f, ap); va_end(ap); return r; }
int sim_vfprintf(FILE *, const char *f, va_list ap) { return vout(f, ap); }
int sim_puts(const char *s) { std::string t = std::string(s) + "\n"; return emit_text(t.c_str(), (int)t.size()); }
int sim_fputs(const char *s, FILE *) { return emit_text(s, (int)strlen(s)); }
int sim_putchar(int c) { char b = (char)c; return emit_text(&b, 1) < 0 ? -1 : c; }
int sim_fputc(int c, FILE *) { return sim_putchar(c); }
int sim_putc(int c, FILE *) { return sim_putchar(c); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *) { int r = emit_text((const char *)p, (int)(a * b)); return r < 0 ? 0 : (size_t)r / (a ? a : 1); }
int sim_fflush(FILE *) { if (cur) { step(0); if (outc.mode == 1) { errno = EIO; return EOF; } } return 0; }
long sim_write(int, const void *p, size_t n) { return emit_text((const char *)p, (int)n); }
void sim_perror(const char *s) { emit_text(s, (int)strlen(s)); }

int sim_clock_gettime(clockid_t id, struct timespec *ts) {
  range(ts, sizeof *ts, true, (u64)RA);
  u64 v = read_clock(id); ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { u64 v = read_clock(CLOCK_REALTIME); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0; }
time_t sim_time(time_t *t) { time_t v = read_clock(CLOCK_REALTIME) / 1000000000ull; if (t) *t = v; return v; }
clock_t sim_clock(void) { return (clock_t)(read_clock(CLOCK_PROCESS_CPUTIME_ID) / 1000); }
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(CLOCK_REALTIME, ts); return b; }
int sim_usleep(unsigned us) { now_ns += (u64)us * 1000; if (cur) step(0); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { now_ns += (u64)a->tv_sec * 1000000000ull + a->tv_nsec; if (cur) step(0); return 0; }

static Rng libc_rng(5);
static u64 envrand() { return mix(env.misc, libc_rng.next()); }
int sim_rand(void) { proc_call("rand"); return (int)(envrand() & 0x7fffffff); }
long sim_random(void) { proc_call("random"); return (long)(envrand() & 0x7fffffff); }
int sim_rand_r(unsigned *) { return (int)(envrand() & 0x7fffffff); }
void sim_srand(unsigned) { proc_call("srand"); }
#define PROC(type, name, args, ret) type sim_##name args { proc_call(#name); return ret; }
PROC(void, srand48, (long), ) PROC(void, srandom, (unsigned), ) PROC(int, setenv, (const char *, const char *, int), 0) PROC(int, unsetenv, (const char *), 0) PROC(int, putenv, (char *), 0)
PROC(int, chdir, (const char *), 0) PROC(unsigned, umask, (unsigned), 022) PROC(int, atexit, (void (*)()), 0) PROC(int, setvbuf, (FILE *, char *, int, size_t), 0) PROC(void, setbuf, (FILE *, char *), )
PROC(int, mallopt, (int, int), 1) PROC(int, raise, (int), 0) PROC(int, kill, (int, int), 0) PROC(unsigned, alarm, (unsigned), 0) PROC(int, setitimer, (int, const void *, void *), 0) PROC(int, setrlimit, (int, const void *), 0)
PROC(int, sched_setscheduler, (int, int, const void *), 0) PROC(int, sched_setaffinity, (int, size_t, const void *), 0) PROC(int, setpriority, (int, int, int), 0) PROC(int, nice, (int), 0) PROC(int, mlockall, (int), 0) PROC(int, system, (const char *), 0)
PROC(int, remove, (const char *), 0) PROC(int, unlink, (const char *), 0) PROC(int, rename, (const char *, const char *), 0) PROC(int, sigprocmask, (int, const void *, void *), 0) PROC(int, pthread_sigmask, (int, const void *, void *), 0)
// the host has handlers of its own and a locale of its own
static u64 &proc_entry(u64 key, u64 initial) { u64 &e = procstate[key]; if (!e) { e = initial; proc0[key] = e; } return e; }
void (*sim_signal(int n, void (*f)(int)))(int) { u64 &e = proc_entry((u32)n, 0x7e570000u + (u32)n); void (*o)(int) = (void (*)(int))e; e = (u64)f; step(0); return o; }
int sim_sigaction(int n, const struct sigaction *a, struct sigaction *old) {
  u64 &e = proc_entry((u32)n, 0x7e570000u + (u32)n);
  if (old) { range(old, sizeof *old, true, (u64)RA); memset(old, 0, sizeof *old); old->sa_handler = (void (*)(int))e; }
  if (a) e = (u64)a->sa_handler; step(0); return 0; }
static const char *pooled(const char *l) { static std::set<std::string> pool; return pool.insert(l).first->c_str(); }
char *sim_setlocale(int c, const char *l) {
  u64 &e = proc_entry((1ull << 32) + (u32)c, (u64)pooled("xx_XX.UTF-8"));
  if (l) e = (u64)pooled(*l ? l : "xx_XX.UTF-8"); step(0); return (char *)e; }
locale_t sim_uselocale(locale_t l) { u64 &e = proc_entry((1ull << 33) + (u64)(cur ? cur->id : 0), 0x7e57); locale_t o = (locale_t)e; if (l) e = (u64)l; step(0); return o; }
PROC(int, close, (int), 0) PROC(int, fclose, (FILE *), 0) PROC(int, dup2, (int, int), 0) PROC(FILE *, freopen, (const char *, const char *, FILE *), nullptr) PROC(void, setlinebuf, (FILE *), ) PROC(int, prctl, (int, long, long, long, long), 0)
PROC(int, pthread_setaffinity_np, (pthread_t, size_t, const void *), 0) PROC(int, pthread_setschedparam, (pthread_t, int, const void *), 0) PROC(int, pthread_setcancelstate, (int, int *), 0) PROC(int, pthread_setname_np, (pthread_t, const char *), 0)
// files: none of the library's business
FILE *sim_fopen(const char *, const char *) { proc_call("fopen"); errno = EACCES; return nullptr; }
int sim_open(const char *, int, ...) { proc_call("open"); errno = EACCES; return -1; }
// text into memory
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) { char b[8192]; int k = vsnprintf(b, sizeof b, f, ap); if (n) { size_t t = std::min(n - 1, (size_t)std::max(k, 0)); range(d, t + 1, true, (u64)RA); memcpy(d, b, t); d[t] = 0; } return k; }
int sim_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int k = sim_vsnprintf(d, n, f, ap); va_end(ap); return k; }
int sim_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int k = sim_vsnprintf(d, 8192, f, ap); va_end(ap); return k; }
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; range(s, n, false, (u64)RA); range(d, n, true, (u64)RA); return (char *)memcpy(d, s, n); }
char *sim_strncpy(char *d, const char *s, size_t n) { range(s, strnlen(s, n), false, (u64)RA); range(d, n, true, (u64)RA); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { sim_strcpy(d + strlen(d), s); return d; }
size_t sim_strlen(const char *s) { size_t n = strlen(s); range(s, n + 1, false, (u64)RA); return n; }
double sim_drand48(void) { proc_call("drand48"); return (envrand() >> 11) * (1.0 / 9007199254740992.0); }
char *sim_getenv(const char *) { static char one[] = "1"; return (env.misc & 1) ? one : nullptr; }
int sim_getpid(void) { return (int)(env.misc % 30000) + 2; }
void sim_exit(int) { fatal("abort", "the library ended the process"); }
void sim_abort(void) { fatal("abort", "the library aborted the process"); }
void sim_assert_fail(const char *e, const char *, unsigned, const char *) { fatal("abort", std::string("assertion failed: ") + e); }

// locks: a waiting client gives up the baton
static int lock_key(u64 k) {
  if (!cur) return 0;
  step((u64)RA);
  int id = cur->id;
  auto &m0 = mstates[k];
  if (m0.owner == id) { m0.depth++; return 0; }
  wait_until([k]() { return mstates[k].owner < 0; });
  auto &m = mstates[k]; m.owner = id; m.depth = 1; acquire_vc(m.vc); return 0; }
static int unlock_key(u64 k) { if (!cur) return 0; auto &m = mstates[k]; if (--m.depth <= 0) { m.owner = -1; release_vc(m.vc); } step((u64)RA); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return lock_key((u64)m); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (cur && mstates[(u64)m].owner >= 0 && mstates[(u64)m].owner != cur->id) return EBUSY; return lock_key((u64)m); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock_key((u64)m); }
int sim_pthread_mutex_init(pthread_mutex_t *m, const void *) { mstates[(u64)m] = MState(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int sim_pthread_rwlock_rdlock(void *m) { return lock_key((u64)m); }
int sim_pthread_rwlock_wrlock(void *m) { return lock_key((u64)m); }
int sim_pthread_rwlock_unlock(void *m) { return unlock_key((u64)m); }
int sim_pthread_spin_lock(void *m) { return lock_key((u64)m); }
int sim_pthread_spin_unlock(void *m) { return unlock_key((u64)m); }
static std::map<u64, int> onces; 
int sim_pthread_once(void *o, void (*f)(void)) { u64 k = (u64)o; lock_key(k ^ 1); int v; memcpy(&v, o, sizeof v); if (!v) { f(); v = 2; memcpy(o, &v, sizeof v); } unlock_key(k ^ 1); return 0; }
int sim_sched_yield(void) { if (cur) step(0); return 0; }

// ---------------------------------------------------------------- compiler instrumentation entry points
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { acc(p, n, false, RA); } \
  void __tsan_write##n(void *p) { acc(p, n, true, RA); } \
  void __tsan_read_write##n(void *p) { acc(p, n, true, RA); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false, RA); } \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, true, RA); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false, RA); } \
  void __tsan_volatile_write##n(void *p) { acc(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range(p, n, false, (u64)RA); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true, (u64)RA); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, RA); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, RA); }

// atomics: sequentially consistent, and ordering points for the race detector
static void at_pre(volatile void *p, bool w) { if (!cur) return; u64 a = (u64)p; if (a - HEAP < ARENA_SZ && !shadow_ok(a, 1)) bad_access(a, 1, w, (u64)RA); auto &m = mstates[a]; acquire_vc(m.vc); release_vc(m.vc); step((u64)RA); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int) { at_pre((volatile void *)p, false); return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) { at_pre(p, true); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { at_pre(p, true); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at_pre(p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at_pre(p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at_pre(p, true); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { if (cur) step((u64)RA); }
void __tsan_atomic_signal_fence(int) {}
}
