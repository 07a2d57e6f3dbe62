// Deterministic simulator core: memory arena, scheduler, clock, output sink, violation log.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double sym() { return 2 * uni() - 1; }
  bool chance(double p) { return uni() < p; }
  u64 geometric(double mean) { // >= 1, integer arithmetic after one division; no libm
    u64 m = mean < 1 ? 1 : (u64)mean; u64 r = below(2 * m) + 1; if ((next() & 7) == 0) r *= 4; return r; }
};
static inline u64 mix(u64 a, u64 b) { u64 z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; return z ^ (z >> 27); }

constexpr int MAXC = 6;

struct VC { u32 v[MAXC]; };

struct OutRec { std::string text; u64 calls = 0; };

struct Client {
  int id = 0;
  bool done = false, blocked = false;
  std::function<bool()> ready;         // when blocked: may it run again?
  u64 local = 0;                       // steps of this client
  u64 next_event = ~0ull;              // local step of the next scheduler decision
  u64 next_stall = ~0ull, next_switch = ~0ull, next_force = ~0ull;
  int switch_target = -1;
  size_t plan_pos = 0;
  Rng rng{1};
  VC vc;
  // per operation
  bool in_op = false; int op = -1;
  u64 op_local0 = 0; u64 op_t0 = 0; u64 first_read = 0, last_read = 0, nreads = 0;
  std::vector<u64> cp;                 // clock at every 64th local step of the current operation
  u64 op_allocs = 0, op_amd_allocs = 0, op_fired = 0, op_amd_fired = 0, op_out_failed = 0;
  i64 fault_nth = -1, fault_len = 0, afault_nth = -1, afault_len = 0;   // 1-based
  int owner = -1; int nlock = 0;
  u32 fp_mx = 0, fp_was = 0; u16 fp_cw = 0, fp_wcw = 0; bool trapped = false;       // floating-point mode when the operation began
  OutRec out;
  void *thread = nullptr;
};

struct Switch { int client; u64 step; int target; };

enum SchedMode { SCHED_RUN = 0, SCHED_SEED = 1, SCHED_EXPLICIT = 2 };

struct EnvCfg { u64 fill = 0; int mode = 0; u64 gap = 0; int reuse = 0; u64 stack = 0; u64 misc = 0, stale = 0; u32 fpmode = 0; };   // fpmode: control bits of the host's floating-point mode that differ from the default
struct ClockCfg { u64 tick = 1; u64 base = 1000000000ull; int readjump = 0; u64 stallgap = 0; int maxexp = 30; u64 seed = 1; };
struct OutCfg { int mode = 0; u64 seed = 1; };  // 0 ok 1 every call fails 2 short writes 3 flaky

struct Violation { std::string cls, text; };

struct Stats {
  u64 steps = 0, simns = 0, switches = 0, allocs = 0, frees = 0, reads = 0, jumps = 0, stalls = 0, outcalls = 0, outfaults = 0, outshort = 0, outfail = 0,
      allocfaults = 0, amdfaults = 0, reuses = 0, garbage = 0, blockedwaits = 0, wallreads = 0, scribbles = 0;
  std::map<std::string, u64> extra;
};

struct SiteHash { std::set<u64> pairs; };

namespace sim {
extern Client *cur;                    // client that holds the baton (null: harness)
extern std::vector<Client *> clients;
extern Stats st;
extern std::vector<Violation> viol;
extern u64 now_ns;                     // simulated monotonic clock
extern u64 evhash;
extern std::vector<Switch> sched_log;
extern std::set<u64> sites;            // (where preempted, where resumed) pairs
extern EnvCfg env; extern ClockCfg clk; extern OutCfg outc;
extern bool recording;                 // count statistics / hash (off during reference executions)
extern u64 step_cap;

void init();                           // once per process
void begin_phase(const EnvCfg &, const ClockCfg &, const OutCfg &, SchedMode, u64 schedseed, double gap, const std::vector<Switch> &plan);
void violate(const std::string &cls, const std::string &text);
void hash(u64 v); void hash_bytes(const void *, size_t);
void run_clients(std::vector<std::function<void(int)>> bodies);  // returns when all have finished
extern std::function<void()> emit_and_exit;   // prints the result of the run and ends the process
[[noreturn]] void fatal(const std::string &cls, const std::string &text);
void begin_op(int op); void end_op();
bool wait_until(std::function<bool()> f);  // blocks the current client; false: deadlock
u64 time_lo(u64 margin); u64 time_outer();
void acquire_vc(const VC &); void release_vc(VC &);

// memory
void *alloc(size_t n, int tag); void dealloc(void *p, const char *what); size_t block_size(void *);
void *input_alloc(size_t n); void input_free(void *p); void input_resize(void *p, size_t n);
struct LiveBlock { u64 base; size_t size; int owner; int op; };
std::vector<LiveBlock> live_blocks(int owner);   // -99: all
size_t live_of_owner(int owner);
extern std::function<void()> alloc_fail_cb;  // mex: allocation failure aborts the call
extern void (*foreign_cb)(u64, u64, bool, u64); extern u64 foreign_lo, foreign_hi;   // accesses to memory of the host
void snapshot_globals();               // the state restore_globals() goes back to
void maybe_switch(double p);           // a preemption point with a high chance of being taken
void api_step(u64 pc);                 // one step of the current client
void restore_globals(); void reset_memory(); void reset_sync();
void scribble_stack(u64 seed);
std::string hex(u64);
}
extern "C" {
void *sim_malloc(size_t); void sim_free(void *); void *sim_calloc(size_t, size_t); void *sim_realloc(void *, size_t);
void *sim_amd_malloc(size_t); void sim_amd_free(void *); void *sim_amd_calloc(size_t, size_t); void *sim_amd_realloc(void *, size_t);
int sim_printf(const char *, ...);
}
