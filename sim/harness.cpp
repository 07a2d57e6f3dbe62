#include "harness.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <stdlib.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>

struct Result {
  int done, nviol, nkeys, nsites; u64 hash;
  u64 nsw;
  struct { char cls[24]; char text[500]; } v[6];
  struct { char key[40]; u64 val; } k[100];
  u64 sites[4096];
  struct { int c, t; u64 s; } sw[20000];
};
static Result *R;

std::vector<std::string> split(const std::string &s) { std::istringstream i(s); std::vector<std::string> r; std::string t; while (i >> t) r.push_back(t); return r; }
void count(const char *key, u64 n) { if (n) sim::st.extra[key] += n; }

static void put(const char *k, u64 v) { if (R->nkeys < 100) { snprintf(R->k[R->nkeys].key, 40, "%s", k); R->k[R->nkeys++].val = v; } }
static void store() {
  using namespace sim;
  R->hash = evhash; R->nviol = 0; R->nkeys = 0;
  for (auto &v : viol) if (R->nviol < 6) { snprintf(R->v[R->nviol].cls, 24, "%s", v.cls.c_str()); snprintf(R->v[R->nviol].text, 500, "%s", v.text.c_str()); R->nviol++; }
  put("steps", st.steps); put("simns", st.simns + (now_ns - clk.base)); put("switches", st.switches); put("allocs", st.allocs); put("frees", st.frees);
  put("clockreads", st.reads); put("fault_clock_jump_at_read", st.jumps); put("fault_stall", st.stalls); put("outcalls", st.outcalls);
  put("fault_output_failed", st.outfail); put("fault_output_short", st.outshort); put("fault_alloc_failed", st.allocfaults); put("fault_ordering_alloc_failed", st.amdfaults);
  put("fault_heap_block_reused", st.reuses); put("fault_heap_garbage", st.garbage); put("fault_stack_garbage", st.scribbles); put("blockedwaits", st.blockedwaits); put("wallreads", st.wallreads);
  for (auto &e : st.extra) put(e.first.c_str(), e.second);
  R->nsites = 0; for (u64 s : sites) if (R->nsites < 4096) R->sites[R->nsites++] = s;
  R->nsw = 0; for (auto &s : sched_log) if (R->nsw < 20000) { R->sw[R->nsw].c = s.client; R->sw[R->nsw].t = s.target; R->sw[R->nsw].s = s.step; R->nsw++; }
  R->done = 1;
}

static void child(const std::string &text) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = it.it_interval.tv_sec = 12; setitimer(ITIMER_PROF, &it, nullptr);
  sim::emit_and_exit = []() { store(); _exit(0); };
  run_scenario(text);
  store();
  _exit(0);
}

static void execute(const std::string &text) {
  R->done = 0; R->nviol = 0; R->nkeys = 0; R->nsw = 0; R->nsites = 0; R->hash = 0;
  pid_t p = fork();
  if (p == 0) { child(text); }
  int stt = 0; double waited = 0; useconds_t us = 200;
  for (;;) {
    pid_t w = waitpid(p, &stt, WNOHANG);
    if (w == p) break;
    usleep(us); waited += us * 1e-6; if (us < 2000) us += 100;
    if (waited > 400) { kill(p, SIGKILL); waitpid(p, &stt, 0); if (!R->done) { R->nviol = 1; snprintf(R->v[0].cls, 24, "hang"); snprintf(R->v[0].text, 500, "the run did not end within the wall-clock limit"); R->done = 1; } break; }
  }
  if (!R->done) {
    R->nviol = 1; snprintf(R->v[0].cls, 24, WIFEXITED(stt) && WEXITSTATUS(stt) == 98 ? "harness" : "crash");
    snprintf(R->v[0].text, 500, "the simulated process died without a result (status 0x%x)", stt); R->done = 1;
  }
}

__attribute__((weak)) void engine_init();
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int harness_main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("QPSIM_NOREEXEC")) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("QPSIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  if (argc < 2) { fprintf(stderr, "usage: gen PROFILE SEED | exec FILE | batch PROFILE SEED0 STRIDE COUNT SECONDS\n"); return 2; }
  std::string cmd = argv[1];
  if (cmd == "gen") { std::cout << gen_scenario(argv[2], strtoull(argv[3], 0, 10)); return 0; }
  R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sim::init();
  if (&engine_init) engine_init();
  if (cmd == "exec" || cmd == "execs") {      // execs: several files, one result each
    for (int a = 2; a < argc; a++) {
      std::ifstream f(argv[a]); std::stringstream ss; ss << f.rdbuf();
      execute(ss.str());
      printf("hash %016llx\n", (unsigned long long)R->hash);
      for (int i = 0; i < R->nviol; i++) printf("viol %s %s\n", R->v[i].cls, R->v[i].text);
      for (int i = 0; i < R->nkeys; i++) printf("stat %s %llu\n", R->k[i].key, (unsigned long long)R->k[i].val);
      if (cmd == "exec") for (u64 i = 0; i < R->nsw; i++) printf("sw %d %llu %d\n", R->sw[i].c, (unsigned long long)R->sw[i].s, R->sw[i].t);
      printf("end\n"); fflush(stdout);
    }
    return 0;
  }
  if (cmd == "batch") {
    std::string profile = argv[2]; u64 s0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10); double cap = atof(argv[6]);
    std::set<std::string> want; if (argc > 7) { std::string w = argv[7]; std::stringstream ss(w); std::string t; while (std::getline(ss, t, ',')) want.insert(t); }
    bool hashes = getenv("QPSIM_HASHES") != nullptr;
    double t0 = wall(); u64 runs = 0, bad = 0, other = 0;
    std::map<std::string, u64> sum, fired; std::unordered_set<u64> hs, sites, interesting;
    for (u64 i = 0; i < n && wall() - t0 < cap; i++) {
      u64 seed = s0 + i * stride;
      double t1 = wall(); execute(gen_scenario(profile, seed)); if (wall() - t1 > 3) fprintf(stderr, "slow %llu %.1f s\n", (unsigned long long)seed, wall() - t1);
      runs++;
      hs.insert(R->hash);
      bool faulted = false;
      for (int k = 0; k < R->nkeys; k++) { sum[R->k[k].key] += R->k[k].val; if (R->k[k].val) { fired[R->k[k].key]++; std::string key = R->k[k].key; if (key.compare(0, 6, "fault_") == 0 || key == "switches") faulted = true; } }
      if (faulted) interesting.insert(R->hash);
      for (int k = 0; k < R->nsites; k++) sites.insert(R->sites[k]);
      if (hashes) printf("h %llu %016llx\n", (unsigned long long)seed, (unsigned long long)R->hash);
      bool rel = false;
      for (int k = 0; k < R->nviol; k++) { bool r = want.empty() || want.count(R->v[k].cls); rel |= r; printf("%s %llu %s %s\n", r ? "bad" : "other", (unsigned long long)seed, R->v[k].cls, R->v[k].text); }
      if (R->nviol) fflush(stdout);
      if (rel) { if (++bad >= 3) break; } else if (R->nviol) other++;
    }
    printf("runs %llu\nother_runs %llu\ndistinct %zu\ndistinct_faulted %zu\nsites %zu\nwall %.3f\n", (unsigned long long)runs, (unsigned long long)other, hs.size(), interesting.size(), sites.size(), wall() - t0);
    for (auto &k : sum) printf("sum %s %llu %llu\n", k.first.c_str(), (unsigned long long)k.second, (unsigned long long)fired[k.first]);
    if (getenv("QPSIM_SITES")) for (u64 s : sites) printf("site %016llx\n", (unsigned long long)s);
    return 0;
  }
  return 2;
}
