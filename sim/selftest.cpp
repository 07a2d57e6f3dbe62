// Runs a library that misbehaves (faulty.c) and requires that each kind of misbehaviour is reported, and nothing else.
#include "core.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
void f_fine(long *);
void f_write_past(long *);
void f_write_far_past(long *);
void f_write_before(long *);
void f_read_past(long *);
void f_read_part(long *);
void f_memset_past(long *);
void f_memset_far_past(long *);
void f_memcpy_past(long *);
void f_memcpy_from_past(long *);
void f_read_input_past(long *);
void f_read_freed(long *);
void f_write_freed(long *);
void f_memset_freed(long *);
void f_strcpy_past(long *);
void f_sprintf_past(long *);
void f_free_twice(long *);
void f_free_inside(long *);
void f_free_input(long *);
void f_write_input(long *);
void f_memset_input(long *);
void f_leak(long *);
void f_race_data(long *);
void f_race_bss(long *);
void f_race_memset(long *);
void f_null(long *);
void f_abort(long *);
void f_exit(long *);
void f_endless(long *);
void f_mxcsr(long *);
void f_x87(long *);
void f_signal(long *);
void f_sigaction(long *);
void f_sigaction_restored(long *);
void f_locale(long *);
void f_locale_restored(long *);
void f_srand(long *);
void f_rand(long *);
void f_chdir(long *);
}
static const struct { const char *name; void (*f)(long *); const char *cls; } T[] = {
  {"fine", f_fine, ""},
  {"write_past", f_write_past, "oob"},
  {"write_far_past", f_write_far_past, "oob"},
  {"write_before", f_write_before, "oob"},
  {"read_past", f_read_past, "oob"},
  {"read_part", f_read_part, "oob"},
  {"memset_past", f_memset_past, "oob"},
  {"memset_far_past", f_memset_far_past, "oob"},
  {"memcpy_past", f_memcpy_past, "oob"},
  {"memcpy_from_past", f_memcpy_from_past, "oob"},
  {"read_input_past", f_read_input_past, "oob"},
  {"read_freed", f_read_freed, "uaf"},
  {"write_freed", f_write_freed, "uaf"},
  {"memset_freed", f_memset_freed, "uaf"},
  {"strcpy_past", f_strcpy_past, "oob"},
  {"sprintf_past", f_sprintf_past, "oob"},
  {"free_twice", f_free_twice, "badfree"},
  {"free_inside", f_free_inside, "badfree"},
  {"free_input", f_free_input, "badfree"},
  {"write_input", f_write_input, "inputwrite"},
  {"memset_input", f_memset_input, "inputwrite"},
  {"leak", f_leak, "leak"},
  {"race_data", f_race_data, "race"},
  {"race_bss", f_race_bss, "race"},
  {"race_memset", f_race_memset, "race"},
  {"null", f_null, "crash"},
  {"abort", f_abort, "abort"},
  {"exit", f_exit, "abort"},
  {"endless", f_endless, "hang"},
  {"mxcsr", f_mxcsr, "procstate"},
  {"x87", f_x87, "procstate"},
  {"signal", f_signal, "procstate"},
  {"sigaction", f_sigaction, "procstate"},
  {"sigaction_restored", f_sigaction_restored, ""},
  {"locale", f_locale, "procstate"},
  {"locale_restored", f_locale_restored, ""},
  {"srand", f_srand, "procstate"},
  {"rand", f_rand, "procstate"},
  {"chdir", f_chdir, "procstate"},
};
int main() {
  sim::init();
  char *out = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int bad = 0, n = 0;
  for (auto &t : T) for (int seed = 0; seed < 2; seed++) {
    fflush(stdout); memset(out, 0, 4096); pid_t p = fork();
    if (!p) {
      sim::step_cap = 2000000;
      auto fin = [out]() { for (auto &v : sim::viol) { strncat(out, v.cls.c_str(), 100); strcat(out, " "); if (strlen(out) > 3000) break; } _exit(0); };
      sim::emit_and_exit = fin;
      EnvCfg e; if (seed) { e.fill = 77; e.mode = 1; e.gap = 64; e.reuse = 50; e.misc = 5; }
      bool race = strstr(t.name, "race");
      sim::begin_phase(e, ClockCfg(), OutCfg(), race ? SCHED_SEED : SCHED_RUN, 3 + seed, 20, {});
      sim::recording = true;
      long *in = (long *)sim::input_alloc(24); in[0] = in[1] = in[2] = 1; void (*f)(long *) = t.f;
      auto body = [in, f](int id) { sim::begin_op(id); sim::cur->owner = 1; f(in); sim::end_op(); };
      std::vector<std::function<void(int)>> b{body}; if (race) b.push_back(body);
      sim::run_clients(b);
      if (!sim::live_blocks(-99).empty() && strcmp(t.name, "free_inside")) for (auto &l : sim::live_blocks(-99)) if (l.base != (u64)in) { sim::viol.push_back({"leak", ""}); break; }
      fin();
    }
    int st; waitpid(p, &st, 0); n++;
    std::string want = t.cls, got = out; bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (want.empty() ? !got.empty() : got.compare(0, want.size() + 1, want + " ")) ok = false;
    if (!ok) { bad++; printf("selftest: %s (environment %d): expected '%s', the simulator reports '%s' (status %x)\n", t.name, seed, t.cls, out, st); }
  }
  printf("selftest: %d of %d misbehaviours reported as expected\n", n - bad, n);
  return bad != 0;
}
