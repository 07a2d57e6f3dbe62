// Measures the time spent inside the KKT solves and the numeric factorisation (where they are functions of
// their own); linked only if the library still has them.
#include "core.h"
extern "C" {
#include "qpSWIFT.h"
}
extern u64 wrap_time[MAXC][4], wrap_calls[MAXC][4];
#ifdef ADAPTER
extern "C" { int wrap_adapter = 1; }
#else
extern "C" { int wrap_present = 1; }
#endif
template <int K, auto F> struct Wrap;
template <int K, class R, class... A, R (*F)(A...)> struct Wrap<K, F> {
  static R call(A... a) {
    if (!sim::cur) return F(a...);
    int id = sim::cur->id; u64 t = sim::now_ns; wrap_calls[id][K]++;
    struct E { int id; u64 t; ~E() { wrap_time[id][K] += sim::now_ns - t; } } e{id, t};
    return F(a...);
  }
};
#define W(K, f) extern "C" { void *wrapptr_##f = (void *)&Wrap<K, &f>::call; } __asm__(".text\n.globl simwrap_" #f "\nsimwrap_" #f ":\n jmp *wrapptr_" #f "(%rip)\n");
#ifdef ADAPTER
// the calls an adapter makes into the library
W(2, QP_SETUP) W(2, QP_SETUP_dense) W(3, QP_SOLVE)
#else
W(0, kktsolve_1) W(0, kktsolve_2) W(1, LDL_numeric)
#endif
