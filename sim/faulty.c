/* Misbehaviour of every kind the simulator looks for; not part of qpSWIFT. Instrumented like the library. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <signal.h>
#include <locale.h>
#include <errno.h>
static long shared = 1; static long zeroed; static volatile long sink;
void f_fine(long *in) { long *p = malloc(24); int i; for (i = 0; i < 3; i++) p[i] = in[i]; memset(p, 0, 24); sink = p[2]; free(p); }
void f_write_past(long *in) { char *p = malloc(16); *(volatile long *)(p + 16) = 1; free(p); }
void f_write_far_past(long *in) { char *p = malloc(16); *(volatile long *)(p + 24) = 1; free(p); }
void f_write_before(long *in) { char *p = malloc(16); *(volatile long *)(p - 8) = 1; free(p); }
void f_read_past(long *in) { char *p = malloc(16); sink = *(volatile long *)(p + 16); free(p); }
void f_read_part(long *in) { char *p = malloc(12); memset(p, 0, 12); sink = *(volatile int *)(p + 12); free(p); }
void f_memset_past(long *in) { char *p = malloc(16); memset(p, 0, 17); free(p); }
void f_memset_far_past(long *in) { char *p = malloc(16); memset(p, 0, 40); free(p); }
void f_memcpy_past(long *in) { char *p = malloc(16); memcpy(p, in, 24); free(p); }
void f_memcpy_from_past(long *in) { char *p = malloc(64); memcpy(p, in, 40); free(p); }
void f_read_input_past(long *in) { sink = *(volatile long *)(in + 3); }
void f_read_freed(long *in) { long *p = malloc(16); free(p); sink = *(volatile long *)p; }
void f_write_freed(long *in) { long *p = malloc(16); free(p); *(volatile long *)p = 3; }
void f_memset_freed(long *in) { long *p = malloc(16); free(p); memset(p, 0, 16); }
void f_strcpy_past(long *in) { char *p = malloc(4); strcpy(p, "four"); free(p); }
void f_sprintf_past(long *in) { char *p = malloc(4); sprintf(p, "%d", 1234); free(p); }
void f_free_twice(long *in) { long *p = malloc(16); free(p); free(p); }
void f_free_inside(long *in) { char *p = malloc(32); free(p + 16); }
void f_free_input(long *in) { free(in); }
void f_write_input(long *in) { *(volatile long *)in = 3; }
void f_memset_input(long *in) { memset(in, 0, 8); }
void f_leak(long *in) { sink = (long)malloc(8) & 1; }
void f_race_data(long *in) { int i; for (i = 0; i < 40; i++) shared++; }
void f_race_bss(long *in) { int i; for (i = 0; i < 40; i++) zeroed++; }
void f_race_memset(long *in) { int i; for (i = 0; i < 40; i++) memset(&zeroed, 0, 8); }
void f_null(long *in) { *(volatile long *)(in[0] - in[0]) = 1; }
void f_abort(long *in) { abort(); }
void f_exit(long *in) { exit(0); }
void f_endless(long *in) { for (;;) sink++; }
void f_mxcsr(long *in) { unsigned c; __asm__ volatile("stmxcsr %0" : "=m"(c)); c |= 0x8000; __asm__ volatile("ldmxcsr %0" ::"m"(c)); }
void f_x87(long *in) { unsigned short c; __asm__ volatile("fnstcw %0" : "=m"(c)); c ^= 0x300; __asm__ volatile("fldcw %0" ::"m"(c)); }
void f_signal(long *in) { signal(SIGFPE, SIG_DFL); }
void f_sigaction(long *in) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = SIG_IGN; sigaction(SIGINT, &a, NULL); }
void f_sigaction_restored(long *in) { struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = SIG_IGN; sigaction(SIGINT, &a, &o); sigaction(SIGINT, &o, NULL); }
void f_locale(long *in) { setlocale(LC_NUMERIC, "C"); }
void f_locale_restored(long *in) { const char *o = setlocale(LC_NUMERIC, NULL); setlocale(LC_NUMERIC, "C"); setlocale(LC_NUMERIC, o); }
void f_srand(long *in) { srand(1); }
void f_rand(long *in) { sink = rand(); }
void f_chdir(long *in) { sink = chdir("/"); }
