// Native replay runtime: feeds the recorded inputs of one counterexample to the harness, in order.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <ucontext.h>
#include "sym.h"
static FILE *in; static FILE *sf; static long live;
static FILE *inp(void) { if (!in) { in = fopen(getenv("SYM_INPUT"), "r"); if (!in) { fprintf(stderr, "no SYM_INPUT\n"); exit(9); } } return in; }
void sym_make(void *p, size_t n, const char *name) {
  static char line[1 << 16]; memset(p, 0, n); if (!fgets(line, sizeof line, inp())) { return; }
  char *h = strchr(line, ' '); h = h ? h + 1 : line; for (size_t i = 0; i < n; i++) { unsigned x; if (sscanf(h + 2 * i, "%2x", &x) != 1) break; ((unsigned char *)p)[i] = (unsigned char)x; }
}
void sym_assume(int c) { if (!c) { fprintf(stderr, "replay: assumption violated\n"); _exit(0); } }
void sym_assert(int c, const char *m) { if (!c) { fprintf(stderr, "ASSERTION FAILED: %s\n", m); fflush(stderr); _exit(77); } }
void sym_reach(const char *l) { (void)l; }
long sym_heap_live(void) { return live; }
void sym_stop(void) { _exit(0); }
size_t sym_objsize(const void *p) { return 0; }
int sym_readable(const void *p, size_t n) { return 1; }
void *rt_malloc(size_t n) { if (n > (64ul << 20)) return NULL; void *p = malloc(n); if (p) live++; return p; }
void *rt_calloc(size_t n, size_t m) { if (n * m > (64ul << 20)) return NULL; void *p = calloc(n, m); if (p) live++; return p; }
void *rt_realloc(void *q, size_t n) { if (n > (64ul << 20)) return NULL; if (!q) return rt_malloc(n); return realloc(q, n); }
void rt_free(void *p) { if (p) live--; free(p); }
char *rt_strdup(const char *s) { char *p = strdup(s); if (p) live++; return p; }
char *rt_strndup(const char *s, size_t n) { char *p = strndup(s, n); if (p) live++; return p; }
int rt_vasprintf(char **o, const char *f, va_list ap) { int r = vasprintf(o, f, ap); if (r >= 0) live++; return r; }
int rt_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = rt_vasprintf(o, f, ap); va_end(ap); return r; }
// cooperative threads following the recorded schedule (line of SYM_SCHED: one thread number per scheduling decision)
static ucontext_t cx[8]; static int nth = 1, cur, done_[8], waiting[8]; static void *(*ent[8])(void *); static void *arg[8];
static int nextSched(void) { static FILE *f; static int init; int v; if (!init) { init = 1; const char *e = getenv("SYM_SCHED"); if (e) f = fopen(e, "r"); } if (f && fscanf(f, "%d", &v) == 1) return v; return -1; }
static void go(int t) { int o = cur; cur = t; if (t != o) swapcontext(&cx[o], &cx[t]); }
static void sched(int stay) { int any = 0; for (int i = 0; i < nth; i++) if (!done_[i] && !waiting[i]) any = 1; if (!any) { int all = 1; for (int i = 0; i < nth; i++) if (!done_[i]) all = 0; if (all) _exit(0); fprintf(stderr, "DEADLOCK\n"); _exit(78); }
  int t = nextSched(); if (t < 0 || t >= nth || done_[t] || waiting[t]) { t = cur; if (done_[t] || waiting[t] || !stay) for (int i = 0; i < nth; i++) if (!done_[i] && !waiting[i] && (i != cur)) t = i; } go(t); }
static void tramp(void) { ent[cur](arg[cur]); done_[cur] = 1; sched(0); }
int sym_thread(void *(*f)(void *), void *a) { int k = nth++; getcontext(&cx[k]); cx[k].uc_stack.ss_sp = malloc(1 << 20); cx[k].uc_stack.ss_size = 1 << 20; cx[k].uc_link = 0; ent[k] = f; arg[k] = a; makecontext(&cx[k], tramp, 0); return k; }
void sym_yield(void) { if (nth > 1) sched(1); }
void sym_block(void) { if (nth == 1) { fprintf(stderr, "DEADLOCK\n"); _exit(78); } waiting[cur] = 1; sched(0); }
void sym_wake(void) { memset(waiting, 0, sizeof waiting); }
int sym_self(void) { return cur; }
void harness(void);
static void ends(void) { fprintf(stderr, "THE PROCESS ENDS\n"); _exit(79); }
int main(void) { atexit(ends); harness(); _exit(0); }
