// the low level functions: exactly the configured ones are called, with exactly what was given; failing ones tell it
#include "sym.h"
#include "util.h"
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <errno.h>
#include <onion/low.h>
static int which, calls, fails, failed; static size_t a1, a2; static void *p1; static char room[64]; static char msg[64];
static void *m(size_t n) { calls++; which = 1; a1 = n; return fails ? NULL : room; }
static void *sm(size_t n) { calls++; which = 2; a1 = n; return fails ? NULL : room; }
static void *c(size_t n, size_t k) { calls++; which = 3; a1 = n; a2 = k; return fails ? NULL : room; }
static void *r(void *p, size_t n) { calls++; which = 4; p1 = p; a1 = n; return fails ? NULL : room; }
static char *d(const char *s) { calls++; which = 5; p1 = (void *)s; return fails ? NULL : room; }
static void f(void *p) { calls++; which = 6; p1 = p; }
static int op, hard; static void over(void) { sym_reach("failed"); sym_reach("done"); sym_stop(); }
static void mf(const char *t) { failed++; CHECK(fails && hard, "low: failure without one"); CHECK(t && t[0] && strlen(t) < 50, "low: failure without a message"); over(); }
static pthread_t th; static int tr; static void *start(void *x) { return x; }
static int tc(pthread_t *t, const pthread_attr_t *a, void *(*s)(void *), void *x) { calls++; which = 7; CHECK(t == &th && !a && s == start && x == room, "low: other arguments"); return tr; }
static int tj(pthread_t t, void **v) { calls++; which = 8; CHECK(t == th && v == (void **)room, "low: other arguments"); return tr; }
static int tca(pthread_t t) { calls++; which = 9; CHECK(t == th, "low: other arguments"); return tr; }
static int td(pthread_t t) { calls++; which = 10; CHECK(t == th, "low: other arguments"); return tr; }
static void te(void *v) { calls++; which = 11; CHECK(v == room, "low: other arguments"); }
static int ts(int h, const sigset_t *s, sigset_t *o) { calls++; which = 12; CHECK(h == 3 && s == (void *)room && o == (void *)(room + 1), "low: other arguments"); return tr; }
void harness(void) { onion_low_initialize_memory_allocation(m, sm, c, r, d, f, mf); onion_low_initialize_threads(tc, tj, tca, td, te, ts); fails = sym_pick(0, 1, "fails"); op = sym_pick(0, 16, "operation"); size_t n, k; sym_make(&n, sizeof n, "n"); sym_make(&k, sizeof k, "k"); void *g = NULL; hard = op < 5; if (hard && fails) { static const size_t z[] = { 0, 1, 4096, 0x7fffffffffffffffUL, 0xffffffffffffffffUL }; n = z[sym_pick(0, 4, "size")]; k = z[sym_pick(0, 4, "size")]; } tr = sym_pick(0, 1, "result") ? EAGAIN : 0; th = n; int w = 0, rr = 0, alloc = 1; char s[8] = "text";
  switch (op) { case 0: g = onion_low_malloc(n); w = 1; break; case 1: g = onion_low_scalar_malloc(n); w = 2; break; case 2: g = onion_low_calloc(n, k); w = 3; break; case 3: g = onion_low_realloc(room + 1, n); w = 4; break; case 4: g = onion_low_strdup(s); w = 5; break;
    case 5: g = onion_low_try_malloc(n); w = 1; break; case 6: g = onion_low_try_scalar_malloc(n); w = 2; break; case 7: g = onion_low_try_calloc(n, k); w = 3; break; case 8: g = onion_low_try_realloc(room + 1, n); w = 4; break; case 9: g = onion_low_try_strdup(s); w = 5; break;
    case 10: onion_low_free(room); CHECK(p1 == room, "low: frees something else"); onion_low_free(NULL); w = 6; alloc = 0; break;
    case 11: rr = onion_low_pthread_create(&th, NULL, start, room); w = 7; alloc = 0; break; case 12: rr = onion_low_pthread_join(th, (void **)room); w = 8; alloc = 0; break; case 13: rr = onion_low_pthread_cancel(th); w = 9; alloc = 0; break; case 14: rr = onion_low_pthread_detach(th); w = 10; alloc = 0; break; case 15: onion_low_pthread_exit(room); rr = tr; w = 11; alloc = 0; break; case 16: rr = onion_low_pthread_sigmask(3, (void *)room, (void *)(room + 1)); w = 12; alloc = 0; break; }
  int empty = (w == 3) && ((n == 0) | (k == 0)); if (empty) { CHECK(!g && !calls, "low: nothing is asked for and something is done"); sym_reach("nothing"); return; }
  CHECK(calls == 1 && which == w, "low: another function than the configured one"); if (!alloc) { if (w > 6) CHECK(rr == tr, "low: another result"); sym_reach("done"); return; }
  CHECK(!(hard && fails), "low: an allocation that can not fail fails"); CHECK(g == (fails ? NULL : room), "low: another result"); if (w <= 2) CHECK(a1 == n, "low: another size"); if (w == 3) CHECK(a1 == n && a2 == k, "low: another size"); if (w == 4) CHECK(a1 == n && p1 == room + 1, "low: another size"); if (w == 5) CHECK(p1 == s, "low: another text"); sym_reach(fails ? "none" : "done"); }
