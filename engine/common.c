// Environment shared by the symbolic executor and the native replayer: silent log, checked locks.
#include <errno.h>
#include "sym.h"
static void quiet_log(int level, const char *file, int line, const char *fmt, ...) { (void)level; (void)file; (void)line; (void)fmt; }
#ifndef REAL_LOG
void (*onion_log)(int level, const char *file, int line, const char *fmt, ...) = quiet_log;
int onion_log_flags;
#endif
// lock state is kept in the lock object itself; misuse is an assertion
typedef struct { int state; int owner; int kind; } LK;   // state: 0 free, >0 held, -1 write held
int vf_pthread_mutexattr_init(int *a) { *a = 0; return 0; }
int vf_pthread_mutexattr_settype(int *a, int t) { *a = t; return 0; }
int vf_pthread_mutexattr_destroy(int *a) { return 0; }
int vf_pthread_mutex_init(LK *m, const int *a) { m->state = 0; m->owner = -1; m->kind = a ? *a : 0; return 0; }
int vf_pthread_mutex_destroy(LK *m) { sym_assert(m->state == 0, "locks: mutex destroyed while held"); return 0; }
int vf_pthread_mutex_lock(LK *m) { sym_yield(); if (m->state && m->owner == sym_self() && m->kind == 1) { m->state++; return 0; } if (m->state && m->owner == sym_self()) sym_assert(0, "locks: mutex locked twice by the same thread (deadlock)"); while (m->state) sym_block(); m->state = 1; m->owner = sym_self(); return 0; }
int vf_pthread_mutex_trylock(LK *m) { sym_yield(); if (m->state && !(m->kind == 1 && m->owner == sym_self())) return EBUSY; m->state++; m->owner = sym_self(); return 0; }
int vf_pthread_mutex_unlock(LK *m) { sym_assert(m->state > 0, "locks: unlock of a mutex that is not held"); sym_assert(m->owner == sym_self(), "locks: mutex unlocked by another thread"); m->state--; sym_wake(); sym_yield(); return 0; }
int vf_pthread_rwlock_init(LK *m, const void *a) { m->state = 0; m->owner = -1; return 0; }
int vf_pthread_rwlock_destroy(LK *m) { sym_assert(m->state == 0, "locks: rwlock destroyed while held"); return 0; }
int vf_pthread_rwlock_rdlock(LK *m) { sym_yield(); if (m->state < 0 && m->owner == sym_self()) sym_assert(0, "locks: read lock while holding the write lock (deadlock)"); while (m->state < 0) sym_block(); m->state++; return 0; }
int vf_pthread_rwlock_wrlock(LK *m) { sym_yield(); if (m->state < 0 && m->owner == sym_self()) sym_assert(0, "locks: write lock taken twice by the same thread (deadlock)"); while (m->state) sym_block(); m->state = -1; m->owner = sym_self(); return 0; }
int vf_pthread_rwlock_unlock(LK *m) { sym_assert(m->state != 0, "locks: unlock of a rwlock that is not held"); if (m->state < 0) m->state = 0; else m->state--; sym_wake(); sym_yield(); return 0; }
// wall clock: a fixed moment unless the harness says otherwise
#include <time.h>
#include <string.h>
#include <sys/types.h>
#define WEAK __attribute__((weak))
WEAK time_t vf_now = 1000000000;
WEAK time_t vf_time(time_t *t) { if (t) *t = vf_now; return vf_now; }
WEAK struct tm *vf_localtime_r(const time_t *t, struct tm *tm) { memset(tm, 0, sizeof *tm); tm->tm_year = 101; tm->tm_mon = 8; tm->tm_mday = 9; return tm; }
WEAK struct tm *vf_gmtime_r(const time_t *t, struct tm *tm) { return vf_localtime_r(t, tm); }
static struct tm vf_tm;
WEAK struct tm *vf_localtime(const time_t *t) { return vf_localtime_r(t, &vf_tm); }
WEAK struct tm *vf_gmtime(const time_t *t) { return vf_localtime_r(t, &vf_tm); }
// the literal beginning of the format and a text of fixed length (29, as an HTTP date); nothing is promised when it does not fit
WEAK size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *tm) { static const char d[] = "Sun, 09 Sep 2001 01:46:40 GMT"; size_t l = 0; while (f[l] && f[l] != '%') l++; if (n < l + sizeof d) return 0; memcpy(b, f, l); memcpy(b + l, d, sizeof d); return l + sizeof d - 1; }
WEAK int vf_clock_gettime(int c, struct timespec *ts) { ts->tv_sec = vf_now; ts->tv_nsec = 0; return 0; }
