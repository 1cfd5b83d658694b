// threads sharing dictionaries and the session table; another thread may run at every lock, comparison, allocation and release
#include "util.h"
#include <onion/dict.h>
#include <onion/low.h>
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
static int rnd; void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; } static char rseq = 'a'; void vf_onion_random_generate(void *d, size_t n) { memset(d, rseq++, n); }
int vf_strcmp(const char *a, const char *b) { sym_yield(); for (;; a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } }
#ifdef ALLOCS
static void *ym(size_t n) { sym_yield(); return malloc(n); } static void yf(void *p) { sym_yield(); free(p); }
#else
static void *ym(size_t n) { return malloc(n); } static void yf(void *p) { free(p); }
#endif
static void *yc(size_t a, size_t b) { void *p = ym(a * b); memset(p, 0, a * b); return p; } static void *yr(void *p, size_t n) { return realloc(p, n); } static char *yd(const char *s) { char *r = ym(strlen(s) + 1); strcpy(r, s); return r; } static void nomem(const char *m) { }
static int running; static void fin(void) { running--; sym_wake(); }
static void join(void) { while (running) sym_block(); }
#if MODE == 1
// one dictionary held by several threads: each takes and gives back references, reads and adds under its lock
static onion_dict *d; static int ops[2][OPS]; static int added[2];
static void *th(void *a) { int t = (int)(intptr_t)a; onion_dict *m = d; int held = 1;
  for (int i = 0; i < OPS; i++) switch (ops[t][i]) {
    case 0: { onion_dict *x = onion_dict_dup(m); CHECK(x == m, "threads: a reference is another dictionary"); sym_yield(); onion_dict_free(x); break; }
    case 1: { char k[3] = { 'k', '0' + t, 0 }, v[2] = { '0' + t, 0 }; onion_dict_lock_write(m); onion_dict_add(m, k, v, OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(m); added[t] = 1; break; }
    case 2: { onion_dict_lock_read(m); const char *v = onion_dict_get(m, "s"); CHECK(v && v[0] == '1', "threads: a value is lost"); if (added[t]) { char k[3] = { 'k', '0' + t, 0 }; v = onion_dict_get(m, k); CHECK(v && v[0] == '0' + t, "threads: an own update is lost"); } onion_dict_unlock(m); break; }
    case 3: { char k[3] = { 'k', '0' + t, 0 }; onion_dict_lock_write(m); int r = onion_dict_remove(m, k); CHECK(r == added[t], "threads: removal of an own key"); onion_dict_unlock(m); added[t] = 0; break; } }
  onion_dict_free(m); fin(); return NULL; }
void harness(void) { onion_low_initialize_memory_allocation(ym, ym, yc, yr, yd, yf, nomem); for (int t = 0; t < 2; t++) for (int i = 0; i < OPS; i++) ops[t][i] = sym_pick(0, 3, "operation");
  d = onion_dict_new(); onion_dict_add(d, "s", "1", 0); int keep = sym_pick(0, 1, "keep"); onion_dict_dup(d); if (keep) onion_dict_dup(d); running = 2; sym_thread(th, (void *)0); sym_thread(th, (void *)1); join();
  if (keep) { CHECK(onion_dict_count(d) == 1 + added[0] + added[1], "threads: updates lost"); for (int t = 0; t < 2; t++) { char k[3] = { 'k', '0' + t, 0 }; CHECK(!!onion_dict_get(d, k) == added[t], "threads: an update is lost"); } onion_dict_free(d); sym_reach("kept"); }
  CHECK(sym_heap_live() == 0, "threads: memory leaked"); sym_reach("done"); }
#else
// the session table: own sessions of each thread, and one they share
static onion_sessions *s; static int ops[2][OPS], own[2]; static char val[2][OPS];
static onion_dict *mk(char c) { onion_dict *x = onion_dict_new(); char v[2] = { c, 0 }; onion_dict_add(x, "v", v, OD_DUP_ALL); return x; }
static void *th(void *a) { int t = (int)(intptr_t)a; char id[3] = { 'i', 'a' + t, 0 };
  for (int i = 0; i < OPS; i++) switch (ops[t][i]) {
    case 0: { onion_dict *x = mk(val[t][i]); onion_sessions_save(s, id, x); onion_dict_free(x); own[t] = 1 + i; break; }
    case 1: onion_sessions_save(s, id, NULL); own[t] = 0; break;
    case 2: { onion_dict *x = onion_sessions_get(s, id); CHECK(!!x == !!own[t], "threads: an own session is lost or comes back"); if (x) { CHECK(onion_dict_get(x, "v")[0] == val[t][own[t] - 1], "threads: an own session is another"); onion_dict_free(x); } break; }
    case 3: { onion_dict *x = mk('A' + t); onion_sessions_save(s, "sh", x); onion_dict_free(x); break; }
    case 4: onion_sessions_save(s, "sh", NULL); break;
    case 5: { onion_dict *x = onion_sessions_get(s, "sh"); if (x) { const char *v = onion_dict_get(x, "v"); CHECK(v && (v[0] == 'A' || v[0] == 'B' || v[0] == 'Z'), "threads: a shared session has contents nobody stored"); sym_yield(); CHECK(onion_dict_get(x, "v") == v, "threads: a session changes while it is used"); onion_dict_free(x); } break; } }
  fin(); return NULL; }
void harness(void) { onion_low_initialize_memory_allocation(ym, ym, yc, yr, yd, yf, nomem); int shared = 0; for (int t = 0; t < 2; t++) for (int i = 0; i < OPS; i++) ops[t][i] = sym_pick(0, 5, "operation");
  sym_make(val, sizeof val, "values"); for (int t = 0; t < 2; t++) for (int i = 0; i < OPS; i++) sym_assume(val[t][i] != 0);
  s = onion_sessions_mem_new(); onion_dict *x = mk('Z'); onion_sessions_save(s, "sh", x); onion_dict_free(x); running = 2; sym_thread(th, (void *)0); sym_thread(th, (void *)1); join();
  for (int t = 0; t < 2; t++) { char id[3] = { 'i', 'a' + t, 0 }; x = onion_sessions_get(s, id); CHECK(!!x == !!own[t], "threads: a session is lost"); if (x) { CHECK(onion_dict_get(x, "v")[0] == val[t][own[t] - 1], "threads: a session is lost"); onion_dict_free(x); } }
  // the shared one: what the last operation of some thread left
  x = onion_sessions_get(s, "sh"); char got = x ? onion_dict_get(x, "v")[0] : 0; if (x) onion_dict_free(x); int can = 0, touched = 0; for (int t = 0; t < 2; t++) { int last = -1; for (int i = 0; i < OPS; i++) if (ops[t][i] == 3 || ops[t][i] == 4) last = ops[t][i]; if (last >= 0) { touched = 1; if (got == (last == 3 ? 'A' + t : 0)) can = 1; } }
  CHECK(touched ? can : got == 'Z', "threads: the shared session is not what the last operation left");
  onion_sessions_free(s); CHECK(sym_heap_live() == 0, "threads: memory leaked"); sym_reach("done"); }
#endif
