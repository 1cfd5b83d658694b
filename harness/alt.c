// an existing harness, run with allocation functions of the user: everything the library takes from them has to go back to them, and nothing else
#include "sym.h"
#include <stdlib.h>
#include <string.h>
#include <onion/low.h>
#define AT 0x5eed5eed12345678UL
static long alt_live; static unsigned long alt_n;
static void *alt_malloc(size_t n) { unsigned long *p = malloc(n + 16); if (!p) return NULL; p[0] = AT; p[1] = n; alt_live++; alt_n++; return p + 2; }
static void *alt_calloc(size_t a, size_t b) { void *p = alt_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static char *alt_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = alt_malloc(n); memcpy(p, s, n); return p; }
static void alt_free(void *v) { if (!v) return; unsigned long *p = (unsigned long *)v - 2; CHECK(sym_readable(p, 16) && p[0] == AT, "memory: something that was not taken from the configured functions is given back to them"); p[0] = 1; alt_live--; free(p); }
static void *alt_realloc(void *v, size_t n) { if (!v) return alt_malloc(n); unsigned long *p = (unsigned long *)v - 2; CHECK(sym_readable(p, 16) && p[0] == AT, "memory: something that was not taken from the configured functions is given to them to resize"); unsigned long o = p[1]; void *q = alt_malloc(n); memcpy(q, v, o < n ? o : n); alt_free(v); return q; }
static void alt_fail(const char *m) { sym_stop(); }
#define harness inner_harness
#include INNER
#undef harness
void harness(void) { onion_low_initialize_memory_allocation(alt_malloc, alt_malloc, alt_calloc, alt_realloc, alt_strdup, alt_free, alt_fail); inner_harness(); if (alt_n) sym_reach("used"); }
