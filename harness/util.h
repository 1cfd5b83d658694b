// Small helpers shared by the harnesses: symbolic strings and branch-free comparisons (one query each).
#ifndef UTIL_H
#define UTIL_H
#include "sym.h"
#include <stdlib.h>
#include <string.h>
// string of exactly n arbitrary non-NUL bytes, in a heap block of exactly n+1 bytes
static char *symstrn(int n, const char *name) { char *s = malloc(n + 1); if (n) sym_make(s, n, name); for (int i = 0; i < n; i++) sym_assume(s[i] != 0); s[n] = 0; return s; }
static char *symstr(int lo, int hi, const char *name) { return symstrn(lo == hi ? lo : sym_pick(lo, hi, "len"), name); }
static char *dupn(const char *s, int n) { char *r = malloc(n + 1); for (int i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
static int eqn(const char *a, const char *b, size_t n) { unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
// a is a terminated string equal to b[0..n)
static int eqz(const char *a, const char *b, size_t n) { if (strlen(a) != n) return 0; return eqn(a, b, n); }
// v is in 0..max: fork to a concrete value
static int conc(int v, int max) { for (int i = 0; i <= max; i++) if (v == i) return i; return v; }
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// long texts: one of the lengths LONG lists, filled either with a plain letter or with a repetition of FILL, the first and the last byte arbitrary
#ifdef LONG
#ifndef FILL
#define FILL "a"
#endif
static int longlen(void) { static const int L[] = { LONG }; return L[sym_pick(0, sizeof L / sizeof *L - 1, "longlen")]; }
static void longfill(char *s, int n) { int st = sizeof FILL > 2 ? sym_pick(0, 1, "fill") : 0; for (int i = 0; i < n; i++) s[i] = st ? FILL[i % (int)(sizeof FILL - 1)] : FILL[0]; }
static char *longstr(const char *name) {
  int n = longlen(); char *s = malloc(n + 1); s[n] = 0; longfill(s, n);
#ifndef NOHEAD
  sym_make(s, 1, name); sym_assume(s[0] != 0);
#endif
#ifndef NOTAIL
  sym_make(s + n - 1, 1, name); sym_assume(s[n - 1] != 0);
#endif
  return s; }
#define TSTR(lo, hi, name) longstr(name)
#define TMAX LONGMAX
#else
#define TSTR(lo, hi, name) symstr(lo, hi, name)
#define TMAX N
#endif
#endif
#ifndef UTIL2_H
#define UTIL2_H
// branch-free character classes (no path is forked by evaluating them)
#define INR(c, a, b) ((unsigned char)((unsigned char)(c) - (a)) <= (b) - (a))
#define ALNUM(c) (INR(c, '0', '9') | INR(c, 'a', 'z') | INR(c, 'A', 'Z'))
#define HEXD(c) (INR(c, '0', '9') | INR(c, 'a', 'f') | INR(c, 'A', 'F'))
#endif
