// helpers for the C++ harnesses
#ifndef CXX_H
#define CXX_H
#include <string.h>
#include <stdlib.h>
#include <string>
#include <map>
#include <functional>
#include <exception>
extern "C" {
#include "sym.h"
}
static inline bool eqn(const char *a, const char *b, size_t n) { unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
#ifdef LONG
// or a long one: one of the lengths listed, the last byte arbitrary
static inline std::string text(int lo, int hi, const char *name) { static const int L[] = { LONG }; int n = L[sym_pick(0, sizeof L / sizeof *L - 1, "longlen")]; std::string r(n, 't'); char c = sym_u8(name); sym_assume(c != 0); r[n - 1] = c; return r; }
#else
// a string of lo..hi arbitrary non-NUL bytes
static inline std::string text(int lo, int hi, const char *name) { char b[40]; int n = lo == hi ? lo : sym_pick(lo, hi, "len"); if (n) sym_make(b, n, name); for (int i = 0; i < n; i++) sym_assume(b[i] != 0); return std::string(b, n); }
#endif
static inline bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && eqn(a.data(), b.data(), a.size()); }
static inline bool samez(const char *a, const std::string &b) { return a && strlen(a) == b.size() && eqn(a, b.data(), b.size()); }
#endif
