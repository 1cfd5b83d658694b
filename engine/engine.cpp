// osx: a small symbolic executor for LLVM bitcode (sequential + cooperative threads), deciding with Z3.
//
// The real code is compiled to bitcode, linked with a harness and a C library model, and executed
// with symbolic input bytes.  Every branch whose condition depends on a symbolic byte is decided by
// Z3: both feasible sides are explored.  Every memory access is bounds/lifetime checked with a
// solver query when its address is symbolic.  When the whole path tree has been exhausted the
// assertions hold for every value of the symbolic bytes (within the bounds the harness states);
// otherwise a model is reported as a concrete input, which the runner replays natively.
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <bitset>
#include <algorithm>
#include <chrono>
#include <deque>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>

using namespace std;
typedef uint64_t u64;
typedef int64_t i64;
static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(const string &m) { fprintf(stderr, "osx: fatal: %s\n", m.c_str()); exit(4); }
static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

// ------------------------------------------------------------------ expressions
enum Op : uint8_t { CONST, VAR, CONCAT, EXTRACT, ZEXT, SEXT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, NOT };
static const int MAXV = 1536;
typedef bitset<MAXV> VS;
struct E { Op op; uint8_t w; uint32_t id; u64 c; E *a, *b, *k; const VS *vs; Z3_ast z; };
struct EKey { Op op; uint8_t w; u64 c; E *a, *b, *k;
  bool operator==(const EKey &o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && k == o.k; } };
struct EHash { size_t operator()(const EKey &x) const { size_t h = x.op * 0x9E3779B97F4A7C15ull + x.w;
  auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }; mix(x.c); mix((u64)x.a); mix((u64)x.b); mix((u64)x.k); return h; } };
static unordered_map<EKey, E *, EHash> etab;
static uint32_t eid = 0;
static VS vsEmpty;
static unordered_map<u64, const VS *> vsUnion;
static vector<const VS *> vsAll;
static const VS *vsOr(const VS *x, const VS *y) {
  if (!y || x == y || *y == vsEmpty) return x;
  if (*x == vsEmpty) return y;
  VS u = *x | *y; if (u == *x) return x; if (u == *y) return y;
  static unordered_map<size_t, vector<const VS *>> byh; size_t h = hash<VS>()(u);
  for (auto p : byh[h]) if (*p == u) return p;
  const VS *n = new VS(u); byh[h].push_back(n); return n;
}
static E *mk(Op op, int w, u64 c, E *a = 0, E *b = 0, E *k = 0) {
  EKey key{op, (uint8_t)w, c, a, b, k};
  auto it = etab.find(key); if (it != etab.end()) return it->second;
  E *e = new E{op, (uint8_t)w, eid++, c, a, b, k, &vsEmpty, nullptr};
  if (op == VAR) { VS *v = new VS; v->set(c); e->vs = v; }
  else { if (a) e->vs = a->vs; if (b) e->vs = vsOr(e->vs, b->vs); if (k) e->vs = vsOr(e->vs, k->vs); }
  etab.emplace(key, e); return e;
}
static E *C(u64 v, int w) { return mk(CONST, w, v & maskw(w)); }
static bool isC(E *e) { return e->op == CONST; }
static E *eNot(E *a);
static E *eExtract(E *a, int lo, int w);
static E *eZext(E *a, int w);
static E *eSext(E *a, int w);
static E *eEq(E *a, E *b);
static E *eIte(E *c, E *a, E *b);
static u64 foldBin(Op op, u64 x, u64 y, int w, bool &ok) {
  ok = true; x &= maskw(w); y &= maskw(w);
  switch (op) {
  case ADD: return x + y; case SUB: return x - y; case MUL: return x * y;
  case UDIV: if (!y) { ok = false; return 0; } return x / y;
  case UREM: if (!y) { ok = false; return 0; } return x % y;
  case SDIV: { i64 a = sx(x, w), b = sx(y, w); if (!b) { ok = false; return 0; } if (b == -1) return (u64)0 - (u64)a; return (u64)(a / b); }
  case SREM: { i64 a = sx(x, w), b = sx(y, w); if (!b) { ok = false; return 0; } if (b == -1) return 0; return (u64)(a % b); }
  case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
  case SHL: return y >= (u64)w ? 0 : x << y; case LSHR: return y >= (u64)w ? 0 : x >> y;
  case ASHR: return y >= (u64)w ? (u64)(sx(x, w) >> (w - 1)) : (u64)(sx(x, w) >> y);
  case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
  case SLT: return sx(x, w) < sx(y, w); case SLE: return sx(x, w) <= sx(y, w);
  default: ok = false; return 0;
  }
}
static bool isCmp(Op o) { return o >= EQ && o <= SLE; }
static E *eBin(Op op, E *a, E *b) {
  int w = a->w;
  if (a->w != b->w) die("width mismatch in expression");
  if (isC(a) && isC(b)) { bool ok; u64 r = foldBin(op, a->c, b->c, w, ok); if (ok) return C(r, isCmp(op) ? 1 : w); }
  if (op == EQ) return eEq(a, b);
  switch (op) {
  case ADD: if (isC(a)) swap(a, b); if (isC(b) && b->c == 0) return a;
    if (isC(b) && a->op == ADD && isC(a->b)) return eBin(ADD, a->a, C(a->b->c + b->c, w)); break;
  case SUB: if (a == b) return C(0, w); if (isC(b)) return eBin(ADD, a, C(0 - b->c, w)); break;
  case MUL: if (isC(a)) swap(a, b); if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; } break;
  case AND: if (isC(a)) swap(a, b); if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a;
      if (a->op == ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
      if (a->op == ZEXT) return eZext(eBin(AND, a->a, C(b->c, a->a->w)), w);
      for (int lw = 1; lw < w; lw++) if (b->c == maskw(lw)) return eZext(eExtract(a, 0, lw), w); } break;
  case OR: if (isC(a)) swap(a, b); if (a == b) return a; if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; } break;
  case XOR: if (isC(a)) swap(a, b); if (a == b) return C(0, w); if (isC(b) && b->c == 0) return a;
    if (w == 1 && isC(b)) return eNot(a); break;
  case SHL: case LSHR: case ASHR: if (isC(b) && b->c == 0) return a;
    if (op == LSHR && isC(b) && b->c < (u64)w) return eZext(eExtract(a, (int)b->c, w - (int)b->c), w);
    break;
  case ULT: if (a == b) return C(0, 1);
    if (isC(b) && b->c == 0) return C(0, 1);
    if (isC(b) && b->c == 1) return eEq(a, C(0, w));
    if (a->op == ZEXT && isC(b)) { if (b->c > maskw(a->a->w)) return C(1, 1); return eBin(ULT, a->a, C(b->c, a->a->w)); }
    if (b->op == ZEXT && isC(a)) { if (a->c >= maskw(b->a->w)) return C(0, 1); return eBin(ULT, C(a->c, b->a->w), b->a); }
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return eBin(ULT, a->a, b->a);
    break;
  case ULE: return eNot(eBin(ULT, b, a));
  case SLT: if (a == b) return C(0, 1);
    if (a->op == ZEXT && isC(b)) { if (sx(b->c, w) <= 0) return C(0, 1); return eBin(ULT, a, b); }
    if (b->op == ZEXT && isC(a)) { if (sx(a->c, w) < 0) return C(1, 1); return eBin(ULT, a, b); }
    if (a->op == ZEXT && b->op == ZEXT) return eBin(ULT, a, b);
    break;
  case SLE: return eNot(eBin(SLT, b, a));
  default: break;
  }
  if (a->op == ITE && isC(b) && isC(a->b) && isC(a->k)) return eIte(a->a, eBin(op, a->b, b), eBin(op, a->k, b));
  if (b->op == ITE && isC(a) && isC(b->b) && isC(b->k)) return eIte(b->a, eBin(op, a, b->b), eBin(op, a, b->k));
  return mk(op, isCmp(op) ? 1 : w, 0, a, b);
}
static E *eEq(E *a, E *b) {
  if (a == b) return C(1, 1);
  if (isC(a)) swap(a, b);
  int w = a->w;
  if (isC(a) && isC(b)) return C(a->c == b->c, 1);
  if (isC(b)) {
    if (w == 1) return b->c ? a : eNot(a);
    if (a->op == ZEXT) { if (b->c > maskw(a->a->w)) return C(0, 1); return eEq(a->a, C(b->c, a->a->w)); }
    if (a->op == SEXT) { if ((u64)(sx(b->c, a->a->w) & (i64)maskw(w)) != b->c) return C(0, 1); return eEq(a->a, C(b->c, a->a->w)); }
    if (a->op == ADD && isC(a->b)) return eEq(a->a, C(b->c - a->b->c, w));
    if (a->op == XOR && isC(a->b)) return eEq(a->a, C(b->c ^ a->b->c, w));
    if (a->op == SUB && isC(a->a)) return eEq(a->b, C(a->a->c - b->c, w));
    if (a->op == CONCAT) { int lw = a->b->w; return eBin(AND, eEq(a->a, C(b->c >> lw, a->a->w)), eEq(a->b, C(b->c, lw))); }
    if (a->op == ITE) {
      if (isC(a->b) && a->b->c != b->c) return eBin(AND, eNot(a->a), eEq(a->k, b));
      if (isC(a->k) && a->k->c != b->c) return eBin(AND, a->a, eEq(a->b, b));
      if (isC(a->b) && a->b->c == b->c) return eBin(OR, a->a, eEq(a->k, b));
      if (isC(a->k) && a->k->c == b->c) return eBin(OR, eNot(a->a), eEq(a->b, b));
    }
  } else {
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return eEq(a->a, b->a);
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eEq(a->a, b->a);
    if (a->id > b->id) swap(a, b);
  }
  return mk(EQ, 1, 0, a, b);
}
static E *eNot(E *a) { if (isC(a)) return C(!a->c, 1); if (a->op == NOT) return a->a; return mk(NOT, 1, 0, a); }
static E *eIte(E *c, E *a, E *b) {
  if (isC(c)) return c->c ? a : b; if (a == b) return a;
  if (a->w == 1) { if (isC(a)) return a->c ? eBin(OR, c, b) : eBin(AND, eNot(c), b); if (isC(b)) return b->c ? eBin(OR, eNot(c), a) : eBin(AND, c, a); }
  if (c->op == NOT) return mk(ITE, a->w, 0, c->a, b, a);
  return mk(ITE, a->w, 0, c, a, b);
}
static E *eConcat(E *hi, E *lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return C((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return eZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return eExtract(hi->a, (int)lo->c, w);
  if (hi->op == EXTRACT && hi->a == lo && hi->c == lo->w) return eExtract(lo, 0, w);
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->c == lo->a->c + lo->a->w)
    return eConcat(eExtract(hi->a, (int)lo->a->c, hi->w + lo->a->w), lo->b);
  return mk(CONCAT, w, 0, hi, lo);
}
static E *eExtract(E *a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return C(a->c >> lo, w);
  switch (a->op) {
  case EXTRACT: return eExtract(a->a, lo + (int)a->c, w);
  case CONCAT: { int lw = a->b->w; if (lo + w <= lw) return eExtract(a->b, lo, w); if (lo >= lw) return eExtract(a->a, lo - lw, w);
      return eConcat(eExtract(a->a, 0, lo + w - lw), eExtract(a->b, lo, lw - lo)); }
  case ZEXT: { int iw = a->a->w; if (lo + w <= iw) return eExtract(a->a, lo, w); if (lo >= iw) return C(0, w);
      return eZext(eExtract(a->a, lo, iw - lo), w); }
  case SEXT: { int iw = a->a->w; if (lo + w <= iw) return eExtract(a->a, lo, w); if (lo == 0) return eSext(a->a, w); break; }
  case AND: case OR: case XOR: if (isC(a->b)) return eBin(a->op, eExtract(a->a, lo, w), C(a->b->c >> lo, w)); break;
  case ADD: case MUL: case SUB: if (lo == 0) return eBin(a->op, eExtract(a->a, 0, w), eExtract(a->b, 0, w)); break;
  case SHL: if (isC(a->b)) { int s = (int)a->b->c; if (lo >= s) return eExtract(a->a, lo - s, w); if (lo + w <= s) return C(0, w); } break;
  case ITE: if (isC(a->b) || isC(a->k)) return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->k, lo, w)); break;
  default: break;
  }
  return mk(EXTRACT, w, lo, a);
}
static E *eZext(E *a, int w) { if (w == a->w) return a; if (isC(a)) return C(a->c, w); if (a->op == ZEXT) return eZext(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->k)) return eIte(a->a, C(a->b->c, w), C(a->k->c, w)); return mk(ZEXT, w, 0, a); }
static E *eSext(E *a, int w) { if (w == a->w) return a; if (isC(a)) return C((u64)sx(a->c, a->w), w);
  if (a->op == ZEXT && a->w > a->a->w) return eZext(a->a, w); if (a->op == SEXT) return eSext(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->k)) return eIte(a->a, eSext(a->b, w), eSext(a->k, w)); return mk(SEXT, w, 0, a); }

typedef vector<uint8_t> Model;
static vector<u64> evc; static vector<uint32_t> evg; static uint32_t evgen = 0; static const Model *evm;
static u64 evR(E *e) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) return e->c < evm->size() ? (*evm)[e->c] : 0;
  if (evg.size() <= e->id) { evg.resize(eid + 4096, 0); evc.resize(eid + 4096); }
  if (evg[e->id] == evgen) return evc[e->id];
  u64 r = 0;
  switch (e->op) {
  case CONCAT: r = (evR(e->a) << e->b->w) | evR(e->b); break;
  case EXTRACT: r = evR(e->a) >> e->c; break;
  case ZEXT: r = evR(e->a); break;
  case SEXT: r = (u64)sx(evR(e->a), e->a->w); break;
  case ITE: r = evR(e->a) ? evR(e->b) : evR(e->k); break;
  case NOT: r = !evR(e->a); break;
  default: { bool ok; u64 x = evR(e->a), y = evR(e->b); r = foldBin(e->op, x, y, e->a->w, ok);
      if (!ok) { // smt-lib semantics for division by zero
        if (e->op == UDIV) r = maskw(e->w); else if (e->op == SDIV) r = sx(x, e->w) < 0 ? 1 : maskw(e->w); else r = x; } }
  }
  r &= maskw(e->w); evg[e->id] = evgen; evc[e->id] = r; return r;
}
static u64 eval(E *e, const Model &m) { evm = &m; evgen++; return evR(e); }

// ------------------------------------------------------------------ solver
static Z3_context zc; static Z3_solver zs;
static u64 nQueries = 0, nCacheHits = 0, nUnknown = 0; static double solverTime = 0;
static unsigned solverTimeoutMs = 20000;
static Z3_ast toZ(E *e) {
  if (e->z) return e->z;
  Z3_ast r = 0; Z3_sort s = Z3_mk_bv_sort(zc, e->w);
  auto b2bv = [&](Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s)); };
  auto is1 = [&](E *x) { return Z3_mk_eq(zc, toZ(x), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); };
  switch (e->op) {
  case CONST: r = Z3_mk_unsigned_int64(zc, e->c, s); break;
  case VAR: { r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->c), s); break; }
  case CONCAT: r = Z3_mk_concat(zc, toZ(e->a), toZ(e->b)); break;
  case EXTRACT: r = Z3_mk_extract(zc, (unsigned)e->c + e->w - 1, (unsigned)e->c, toZ(e->a)); break;
  case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, toZ(e->a)); break;
  case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, toZ(e->a)); break;
  case ADD: r = Z3_mk_bvadd(zc, toZ(e->a), toZ(e->b)); break;
  case SUB: r = Z3_mk_bvsub(zc, toZ(e->a), toZ(e->b)); break;
  case MUL: r = Z3_mk_bvmul(zc, toZ(e->a), toZ(e->b)); break;
  case UDIV: r = Z3_mk_bvudiv(zc, toZ(e->a), toZ(e->b)); break;
  case SDIV: r = Z3_mk_bvsdiv(zc, toZ(e->a), toZ(e->b)); break;
  case UREM: r = Z3_mk_bvurem(zc, toZ(e->a), toZ(e->b)); break;
  case SREM: r = Z3_mk_bvsrem(zc, toZ(e->a), toZ(e->b)); break;
  case AND: r = Z3_mk_bvand(zc, toZ(e->a), toZ(e->b)); break;
  case OR: r = Z3_mk_bvor(zc, toZ(e->a), toZ(e->b)); break;
  case XOR: r = Z3_mk_bvxor(zc, toZ(e->a), toZ(e->b)); break;
  case SHL: r = Z3_mk_bvshl(zc, toZ(e->a), toZ(e->b)); break;
  case LSHR: r = Z3_mk_bvlshr(zc, toZ(e->a), toZ(e->b)); break;
  case ASHR: r = Z3_mk_bvashr(zc, toZ(e->a), toZ(e->b)); break;
  case EQ: r = b2bv(Z3_mk_eq(zc, toZ(e->a), toZ(e->b))); break;
  case ULT: r = b2bv(Z3_mk_bvult(zc, toZ(e->a), toZ(e->b))); break;
  case ULE: r = b2bv(Z3_mk_bvule(zc, toZ(e->a), toZ(e->b))); break;
  case SLT: r = b2bv(Z3_mk_bvslt(zc, toZ(e->a), toZ(e->b))); break;
  case SLE: r = b2bv(Z3_mk_bvsle(zc, toZ(e->a), toZ(e->b))); break;
  case ITE: r = Z3_mk_ite(zc, is1(e->a), toZ(e->b), toZ(e->k)); break;
  case NOT: r = Z3_mk_bvnot(zc, toZ(e->a)); break;
  }
  e->z = r; return r;
}
struct QR { int r; vector<pair<int, uint8_t>> m; };
struct VecHash { size_t operator()(const vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h; } };
static unordered_map<vector<uint32_t>, QR, VecHash> qcache;
static Z3_ast z1;
// models Z3 returned recently: a query one of them satisfies is satisfiable without asking again
static vector<Model> ring; static size_t ringPos = 0; static u64 nModelHits = 0;
static QR *fromModels(const vector<E *> &sl, const VS &v, const vector<uint32_t> &key) {
  for (size_t k = ring.size(); k-- > 0;) { const Model &m = ring[k]; evm = &m; evgen++; bool ok = true; for (auto e : sl) if (!evR(e)) { ok = false; break; }
    if (!ok) continue; QR n; n.r = 1; for (size_t i = v._Find_first(); i < MAXV; i = v._Find_next(i)) n.m.push_back({(int)i, i < m.size() ? m[i] : (uint8_t)0}); return &qcache.emplace(key, move(n)).first->second; }
  return nullptr; }
// returns 1 sat, 0 unsat, -1 unknown
static int solve(const vector<E *> &cons, E *cond, Model *m) {
  if (isC(cond)) { if (!cond->c) return 0; return 1; }
  VS v = *cond->vs; vector<E *> sl{cond}; vector<char> used(cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!used[i] && (*cons[i]->vs & v).any()) { used[i] = 1; v |= *cons[i]->vs; sl.push_back(cons[i]); ch = true; } }
  vector<uint32_t> key; for (auto e : sl) key.push_back(e->id); sort(key.begin(), key.end()); key.erase(unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key); QR *q;
  if (it != qcache.end()) { nCacheHits++; q = &it->second; }
  else if (QR *h = fromModels(sl, v, key)) { nModelHits++; q = h; }
  else {
    double t0 = now(); nQueries++;
    Z3_solver_push(zc, zs);
    for (auto e : sl) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, toZ(e), z1));
    Z3_lbool r = Z3_solver_check(zc, zs);
    QR n; n.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (n.r == 1) { Z3_model zm = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, zm);
      for (size_t i = v._Find_first(); i < MAXV; i = v._Find_next(i)) { Z3_ast o; E *ve = mk(VAR, 8, i);
        if (Z3_model_eval(zc, zm, toZ(ve), true, &o)) { uint64_t x = 0; Z3_get_numeral_uint64(zc, o, &x); n.m.push_back({(int)i, (uint8_t)x}); } }
      Z3_model_dec_ref(zc, zm); }
    if (n.r == 1) { Model rm; for (auto &p : n.m) { if (rm.size() <= (size_t)p.first) rm.resize(p.first + 1, 0); rm[p.first] = p.second; } if (ring.size() < 24) ring.push_back(rm); else ring[ringPos++ % 24] = rm; }
    if (n.r == -1) nUnknown++;
    Z3_solver_pop(zc, zs, 1);
    solverTime += now() - t0;
    q = &qcache.emplace(key, move(n)).first->second;
  }
  if (q->r == 1 && m) for (auto &p : q->m) { if (m->size() <= (size_t)p.first) m->resize(p.first + 1, 0); (*m)[p.first] = p.second; }
  return q->r;
}

// ------------------------------------------------------------------ bytecode
enum IOp : uint8_t { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_CMP, I_SELECT, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_CAST, I_MOV, I_UNREACH,
  I_RMW, I_CMPXCHG, I_FENCE, I_FBIN, I_FCMP, I_FCAST, I_LPAD, I_RESUME, I_UNSUP };
struct Opd { int reg; u64 c; };
struct Fn; 
struct Inst { IOp op; uint8_t w = 0, w2 = 0, sub = 0; bool flag = false; int dst = -1; vector<Opd> o; vector<int> t; vector<u64> cv; vector<int> widths, offs; Fn *fn = nullptr; int line = 0; int file = 0; string *txt = nullptr; vector<u64> byval; int unwind = -1; };
struct PhiMove { vector<int> dst; vector<Opd> src; };
struct BB { vector<Inst> in; map<int, PhiMove> phis; bool covered = false; };
struct Fn { string name; vector<BB> bb; int nregs = 0; vector<int> argRegs; int nargs = 0; bool vararg = false; bool decl = true; int builtin = -1; u64 addr = 0; vector<int> retW; bool executed = false; string file; int idx = 0; };
static vector<Fn *> fns; static unordered_map<string, Fn *> fnByName;
static vector<string> files; static unordered_map<string, int> fileIdx;
static const u64 FBASE = 0x7f0000000000ull;
static const u64 OBASE = 0x10000000ull;
static inline u64 objAddr(u64 id) { return ((id + 16) << 32) + OBASE; }
struct Obj { u64 size; vector<uint8_t> d; vector<E *> *s = nullptr; vector<bool> init; bool allInit = true; bool freed = false, ro = false; uint8_t kind = 0; int site = 0, siteFile = 0; const string *name = nullptr;
  u64 lastAcc = 0; 
  Obj() {} Obj(const Obj &o) : size(o.size), d(o.d), s(o.s ? new vector<E *>(*o.s) : nullptr), init(o.init), allInit(o.allInit), freed(o.freed), ro(o.ro), kind(o.kind), site(o.site), siteFile(o.siteFile), name(o.name) {}
  ~Obj() { delete s; } };
enum { K_GLOBAL, K_STACK, K_HEAP };
typedef shared_ptr<Obj> ObjP;
struct V { E *e; u64 c; };
struct Frame { Fn *f; int bb, pc; vector<V> regs; vector<int> allocas; int retReg; vector<V> va; vector<int> vaW; };
struct Thread { vector<Frame> st; bool done = false; int waiting = 0; };
struct SymIn { string name; vector<int> vars; };
struct State { u64 exc = 0, excType = 0; vector<Thread> th; int cur = 0; vector<ObjP> mem; vector<E *> cons; Model m; vector<SymIn> syms; u64 icount = 0; int enums = 0; int forks = 0; i64 heapLive = 0; vector<uint8_t> sched; int preempts = 0; vector<string> trail; };
static int nVars = 0; static vector<pair<string,int>> varNames;
static u64 maxInstr = 3000000; static double maxTime = 600; static int maxEnum = 600;
static u64 paths = 0, pathsOk = 0, pathsErr = 0, pathsAssume = 0, instrs = 0, forksN = 0; 
struct Err { string kind, msg, where, stack; vector<SymIn> syms; Model m; vector<string> trail; vector<uint8_t> sched; };
static map<string, Err> errs; static map<string, u64> reached; static map<string, u64> incompl; static set<string> extMissing;
static vector<State *> work;
struct Sample { vector<SymIn> syms; Model m; vector<uint8_t> sched; };
static vector<Sample> samples; static u64 sampleSeen = 0; static u64 rngs = 88172645463325252ull;
static u64 rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
static void takeSample(State *s) { sampleSeen++; Sample x{s->syms, s->m, s->sched}; if (samples.size() < 8) samples.push_back(x); else { u64 k = rnd() % sampleSeen; if (k < 8) samples[k] = x; } }

// ------------------------------------------------------------------ loader
static LLVMTargetDataRef TD; static LLVMModuleRef M;
static unordered_map<LLVMValueRef, u64> gAddr; static vector<pair<LLVMValueRef, int>> globals; static vector<ObjP> initMem;
static bool isScal(LLVMTypeRef t) { auto k = LLVMGetTypeKind(t); return k == LLVMIntegerTypeKind || k == LLVMPointerTypeKind || k == LLVMDoubleTypeKind || k == LLVMFloatTypeKind || k == LLVMX86_FP80TypeKind; }
static int tw(LLVMTypeRef t) { switch (LLVMGetTypeKind(t)) { case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMDoubleTypeKind: return 64; case LLVMFloatTypeKind: return 32; default: return 0; } }
static void flat(LLVMTypeRef t, u64 off, vector<int> &w, vector<int> &o) {
  auto k = LLVMGetTypeKind(t);
  if (k == LLVMVoidTypeKind) return;
  if (k == LLVMStructTypeKind) { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), w, o); return; }
  if (k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) { unsigned n = k == LLVMArrayTypeKind ? LLVMGetArrayLength(t) : LLVMGetVectorSize(t); LLVMTypeRef et = LLVMGetElementType(t); u64 es = LLVMABISizeOfType(TD, et); for (unsigned i = 0; i < n; i++) flat(et, off + i * es, w, o); return; }
  w.push_back(tw(t)); o.push_back((int)off);
}
static u64 cval(LLVMValueRef v);
static i64 gepOff(LLVMValueRef v, vector<pair<LLVMValueRef, u64>> *dyn) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(v); i64 off = 0; unsigned n = LLVMGetNumOperands(v);
  for (unsigned i = 1; i < n; i++) {
    LLVMValueRef ix = LLVMGetOperand(v, i);
    if (i == 1) { u64 sz = LLVMABISizeOfType(TD, t); if (LLVMIsAConstantInt(ix)) off += LLVMConstIntGetSExtValue(ix) * (i64)sz; else dyn->push_back({ix, sz}); continue; }
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { unsigned f = (unsigned)LLVMConstIntGetZExtValue(ix); off += LLVMOffsetOfElement(TD, t, f); t = LLVMStructGetTypeAtIndex(t, f); }
    else { t = LLVMGetElementType(t); u64 sz = LLVMABISizeOfType(TD, t); if (LLVMIsAConstantInt(ix)) off += LLVMConstIntGetSExtValue(ix) * (i64)sz; else dyn->push_back({ix, sz}); }
  }
  return off;
}
static u64 cval(LLVMValueRef v) {
  if (LLVMIsAConstantInt(v)) { if (LLVMGetIntTypeWidth(LLVMTypeOf(v)) > 64) return 0; return LLVMConstIntGetZExtValue(v); }
  if (LLVMIsAConstantPointerNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return 0;
  if (LLVMIsAConstantFP(v)) { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); if (LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMFloatTypeKind) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
  auto it = gAddr.find(v); if (it != gAddr.end()) return it->second;
  if (LLVMIsAGlobalAlias(v)) return cval(LLVMAliasGetAliasee(v));
  if (LLVMIsAConstantExpr(v)) {
    switch (LLVMGetConstOpcode(v)) {
    case LLVMGetElementPtr: { vector<pair<LLVMValueRef, u64>> dyn; return cval(LLVMGetOperand(v, 0)) + gepOff(v, &dyn); }
    case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMZExt: return cval(LLVMGetOperand(v, 0));
    case LLVMTrunc: return cval(LLVMGetOperand(v, 0)) & maskw(tw(LLVMTypeOf(v)));
    case LLVMAdd: return cval(LLVMGetOperand(v, 0)) + cval(LLVMGetOperand(v, 1));
    case LLVMSub: return cval(LLVMGetOperand(v, 0)) - cval(LLVMGetOperand(v, 1));
    default: break;
    }
  }
  return 0;
}
static void initBytes(LLVMValueRef v, uint8_t *p) {
  LLVMTypeRef t = LLVMTypeOf(v); u64 sz = LLVMABISizeOfType(TD, t);
  if (LLVMIsUndef(v) || LLVMIsNull(v)) { memset(p, 0, sz); return; }
  auto k = LLVMGetTypeKind(t);
  if (k == LLVMStructTypeKind) { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) initBytes(LLVMGetAggregateElement(v, i), p + LLVMOffsetOfElement(TD, t, i)); return; }
  if (k == LLVMArrayTypeKind) { unsigned n = LLVMGetArrayLength(t); u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t));
    if (LLVMIsConstantString(v)) { size_t l; const char *s = LLVMGetAsString(v, &l); memcpy(p, s, min<size_t>(l, sz)); return; }
    for (unsigned i = 0; i < n; i++) initBytes(LLVMGetAggregateElement(v, i), p + i * es); return; }
  if (isScal(t)) { u64 x = cval(v); memcpy(p, &x, min<u64>(sz, 8)); return; }
}
static ObjP newObj(u64 size, int kind, bool init) { ObjP o = make_shared<Obj>(); o->size = size; o->d.assign(size, 0); o->allInit = init; if (!init) o->init.assign(size, false); o->kind = kind; return o; }
struct Loader {
  Fn *f; unordered_map<LLVMValueRef, int> reg; unordered_map<LLVMBasicBlockRef, int> bbi;
  int slots(LLVMTypeRef t) { vector<int> w, o; flat(t, 0, w, o); return (int)w.size(); }
  void opnd(LLVMValueRef v, vector<Opd> &out) {
    int n = slots(LLVMTypeOf(v)); auto it = reg.find(v);
    if (it != reg.end()) { for (int i = 0; i < n; i++) out.push_back({it->second + i, 0}); return; }
    if (isScal(LLVMTypeOf(v))) { out.push_back({-1, cval(v)}); return; }
    // aggregate constant
    vector<int> w, o; flat(LLVMTypeOf(v), 0, w, o); vector<uint8_t> b(LLVMABISizeOfType(TD, LLVMTypeOf(v)) + 8, 0); initBytes(v, b.data());
    for (size_t i = 0; i < w.size(); i++) { u64 x; memcpy(&x, &b[o[i]], 8); out.push_back({-1, x & maskw(w[i])}); }
  }
  Opd op1(LLVMValueRef v) { vector<Opd> x; opnd(v, x); if (x.empty()) return {-1, 0}; return x[0]; }
  int aggIndex(LLVMTypeRef t, const unsigned *ix, unsigned n, LLVMTypeRef *outT) {
    int s = 0; for (unsigned i = 0; i < n; i++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[i]; j++) s += slots(LLVMStructGetTypeAtIndex(t, j)); t = LLVMStructGetTypeAtIndex(t, ix[i]); } else { LLVMTypeRef et = LLVMGetElementType(t); s += slots(et) * ix[i]; t = et; } } *outT = t; return s; }
  void load(LLVMValueRef fv) {
    int b = 0; int r = 0;
    for (LLVMValueRef a = LLVMGetFirstParam(fv); a; a = LLVMGetNextParam(a)) { reg[a] = r; f->argRegs.push_back(r); r += max(1, slots(LLVMTypeOf(a))); f->nargs++; }
    for (LLVMBasicBlockRef bb = LLVMGetFirstBasicBlock(fv); bb; bb = LLVMGetNextBasicBlock(bb)) { bbi[bb] = b++;
      for (LLVMValueRef i = LLVMGetFirstInstruction(bb); i; i = LLVMGetNextInstruction(i)) { int n = slots(LLVMTypeOf(i)); if (n) { reg[i] = r; r += n; } } }
    f->nregs = r; f->bb.resize(b); b = 0;
    { vector<int> o; LLVMTypeRef rt = LLVMGetReturnType(LLVMGlobalGetValueType(fv)); flat(rt, 0, f->retW, o); }
    for (LLVMBasicBlockRef bb = LLVMGetFirstBasicBlock(fv); bb; bb = LLVMGetNextBasicBlock(bb), b++)
      for (LLVMValueRef i = LLVMGetFirstInstruction(bb); i; i = LLVMGetNextInstruction(i)) inst(i, f->bb[b], b);
  }
  void inst(LLVMValueRef i, BB &bb, int bi) {
    Inst x; x.op = I_UNSUP; LLVMOpcode oc = LLVMGetInstructionOpcode(i); LLVMTypeRef ty = LLVMTypeOf(i);
    x.line = (int)LLVMGetDebugLocLine(i); unsigned fl = 0; const char *fnm = x.line ? LLVMGetDebugLocFilename(i, &fl) : nullptr;
    if (fnm) { string s(fnm, fl); size_t p = s.find("/repo/"); if (p == 0) s = s.substr(6); auto it = fileIdx.find(s); if (it == fileIdx.end()) { it = fileIdx.emplace(s, (int)files.size()).first; files.push_back(s); } x.file = it->second; if (f->file.empty()) f->file = s; }
    auto rit = reg.find(i); if (rit != reg.end()) x.dst = rit->second;
    vector<int> offs; if (LLVMGetTypeKind(ty) != LLVMVoidTypeKind) { flat(ty, 0, x.widths, offs); x.w = x.widths.empty() ? 0 : x.widths[0]; }
    bool big = false; for (int w : x.widths) if (w > 64 || w == 0) big = true;
    auto bin = [&](Op o, bool isf = false) { x.op = I_BIN; x.sub = o; x.o = {op1(LLVMGetOperand(i, 0)), op1(LLVMGetOperand(i, 1))}; };
    auto cast = [&](int k) { x.op = I_CAST; x.sub = k; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); x.o = {op1(LLVMGetOperand(i, 0))}; };
    switch (oc) {
    case LLVMAlloca: { x.op = I_ALLOCA; u64 es = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); x.cv = {es}; x.o = {op1(LLVMGetOperand(i, 0))}; break; }
    case LLVMLoad: x.op = I_LOAD; x.o = {op1(LLVMGetOperand(i, 0))}; x.offs = offs; x.flag = LLVMGetVolatile(i); break;
    case LLVMStore: { x.op = I_STORE; LLVMValueRef v = LLVMGetOperand(i, 0); opnd(v, x.o); flat(LLVMTypeOf(v), 0, x.widths, x.offs); x.o.push_back(op1(LLVMGetOperand(i, 1))); break; }
    case LLVMGetElementPtr: { vector<pair<LLVMValueRef, u64>> dyn; i64 off = gepOff(i, &dyn); x.op = I_GEP; x.o = {op1(LLVMGetOperand(i, 0))}; x.cv = {(u64)off};
        for (auto &d : dyn) { x.o.push_back(op1(d.first)); x.cv.push_back(d.second); x.t.push_back(tw(LLVMTypeOf(d.first))); } break; }
    case LLVMAdd: bin(ADD); break; case LLVMSub: bin(SUB); break; case LLVMMul: bin(MUL); break; case LLVMUDiv: bin(UDIV); break; case LLVMSDiv: bin(SDIV); break;
    case LLVMURem: bin(UREM); break; case LLVMSRem: bin(SREM); break; case LLVMAnd: bin(AND); break; case LLVMOr: bin(OR); break; case LLVMXor: bin(XOR); break;
    case LLVMShl: bin(SHL); break; case LLVMLShr: bin(LSHR); break; case LLVMAShr: bin(ASHR); break;
    case LLVMICmp: { x.op = I_CMP; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); x.o = {op1(LLVMGetOperand(i, 0)), op1(LLVMGetOperand(i, 1))}; x.sub = LLVMGetICmpPredicate(i); break; }
    case LLVMSelect: { x.op = I_SELECT; x.o = {op1(LLVMGetOperand(i, 0))}; opnd(LLVMGetOperand(i, 1), x.o); opnd(LLVMGetOperand(i, 2), x.o); break; }
    case LLVMPHI: { unsigned n = LLVMCountIncoming(i); for (unsigned j = 0; j < n; j++) { auto &pm = bb.phis[bbi[LLVMGetIncomingBlock(i, j)]]; vector<Opd> src; opnd(LLVMGetIncomingValue(i, j), src);
          for (size_t q = 0; q < src.size(); q++) { pm.dst.push_back(x.dst + (int)q); pm.src.push_back(src[q]); } 
          } return; }
    case LLVMBr: if (LLVMIsConditional(i)) { x.op = I_CBR; x.o = {op1(LLVMGetCondition(i))}; x.t = {bbi[LLVMGetSuccessor(i, 0)], bbi[LLVMGetSuccessor(i, 1)]}; } else { x.op = I_BR; x.t = {bbi[LLVMGetSuccessor(i, 0)]}; } break;
    case LLVMSwitch: { x.op = I_SWITCH; LLVMValueRef c = LLVMGetOperand(i, 0); x.w2 = tw(LLVMTypeOf(c)); x.o = {op1(c)}; unsigned n = LLVMGetNumOperands(i); x.t = {bbi[LLVMGetSwitchDefaultDest(i)]};
        for (unsigned j = 2; j + 1 < n + 0 || j + 1 == n; j += 2) { if (j + 1 >= n) break; x.cv.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, j))); x.t.push_back(bbi[LLVMValueAsBasicBlock(LLVMGetOperand(i, j + 1))]); } break; }
    case LLVMInvoke: case LLVMCall: { x.op = I_CALL; if (oc == LLVMInvoke) x.unwind = bbi[LLVMGetUnwindDest(i)]; LLVMValueRef cv = LLVMGetCalledValue(i); unsigned n = LLVMGetNumArgOperands(i); 
        if (LLVMIsAInlineAsm(cv)) { x.op = I_UNSUP; x.txt = new string("inline asm"); break; }
        LLVMValueRef cf = cv; while (LLVMIsAGlobalAlias(cf)) cf = LLVMAliasGetAliasee(cf);
        if (LLVMIsAFunction(cf)) { size_t l; string nm(LLVMGetValueName2(cf, &l)); x.fn = fnByName[nm]; auto v = fnByName.find("vf_" + nm); if (v != fnByName.end() && !v->second->decl) x.fn = v->second; }
        x.o.push_back(x.fn ? Opd{-1, 0} : op1(cv));
        unsigned bk = LLVMGetEnumAttributeKindForName("byval", 5);
        for (unsigned j = 0; j < n; j++) { LLVMValueRef a = LLVMGetOperand(i, j); u64 bv = 0;
          LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, j + 1, bk); if (at) bv = LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at));
          vector<Opd> s; if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) continue; opnd(a, s); vector<int> ws, os; flat(LLVMTypeOf(a), 0, ws, os);
          for (size_t q = 0; q < s.size(); q++) { x.o.push_back(s[q]); x.t.push_back(ws[q]); x.byval.push_back(bv); } } break; }
    case LLVMLandingPad: { x.op = I_LPAD; x.flag = LLVMIsCleanup(i); unsigned n = LLVMGetNumClauses(i); for (unsigned j = 0; j < n; j++) { LLVMValueRef c = LLVMGetClause(i, j); if (LLVMGetTypeKind(LLVMTypeOf(c)) == LLVMArrayTypeKind) { x.t.push_back(1); x.cv.push_back(0); } else { x.t.push_back(0); x.cv.push_back(cval(c)); } } break; }
    case LLVMResume: x.op = I_RESUME; break;
    case LLVMRet: x.op = I_RET; if (LLVMGetNumOperands(i)) opnd(LLVMGetOperand(i, 0), x.o); break;
    case LLVMTrunc: cast(0); break; case LLVMZExt: cast(1); break; case LLVMSExt: cast(2); break;
    case LLVMPtrToInt: case LLVMIntToPtr: { int sw = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); cast(x.w < sw ? 0 : 1); break; }
    case LLVMBitCast: case LLVMFreeze: case LLVMAddrSpaceCast: x.op = I_MOV; opnd(LLVMGetOperand(i, 0), x.o); break;
    case LLVMExtractValue: { LLVMValueRef a = LLVMGetOperand(i, 0); LLVMTypeRef ot; int s = aggIndex(LLVMTypeOf(a), LLVMGetIndices(i), LLVMGetNumIndices(i), &ot); vector<Opd> v; opnd(a, v); int n = slots(ot); x.op = I_MOV; x.o.assign(v.begin() + s, v.begin() + s + n); break; }
    case LLVMInsertValue: { LLVMValueRef a = LLVMGetOperand(i, 0); LLVMTypeRef ot; int s = aggIndex(LLVMTypeOf(a), LLVMGetIndices(i), LLVMGetNumIndices(i), &ot); vector<Opd> v, e; opnd(a, v); opnd(LLVMGetOperand(i, 1), e); for (size_t q = 0; q < e.size(); q++) v[s + q] = e[q]; x.op = I_MOV; x.o = v; break; }
    case LLVMUnreachable: x.op = I_UNREACH; break;
    case LLVMAtomicRMW: x.op = I_RMW; x.sub = LLVMGetAtomicRMWBinOp(i); x.o = {op1(LLVMGetOperand(i, 0)), op1(LLVMGetOperand(i, 1))}; break;
    case LLVMAtomicCmpXchg: x.op = I_CMPXCHG; x.o = {op1(LLVMGetOperand(i, 0)), op1(LLVMGetOperand(i, 1)), op1(LLVMGetOperand(i, 2))}; break;
    case LLVMFence: x.op = I_FENCE; break;
    case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: x.op = I_FBIN; x.sub = oc; x.o = {op1(LLVMGetOperand(i, 0)), op1(LLVMGetOperand(i, 1))}; break;
    case LLVMFCmp: x.op = I_FCMP; x.sub = LLVMGetFCmpPredicate(i); x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); x.o = {op1(LLVMGetOperand(i, 0)), op1(LLVMGetOperand(i, 1))}; break;
    case LLVMSIToFP: case LLVMUIToFP: case LLVMFPToSI: case LLVMFPToUI: case LLVMFPExt: case LLVMFPTrunc: x.op = I_FCAST; x.sub = oc; x.w2 = tw(LLVMTypeOf(LLVMGetOperand(i, 0))); x.o = {op1(LLVMGetOperand(i, 0))}; break;
    default: break;
    }
    if (x.op == I_UNSUP || (big && x.op != I_CALL)) { x.op = I_UNSUP; char *s = LLVMPrintValueToString(i); if (!x.txt) x.txt = new string(s); LLVMDisposeMessage(s); }
    bool inv = oc == LLVMInvoke; int line = x.line, file = x.file; bb.in.push_back(move(x));
    if (inv) { Inst b; b.op = I_BR; b.line = line; b.file = file; b.t = {bbi[LLVMGetNormalDest(i)]}; bb.in.push_back(move(b)); }
  }
};
static const char *builtinNames[] = {"malloc", "free", "calloc", "realloc", "sym_make", "sym_assume", "sym_assert", "sym_reach", "exit", "abort", "_exit", "__assert_fail", "memcpy", "memmove", "memset",
  "sym_heap_live", "sym_thread", "sym_yield", "sym_block", "sym_concrete", "sym_is_symbolic", "sym_readable", "sym_trail", "sym_self", "sym_fork", "sym_wake", "sym_objsize", "sym_stop", "sym_throw", "_setjmp", "longjmp", nullptr};
enum { B_MALLOC, B_FREE, B_CALLOC, B_REALLOC, B_MAKE, B_ASSUME, B_ASSERT, B_REACH, B_EXIT, B_ABORT, B__EXIT, B_ASSERTFAIL, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_HEAPLIVE, B_THREAD, B_YIELD, B_BLOCK, B_CONCRETE, B_ISSYM, B_READABLE, B_TRAIL, B_SELF, B_FORK, B_JOINALL, B_OBJSIZE, B_STOP, B_THROW, B_SETJMP, B_LONGJMP };
static void loadModule(const char *path) {
  LLVMMemoryBufferRef mb; char *er = nullptr; if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &er)) die(er ? er : "read");
  if (LLVMParseBitcode2(mb, &M)) die("cannot parse bitcode");
  TD = LLVMGetModuleDataLayout(M);
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) { size_t l; string n(LLVMGetValueName2(f, &l)); Fn *x = new Fn; x->name = n; x->decl = LLVMIsDeclaration(f); x->idx = (int)fns.size(); x->addr = FBASE + 16 * x->idx; x->vararg = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f)); fns.push_back(x); fnByName[n] = x; 
    for (int i = 0; builtinNames[i]; i++) if (n == builtinNames[i]) x->builtin = i; }
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) { size_t l; string n(LLVMGetValueName2(f, &l)); Fn *x = fnByName[n]; auto v = fnByName.find("vf_" + n); if (v != fnByName.end() && !v->second->decl) x = v->second; gAddr[f] = x->addr; }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { u64 sz = LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g)); ObjP o = newObj(sz, K_GLOBAL, true); size_t l; o->name = new string(LLVMGetValueName2(g, &l)); o->ro = LLVMIsGlobalConstant(g); gAddr[g] = objAddr(initMem.size()); globals.push_back({g, (int)initMem.size()}); initMem.push_back(o); }
  for (auto &p : globals) { LLVMValueRef in = LLVMGetInitializer(p.first); if (in) initBytes(in, initMem[p.second]->d.data()); }
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) if (!LLVMIsDeclaration(f)) { size_t l; Fn *x = fnByName[LLVMGetValueName2(f, &l)]; Loader L; L.f = x; L.load(f); }
}

// ------------------------------------------------------------------ interpreter
struct PathEnd {}; // thrown when the current state terminates
static State *S; static Frame *F; static const Inst *CI;
static string where(const Inst *i) { if (!i || !i->line) return "?"; return files[i->file] + ":" + to_string(i->line); }
static string stackStr(State *s) { string r; auto &st = s->th[s->cur].st; for (int k = (int)st.size() - 1; k >= 0 && k >= (int)st.size() - 14; k--) { auto &fr = st[k]; const Inst *i = nullptr; auto &v = fr.f->bb[fr.bb].in; int pc = min<int>(fr.pc, (int)v.size() - 1); if (k != (int)st.size() - 1 && pc > 0) pc--; if (pc >= 0 && pc < (int)v.size()) i = &v[pc]; if (!r.empty()) r += " < "; r += fr.f->name + "@" + where(i); } return r; }
static void report(const string &kind, const string &msg, const Model *m = nullptr, bool atHarness = false) {
  string w = where(CI); string key = kind + "|" + (kind == "assert" ? msg : F->f->name + "|" + w);
  if (errs.count(key)) return; Err e; e.kind = kind; e.msg = msg; e.where = w; e.stack = stackStr(S); e.syms = S->syms; e.m = m ? *m : S->m; e.trail = S->trail; e.sched = S->sched; errs[key] = e;
}
[[noreturn]] static void endErr(const string &k, const string &m) { report(k, m); pathsErr++; throw PathEnd(); }
static State *clone(State *s) { State *n = new State(*s); forksN++; return n; }
static V val(const Opd &o) { if (o.reg >= 0) return F->regs[o.reg]; return V{nullptr, o.c}; }
static inline E *ex(const V &v, int w) { return v.e ? v.e : C(v.c, w); }
static inline V mkv(E *e) { if (isC(e)) return V{nullptr, e->c}; return V{e, 0}; }
static void addCons(State *s, E *c) { if (isC(c)) return; if (c->op == AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; } for (auto e : s->cons) if (e == c) return; s->cons.push_back(c); }
static void incomplete(const string &r) { incompl[r]++; }
// decide a 1-bit condition; forks when both are feasible. returns the side this state takes.
// (the other state re-executes the current instruction and is forced to the other side by its constraints)
static bool decide(E *c) {
  if (isC(c)) return c->c;
  bool cur = eval(c, S->m); E *mine = cur ? c : eNot(c), *other = cur ? eNot(c) : c;
  Model m2 = S->m; int r = solve(S->cons, other, &m2);
  if (r == 1) { State *n = clone(S); n->m = m2; addCons(n, other); work.push_back(n); addCons(S, mine); }
  else if (r < 0) { incomplete("solver unknown at " + where(CI)); addCons(S, mine); }
  return cur;
}
static u64 concretize(V v, int w) {
  if (!v.e) return v.c; if (isC(v.e)) return v.e->c;
  u64 x = eval(v.e, S->m); E *eq = eEq(v.e, C(x, w)); if (isC(eq)) return x;
  Model m2 = S->m; int r = solve(S->cons, eNot(eq), &m2);
  if (r == 1) { if (S->enums > maxEnum) { incomplete("value enumeration cut at " + where(CI)); }
    else { State *n = clone(S); n->m = m2; n->enums++; addCons(n, eNot(eq)); work.push_back(n); } addCons(S, eq); }
  else if (r < 0) { incomplete("solver unknown at " + where(CI)); addCons(S, eq); }
  return x;
}
static E *newVar(const string &n) { if (nVars >= MAXV) { static bool once; if (!once && getenv("VF_DBG")) { once = true; map<string,int> c; for (auto &p : varNames) c[p.first]++; for (auto &p : c) fprintf(stderr, "%s %d\n", p.first.c_str(), p.second); fprintf(stderr, "at %s\n", CI ? where(CI).c_str() : "?"); } incomplete("too many symbolic bytes"); return C(0, 8); } E *e = mk(VAR, 8, nVars); varNames.push_back({n, nVars}); nVars++; return e; }
static Obj *wr(u64 id) { ObjP &o = S->mem[id]; if (o.use_count() > 1) o = make_shared<Obj>(*o); return o.get(); }
static string ptrDesc(u64 a) { char b[128]; u64 id = (a >> 32) - 16; if (a < 0x1000) snprintf(b, 128, "null/low address 0x%llx", (unsigned long long)a); else if (id < S->mem.size()) { Obj *o = S->mem[id].get(); snprintf(b, 128, "offset %lld of a %llu-byte %s object%s", (long long)((i64)(a & 0xffffffff) - (i64)OBASE), (unsigned long long)o->size, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global", o->freed ? " (freed)" : ""); } else snprintf(b, 128, "wild address 0x%llx", (unsigned long long)a); return b; }
static bool inBounds(u64 a, u64 n, u64 &id, u64 &off, bool write) {
  id = (a >> 32) - 16; if ((a >> 32) < 16 || id >= S->mem.size()) return false; off = (a & 0xffffffff) - OBASE; Obj *o = S->mem[id].get(); if (o->freed) return false; if ((a & 0xffffffff) < OBASE) return false; if (off + n > o->size) return false; if (write && o->ro) return false; return true; }
// resolve address to a concrete in-bounds location, reporting out-of-bounds possibilities
static void resolve(V av, u64 n, bool write, u64 &id, u64 &off) {
  u64 a;
  if (av.e && !isC(av.e)) {
    // is there any feasible out of bounds value with respect to the object picked by the model?
    a = eval(av.e, S->m);
    if (inBounds(a, n, id, off, write)) { u64 base = objAddr(id); E *in = eBin(ULE, eBin(SUB, av.e, C(base, 64)), C(S->mem[id]->size - n, 64)); 
      if (!isC(in)) { Model m2 = S->m; int r = solve(S->cons, eNot(in), &m2); if (r == 1) { State *nst = clone(S); nst->m = m2; addCons(nst, eNot(in)); work.push_back(nst); addCons(S, in); } else if (r < 0) { incomplete("solver unknown at " + where(CI)); addCons(S, in);} } }
    else { // model value is out of bounds: report, then go on with other values if any
      report("memory", string(write ? "write" : "read") + " of " + to_string(n) + " byte(s) at " + ptrDesc(a)); 
      u64 x = a; E *eq = eEq(av.e, C(x, 64)); Model m2 = S->m; // try to find an in-bounds value in the same object
      u64 oid = (a >> 32) - 16; if ((a >> 32) >= 16 && oid < S->mem.size() && !S->mem[oid]->freed && S->mem[oid]->size >= n) { E *in = eBin(ULE, eBin(SUB, av.e, C(objAddr(oid), 64)), C(S->mem[oid]->size - n, 64)); if (solve(S->cons, in, &m2) == 1) { State *nst = clone(S); nst->m = m2; addCons(nst, in); work.push_back(nst); } else incomplete("out-of-bounds symbolic address at " + where(CI)); }
      (void)eq; pathsErr++; throw PathEnd(); }
    a = concretize(av, 64);
  } else a = av.e ? av.e->c : av.c;
  if (!inBounds(a, n, id, off, write)) { u64 i2 = (a >> 32) - 16; bool fr = (a >> 32) >= 16 && i2 < S->mem.size() && S->mem[i2]->freed; endErr("memory", string(fr ? "use after free: " : "") + (write ? "write" : "read") + " of " + to_string(n) + " byte(s) at " + ptrDesc(a)); }
}
static E *uninitVar(u64 id, u64 off) { static map<pair<u64, u64>, E *> p; E *&e = p[{id, off}]; if (!e) e = newVar("uninit"); return e; }
static E *byteOf(u64 id, u64 off) {
  Obj *o = S->mem[id].get(); if (o->s && (*o->s)[off]) return (*o->s)[off];
  if (!o->allInit && !o->init[off]) { Obj *w = wr(id); E *v = uninitVar(id, off); if (!w->s) w->s = new vector<E *>(w->size, nullptr); (*w->s)[off] = isC(v) ? nullptr : v; w->init[off] = true; return v; }
  return C(o->d[off], 8);
}
static V loadAt(u64 id, u64 off, int w) {
  int n = (w + 7) / 8; Obj *o = S->mem[id].get();
  bool conc = true; if (o->s) for (int i = 0; i < n; i++) if ((*o->s)[off + i]) { conc = false; break; }
  if (conc && !o->allInit) for (int i = 0; i < n; i++) if (!o->init[off + i]) { conc = false; break; }
  if (conc) { u64 x = 0; memcpy(&x, &o->d[off], n); return V{nullptr, x & maskw(w)}; }
  E *e = byteOf(id, off); for (int i = 1; i < n; i++) e = eConcat(byteOf(id, off + i), e);
  if (e->w > w) e = eExtract(e, 0, w); return mkv(e);
}
static void setByte(Obj *o, u64 off, E *e, u64 c) {
  if (!o->allInit) o->init[off] = true;
  if (e && !isC(e)) { if (!o->s) o->s = new vector<E *>(o->size, nullptr); (*o->s)[off] = e; } else { if (e) c = e->c; o->d[off] = (uint8_t)c; if (o->s) (*o->s)[off] = nullptr; } }
static void storeAt(u64 id, u64 off, V v, int w) {
  Obj *o = wr(id); int n = (w + 7) / 8;
  if (!v.e) { for (int i = 0; i < n; i++) setByte(o, off + i, nullptr, v.c >> (8 * i)); return; }
  E *e = v.e; if (e->w < n * 8) e = eZext(e, n * 8);
  for (int i = 0; i < n; i++) setByte(o, off + i, eExtract(e, 8 * i, 8), 0);
}
// symbolic read from a small object without forking (table lookup)
static bool tableLoad(V av, int w, V &out) {
  if (!av.e || isC(av.e) || w != 8) return false; u64 a = eval(av.e, S->m), id, off; if (!inBounds(a, 1, id, off, false)) return false; Obj *o = S->mem[id].get(); if (o->size > 1024) return false; if (!o->allInit) for (u64 i = 0; i < o->size; i++) if (!o->init[i]) return false;
  E *d = eBin(SUB, av.e, C(objAddr(id), 64)); E *in = eBin(ULT, d, C(o->size, 64)); if (!isC(in)) { Model m2 = S->m; int r = solve(S->cons, eNot(in), &m2); if (r != 0) return false; }
  int bits = 1; while ((1ull << bits) < o->size) bits++;
  E *ix = eExtract(d, 0, bits); vector<E *> lv; for (u64 i = 0; i < (1ull << bits); i++) lv.push_back(i < o->size ? byteOf(id, i) : C(0, 8));
  for (int b = 0; b < bits; b++) { E *c = eExtract(ix, b, 1); vector<E *> nx; for (size_t i = 0; i < lv.size(); i += 2) nx.push_back(eIte(c, lv[i + 1], lv[i])); lv = nx; }
  out = mkv(lv[0]); return true;
}
static u64 allocObj(u64 sz, int kind, bool init) { ObjP o = newObj(sz, kind, init); if (CI) { o->site = CI->line; o->siteFile = CI->file; } S->mem.push_back(o); return objAddr(S->mem.size() - 1); }
static void copyBytes(V dv, V sv, u64 n, bool mv) {
  if (!n) return; u64 did, doff, sid, soff; resolve(sv, n, false, sid, soff); resolve(dv, n, true, did, doff);
  if (!mv && did == sid && doff != soff && doff < soff + n && soff < doff + n) report("memory", "memcpy on overlapping ranges");
  vector<E *> es(n, nullptr); vector<uint8_t> cs(n); vector<bool> ini(n, true); Obj *s = S->mem[sid].get();
  for (u64 i = 0; i < n; i++) { if (!s->allInit && !s->init[soff + i]) ini[i] = false; if (s->s) es[i] = (*s->s)[soff + i]; cs[i] = s->d[soff + i]; }
  Obj *d = wr(did);
  for (u64 i = 0; i < n; i++) { if (!ini[i]) { if (d->allInit) { d->allInit = false; d->init.assign(d->size, true); } d->init[doff + i] = false; if (d->s) (*d->s)[doff + i] = nullptr; } else setByte(d, doff + i, es[i], cs[i]); }
}
static string readStr(V v) { string s; if (v.e) return "?"; u64 id, off; u64 a = v.c; while (inBounds(a, 1, id, off, false)) { Obj *o = S->mem[id].get(); if (o->s && (*o->s)[off]) { s += '?'; } else { if (!o->d[off]) break; s += (char)o->d[off]; } a++; if (s.size() > 200) break; } return s; }
static void gotoBB(int t) { BB &nb = F->f->bb[t]; nb.covered = true; if (!nb.phis.empty()) { auto it = nb.phis.find(F->bb); if (it != nb.phis.end()) { vector<V> tmp; for (auto &s : it->second.src) tmp.push_back(val(s)); for (size_t i = 0; i < tmp.size(); i++) F->regs[it->second.dst[i]] = tmp[i]; } } F->bb = t; F->pc = 0; }
static void pushFrame(Thread &t, Fn *f, int retReg) { Frame nf; nf.f = f; nf.bb = 0; nf.pc = 0; nf.regs.assign(f->nregs, V{nullptr, 0}); nf.retReg = retReg; f->executed = true; f->bb[0].covered = true; t.st.push_back(move(nf)); if (t.st.size() > 400) { F = &t.st.back(); endErr("recursion", "call depth exceeds 400 frames"); } }
static void freeFrame(Frame &fr) { for (int id : fr.allocas) { Obj *o = wr(id); o->freed = true; o->d.clear(); o->d.shrink_to_fit(); if (o->s) { delete o->s; o->s = nullptr; } o->init.clear(); } }
static u64 siVtable() { static u64 a = 0; if (!a) { for (auto &p : globals) { size_t l; if (string(LLVMGetValueName2(p.first, &l)) == "_ZTVN10__cxxabiv120__si_class_type_infoE") a = gAddr[p.first] + 16; } if (!a) a = 1; } return a; }
static bool catches(u64 thrown, u64 caught) { if (!caught) return true; for (int k = 0; k < 16 && thrown; k++) { if (thrown == caught) return true; u64 id, off; if (!inBounds(thrown, 24, id, off, false)) return false; if (loadAt(id, off, 64).c != siVtable()) return false; thrown = loadAt(id, off + 16, 64).c; } return false; }
// leave frames until one that wants the exception; its landing pad gets the object and a selector
static void unwind() {
  Thread &T = S->th[S->cur]; T.st.size();
  for (;;) { if (T.st.empty()) { F = nullptr; pathsErr++; throw PathEnd(); } F = &T.st.back(); auto &v = F->f->bb[F->bb].in; int pc = F->pc - 1;
    if (pc >= 0 && pc < (int)v.size() && v[pc].op == I_CALL && v[pc].unwind >= 0) { int t = v[pc].unwind; BB &nb = F->f->bb[t]; size_t q = 0; while (q < nb.in.size() && nb.in[q].op != I_LPAD) q++;
      if (q < nb.in.size()) { const Inst &lp = nb.in[q]; i64 sel = lp.flag ? 0 : -1000; for (size_t j = 0; j < lp.cv.size(); j++) if (lp.t[j]) { sel = -1; break; } else if (catches(S->excType, lp.cv[j])) { sel = (i64)(lp.cv[j] >> 32) + 1; break; }
        if (sel != -1000) { gotoBB(t); F->regs[lp.dst] = {nullptr, S->exc}; F->regs[lp.dst + 1] = {nullptr, (u64)sel & 0xffffffff}; return; } } }
    if (T.st.size() == 1) endErr("abort", "an exception is not caught");
    freeFrame(T.st.back()); T.st.pop_back(); }
}
static void setRet(V v) { if (CI->dst >= 0) F->regs[CI->dst] = v; }
static void doFree(V p, bool reallocing) {
  u64 a = concretize(p, 64); if (!a) return; u64 id = (a >> 32) - 16; if ((a >> 32) < 16 || id >= S->mem.size() || S->mem[id]->kind != K_HEAP || (a & 0xffffffff) != OBASE) endErr("memory", "free of a pointer that is not a live heap block: " + ptrDesc(a));
  if (S->mem[id]->freed) endErr("memory", "double free"); Obj *o = wr(id); o->freed = true; o->d.clear(); o->d.shrink_to_fit(); if (o->s) { delete o->s; o->s = nullptr; } o->init.clear(); S->heapLive--; }
static u64 heapNew(u64 n, bool zero) { if (n > (64ull << 20)) return 0; u64 a = allocObj(n, K_HEAP, zero); S->heapLive++; return a; }
static vector<int> runnable() { vector<int> r; for (size_t i = 0; i < S->th.size(); i++) if (!S->th[i].done && !S->th[i].waiting) r.push_back((int)i); return r; }
// choose which runnable thread goes on: one forked state per choice
static void schedule(bool mayStay) {
  vector<int> r = runnable(); if (r.empty()) { bool all = true; for (auto &t : S->th) if (!t.done) all = false; if (all) { pathsOk++; throw PathEnd(); } endErr("deadlock", "no thread can proceed"); }
  int first = -1; for (int k : r) if (k == S->cur) first = k; if (first < 0 || !mayStay) first = r[0] == S->cur && !mayStay && r.size() > 1 ? r[1] : (first < 0 ? r[0] : first);
  for (int k : r) if (k != first && (mayStay || k != S->cur)) { State *n = clone(S); n->cur = k; n->sched.push_back((uint8_t)k); if (mayStay) n->preempts++; work.push_back(n); }
  S->cur = first; S->sched.push_back((uint8_t)first);
}
static int maxPreempt = 1000;
static void builtin(int b, vector<V> &a) {
  switch (b) {
  case B_MALLOC: { u64 n = concretize(a[0], 64); setRet({nullptr, heapNew(n, false)}); return; }
  case B_CALLOC: { u64 n = concretize(a[0], 64), m = concretize(a[1], 64); setRet({nullptr, heapNew(n * m, true)}); return; }
  case B_FREE: doFree(a[0], false); return;
  case B_REALLOC: { u64 p = concretize(a[0], 64), n = concretize(a[1], 64); if (!p) { setRet({nullptr, heapNew(n, false)}); return; } u64 id = (p >> 32) - 16;
      if ((p >> 32) < 16 || id >= S->mem.size() || S->mem[id]->kind != K_HEAP || S->mem[id]->freed || (p & 0xffffffff) != OBASE) endErr("memory", "realloc of a pointer that is not a live heap block: " + ptrDesc(p));
      u64 q = heapNew(n, false); if (!q) { setRet({nullptr, 0}); return; } u64 c = min(n, S->mem[id]->size); copyBytes({nullptr, q}, {nullptr, p}, c, false); doFree({nullptr, p}, true); setRet({nullptr, q}); return; }
  case B_MAKE: { u64 n = concretize(a[1], 64); if (!n) return; u64 id, off; resolve(a[0], n, true, id, off); SymIn si; si.name = readStr(a[2]); 
      // variable identity is the position in the path's input sequence so that sibling paths share queries
      static unordered_map<string, vector<int>> pool; string key = to_string(S->syms.size()) + "/" + si.name + "/" + to_string(n); auto &pv = pool[key]; if (pv.empty()) for (u64 i = 0; i < n; i++) { E *e = newVar(si.name); pv.push_back(isC(e) ? 0 : (int)e->c); }
      Obj *o = wr(id); for (u64 i = 0; i < n; i++) { setByte(o, off + i, mk(VAR, 8, pv[i]), 0); si.vars.push_back(pv[i]); } S->syms.push_back(si); return; }
  case B_ASSUME: { E *c = ex(a[0], 32); E *nz = eNot(eEq(c, C(0, 32))); if (isC(nz)) { if (!nz->c) { pathsAssume++; throw PathEnd(); } return; }
      if (!eval(nz, S->m)) { Model m2 = S->m; int r = solve(S->cons, nz, &m2); if (r != 1) { if (r < 0) incomplete("solver unknown in assume"); pathsAssume++; throw PathEnd(); } S->m = m2; } addCons(S, nz); return; }
  case B_ASSERT: { E *c = ex(a[0], 32); E *z = eEq(c, C(0, 32)); string msg = readStr(a[1]); if (isC(z)) { if (z->c) endErr("assert", msg); return; }
      Model m2 = S->m; int r; if (eval(z, S->m)) r = 1; else r = solve(S->cons, z, &m2);
      if (r == 1) { report("assert", msg, &m2); Model m3 = S->m; E *nz = eNot(z); if (eval(nz, S->m)) addCons(S, nz); else { if (solve(S->cons, nz, &m3) == 1) { S->m = m3; addCons(S, nz); } else { pathsErr++; throw PathEnd(); } } }
      else { if (r < 0) incomplete("solver unknown in assert " + msg); addCons(S, eNot(z)); } return; }
  case B_REACH: reached[readStr(a[0])]++; return;
  case B_TRAIL: S->trail.push_back(readStr(a[0])); return;
  case B_EXIT: endErr("abort", "the process ends: exit() called");
  case B__EXIT: case B_STOP: pathsOk++; takeSample(S); throw PathEnd();
  case B_ABORT: endErr("abort", "abort() called");
  case B_ASSERTFAIL: endErr("abort", "assert() in the code failed: " + readStr(a[0]));
  case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(a[2], 64); if (n > (64u << 20)) endErr("memory", "memcpy of " + to_string(n) + " bytes"); copyBytes(a[0], a[1], n, b == B_MEMMOVE); setRet(a[0]); return; }
  case B_MEMSET: { u64 n = concretize(a[2], 64); if (n > (64u << 20)) endErr("memory", "memset of " + to_string(n) + " bytes"); if (n) { u64 id, off; resolve(a[0], n, true, id, off); Obj *o = wr(id); E *e = a[1].e ? eExtract(a[1].e, 0, 8) : nullptr; for (u64 i = 0; i < n; i++) setByte(o, off + i, e, a[1].c); } setRet(a[0]); return; }
  case B_HEAPLIVE: setRet({nullptr, (u64)S->heapLive}); return;
  case B_CONCRETE: setRet({nullptr, concretize(a[0], 64)}); return;
  case B_ISSYM: setRet({nullptr, a[0].e && !isC(a[0].e)}); return;
  case B_READABLE: { u64 p = concretize(a[0], 64), n = concretize(a[1], 64), id, off; setRet({nullptr, n == 0 || inBounds(p, n, id, off, false)}); return; }
  case B_OBJSIZE: { u64 p = concretize(a[0], 64), id, off; setRet({nullptr, inBounds(p, 0, id, off, false) ? S->mem[id]->size - off : 0}); return; }
  case B_THREAD: { Thread t; Fn *fn = nullptr; u64 fa = concretize(a[0], 64); u64 k = (fa - FBASE) / 16; if (fa < FBASE || k >= fns.size()) endErr("memory", "bad thread entry"); fn = fns[k]; pushFrame(t, fn, -1); if (fn->nargs) t.st.back().regs[fn->argRegs[0]] = a[1]; S->th.push_back(t); F = &S->th[S->cur].st.back(); setRet({nullptr, S->th.size() - 1}); return; }
  case B_YIELD: if (S->th.size() > 1) { if (S->preempts < maxPreempt) schedule(true); else S->sched.push_back((uint8_t)S->cur); } return;
  case B_BLOCK: { S->th[S->cur].waiting = 1; schedule(false); return; }
  case B_SELF: setRet({nullptr, (u64)S->cur}); return;
  case B_JOINALL: { for (auto &t : S->th) t.waiting = 0; return; }
  case B_FORK: { return; }
  case B_THROW: { S->exc = concretize(a[0], 64); S->excType = concretize(a[1], 64); S->th[S->cur].st.back().pc++; unwind(); return; }
  // a jump buffer holds the depth of the stack, the function and the place to go back to
  case B_SETJMP: { u64 id, off; resolve(a[0], 40, true, id, off); storeAt(id, off, {nullptr, S->th[S->cur].st.size()}, 64); storeAt(id, off + 8, {nullptr, (u64)F->f}, 64); storeAt(id, off + 16, {nullptr, (u64)F->bb}, 64); storeAt(id, off + 24, {nullptr, (u64)F->pc}, 64); storeAt(id, off + 32, {nullptr, (u64)CI->dst}, 64); setRet({nullptr, 0}); return; }
  case B_LONGJMP: { u64 id, off; resolve(a[0], 40, false, id, off); auto &st = S->th[S->cur].st; u64 depth = concretize(loadAt(id, off, 64), 64), fn = concretize(loadAt(id, off + 8, 64), 64); if (!depth || depth > st.size() || (u64)st[depth - 1].f != fn) endErr("memory", "longjmp to a place that is not there");
    i64 bb = concretize(loadAt(id, off + 16, 64), 64), pc = concretize(loadAt(id, off + 24, 64), 64), dst = concretize(loadAt(id, off + 32, 64), 64); u64 v = concretize(a[1], 32); while (st.size() > depth) { freeFrame(st.back()); st.pop_back(); } F = &st.back(); F->bb = (int)bb; F->pc = (int)pc + 1; if (dst >= 0) F->regs[dst] = {nullptr, v ? v : 1}; return; }
  }
}
static double fpv(u64 c, int w) { if (w == 32) { uint32_t x = (uint32_t)c; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fpb(double d, int w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 c; memcpy(&c, &d, 8); return c; }
static Op cmpOp(int pred, bool &neg, bool &sw) { neg = sw = false; switch (pred) { case LLVMIntEQ: return EQ; case LLVMIntNE: neg = true; return EQ; case LLVMIntUGT: sw = true; return ULT; case LLVMIntUGE: neg = true; return ULT; case LLVMIntULT: return ULT; case LLVMIntULE: neg = true; sw = true; return ULT; case LLVMIntSGT: sw = true; return SLT; case LLVMIntSGE: neg = true; return SLT; case LLVMIntSLT: return SLT; default: neg = true; sw = true; return SLT; } }
static void doCall(const Inst &i);
static void step() {
  Thread &T = S->th[S->cur]; F = &T.st.back(); BB &bb = F->f->bb[F->bb]; const Inst &i = bb.in[F->pc]; CI = &i; S->icount++; instrs++;
  int pc0 = F->pc; (void)pc0;
  switch (i.op) {
  case I_ALLOCA: { u64 n = concretize(val(i.o[0]), 64) & 0xffffffff; u64 sz = i.cv[0] * n; if (sz > (16u << 20)) endErr("memory", "alloca of " + to_string(sz) + " bytes"); u64 a = allocObj(sz, K_STACK, false); F->allocas.push_back((int)S->mem.size() - 1); F->regs[i.dst] = {nullptr, a}; break; }
  case I_LOAD: { V a = val(i.o[0]); V out; if (i.widths.size() == 1 && tableLoad(a, i.w, out)) { F->regs[i.dst] = out; break; } u64 n = 0; for (size_t q = 0; q < i.widths.size(); q++) n = max<u64>(n, i.offs[q] + (i.widths[q] + 7) / 8); u64 id, off; resolve(a, n, false, id, off); for (size_t q = 0; q < i.widths.size(); q++) F->regs[i.dst + q] = loadAt(id, off + i.offs[q], i.widths[q]); break; }
  case I_STORE: { V a = val(i.o.back()); u64 n = 0; for (size_t q = 0; q < i.widths.size(); q++) n = max<u64>(n, i.offs[q] + (i.widths[q] + 7) / 8); u64 id, off; resolve(a, n, true, id, off); for (size_t q = 0; q < i.widths.size(); q++) storeAt(id, off + i.offs[q], val(i.o[q]), i.widths[q]); break; }
  case I_GEP: { V b = val(i.o[0]); bool sym = b.e; for (size_t q = 1; q < i.o.size(); q++) if (val(i.o[q]).e) sym = true;
      if (!sym) { u64 r = b.c + i.cv[0]; for (size_t q = 1; q < i.o.size(); q++) r += (u64)sx(val(i.o[q]).c, i.t[q - 1]) * i.cv[q]; F->regs[i.dst] = {nullptr, r}; }
      else { E *e = eBin(ADD, ex(b, 64), C(i.cv[0], 64)); for (size_t q = 1; q < i.o.size(); q++) { E *x = eSext(ex(val(i.o[q]), i.t[q - 1]), 64); e = eBin(ADD, e, eBin(MUL, x, C(i.cv[q], 64))); } F->regs[i.dst] = mkv(e); } break; }
  case I_BIN: { V a = val(i.o[0]), b = val(i.o[1]); Op o = (Op)i.sub;
      if (o >= UDIV && o <= SREM) { E *z = eEq(ex(b, i.w), C(0, i.w)); if (decide(z)) endErr("divzero", "division by zero"); }
      if (!a.e && !b.e) { bool ok; u64 r = foldBin(o, a.c, b.c, i.w, ok); F->regs[i.dst] = {nullptr, r & maskw(i.w)}; } else F->regs[i.dst] = mkv(eBin(o, ex(a, i.w), ex(b, i.w))); break; }
  case I_CMP: { V a = val(i.o[0]), b = val(i.o[1]); bool neg, sw; Op o = cmpOp(i.sub, neg, sw); if (sw) swap(a, b); if (!a.e && !b.e) { bool ok; u64 r = foldBin(o, a.c, b.c, i.w2, ok); F->regs[i.dst] = {nullptr, (u64)((r != 0) != neg)}; } else { E *e = eBin(o, ex(a, i.w2), ex(b, i.w2)); if (neg) e = eNot(e); F->regs[i.dst] = mkv(e); } break; }
  case I_SELECT: { V c = val(i.o[0]); size_t n = (i.o.size() - 1) / 2; if (!c.e) { for (size_t q = 0; q < n; q++) F->regs[i.dst + q] = val(i.o[1 + (c.c & 1 ? 0 : n) + q]); }
      else { bool ptrs = false; if (i.w == 64) { V x = val(i.o[1]), y = val(i.o[2]); if (!x.e && !y.e && (x.c >> 32) >= 16 && (y.c >> 32) >= 16) ptrs = true; }
        if (ptrs) { bool r = decide(c.e); F->regs[i.dst] = val(i.o[r ? 1 : 2]); }
        else for (size_t q = 0; q < n; q++) F->regs[i.dst + q] = mkv(eIte(c.e, ex(val(i.o[1 + q]), i.widths[q]), ex(val(i.o[1 + n + q]), i.widths[q]))); } break; }
  case I_BR: gotoBB(i.t[0]); return;
  case I_CBR: { V c = val(i.o[0]); bool r = c.e ? decide(c.e) : (c.c & 1); gotoBB(i.t[r ? 0 : 1]); return; }
  case I_SWITCH: { V c = val(i.o[0]); if (!c.e) { int t = i.t[0]; for (size_t q = 0; q < i.cv.size(); q++) if (i.cv[q] == c.c) { t = i.t[q + 1]; break; } gotoBB(t); return; }
      // group by destination; take the model's side first, fork the others by re-execution
      map<int, E *> by; E *any = C(0, 1); for (size_t q = 0; q < i.cv.size(); q++) { E *e = eEq(c.e, C(i.cv[q], i.w2)); any = eBin(OR, any, e); auto it = by.find(i.t[q + 1]); if (it == by.end()) by[i.t[q + 1]] = e; else it->second = eBin(OR, it->second, e); }
      { auto it = by.find(i.t[0]); E *d = eNot(any); if (it == by.end()) by[i.t[0]] = d; else it->second = eBin(OR, it->second, d); }
      for (auto &p : by) if (eval(p.second, S->m)) { bool r = decide(p.second); (void)r; gotoBB(p.first); return; }
      die("switch without a side"); }
  case I_CALL: doCall(i); return;
  case I_RET: { vector<V> rv; for (auto &o : i.o) rv.push_back(val(o)); int rr = F->retReg; for (int id : F->allocas) { Obj *o = wr(id); o->freed = true; o->d.clear(); o->d.shrink_to_fit(); if (o->s) { delete o->s; o->s = nullptr; } o->init.clear(); }
      // stack objects are recycled from the top when possible
      T.st.pop_back(); if (T.st.empty()) { T.done = true; if (S->cur == 0) { pathsOk++; takeSample(S); throw PathEnd(); } schedule(false); return; }
      F = &T.st.back(); if (rr >= 0) for (size_t q = 0; q < rv.size(); q++) F->regs[rr + q] = rv[q]; return; }
  case I_CAST: { V a = val(i.o[0]); if (!a.e) { u64 r = i.sub == 2 ? (u64)sx(a.c, i.w2) : a.c; F->regs[i.dst] = {nullptr, r & maskw(i.w)}; } else { E *e = a.e; e = i.sub == 0 ? eExtract(e, 0, i.w) : i.sub == 1 ? eZext(e, i.w) : eSext(e, i.w); F->regs[i.dst] = mkv(e); } break; }
  case I_MOV: { vector<V> t; for (auto &o : i.o) t.push_back(val(o)); for (size_t q = 0; q < t.size(); q++) F->regs[i.dst + q] = t[q]; break; }
  case I_LPAD: break;
  case I_RESUME: { if (T.st.size() == 1) endErr("abort", "an exception is not caught"); freeFrame(T.st.back()); T.st.pop_back(); unwind(); return; }
  case I_UNREACH: endErr("unreachable", "unreachable executed");
  case I_RMW: { u64 id, off; resolve(val(i.o[0]), (i.w + 7) / 8, true, id, off); V old = loadAt(id, off, i.w), v = val(i.o[1]); E *a = ex(old, i.w), *b = ex(v, i.w), *r; switch (i.sub) { case LLVMAtomicRMWBinOpXchg: r = b; break; case LLVMAtomicRMWBinOpAdd: r = eBin(ADD, a, b); break; case LLVMAtomicRMWBinOpSub: r = eBin(SUB, a, b); break; case LLVMAtomicRMWBinOpAnd: r = eBin(AND, a, b); break; case LLVMAtomicRMWBinOpOr: r = eBin(OR, a, b); break; default: r = eBin(XOR, a, b); } storeAt(id, off, mkv(r), i.w); F->regs[i.dst] = old; break; }
  case I_CMPXCHG: { u64 id, off; int w = i.widths[0]; resolve(val(i.o[0]), (w + 7) / 8, true, id, off); V old = loadAt(id, off, w); bool eq = decide(eEq(ex(old, w), ex(val(i.o[1]), w))); if (eq) storeAt(id, off, val(i.o[2]), w); F->regs[i.dst] = old; F->regs[i.dst + 1] = {nullptr, eq}; break; }
  case I_FENCE: break;
  case I_FBIN: { double a = fpv(concretize(val(i.o[0]), i.w), i.w), b = fpv(concretize(val(i.o[1]), i.w), i.w), r = i.sub == LLVMFAdd ? a + b : i.sub == LLVMFSub ? a - b : i.sub == LLVMFMul ? a * b : a / b; F->regs[i.dst] = {nullptr, fpb(r, i.w)}; break; }
  case I_FCMP: { double a = fpv(concretize(val(i.o[0]), i.w2), i.w2), b = fpv(concretize(val(i.o[1]), i.w2), i.w2); bool r; switch (i.sub) { case LLVMRealOEQ: case LLVMRealUEQ: r = a == b; break; case LLVMRealOGT: case LLVMRealUGT: r = a > b; break; case LLVMRealOGE: case LLVMRealUGE: r = a >= b; break; case LLVMRealOLT: case LLVMRealULT: r = a < b; break; case LLVMRealOLE: case LLVMRealULE: r = a <= b; break; default: r = a != b; } F->regs[i.dst] = {nullptr, r}; break; }
  case I_FCAST: { u64 c = concretize(val(i.o[0]), i.w2); u64 r; switch (i.sub) { case LLVMSIToFP: r = fpb((double)sx(c, i.w2), i.w); break; case LLVMUIToFP: r = fpb((double)c, i.w); break; case LLVMFPToSI: r = (u64)(i64)fpv(c, i.w2) & maskw(i.w); break; case LLVMFPToUI: r = (u64)fpv(c, i.w2) & maskw(i.w); break; default: r = fpb(fpv(c, i.w2), i.w); } F->regs[i.dst] = {nullptr, r}; break; }
  case I_UNSUP: incomplete("unsupported instruction: " + (i.txt ? i.txt->substr(0, 120) : string("?")) + " at " + where(&i)); pathsErr++; throw PathEnd();
  }
  F->pc++;
}
static void doCall(const Inst &i) {
  Fn *f = i.fn;
  if (!f) { u64 a = concretize(val(i.o[0]), 64); u64 k = (a - FBASE) / 16; if (a < FBASE || k >= fns.size() || (a - FBASE) % 16) endErr("memory", "call through a bad function pointer: " + ptrDesc(a)); f = fns[k]; }
  vector<V> args; for (size_t q = 1; q < i.o.size(); q++) args.push_back(val(i.o[q]));
  if (f->decl || f->builtin >= 0) {
    const string &n = f->name;
    if (f->builtin >= 0) { int b = f->builtin; 
      // scheduling builtins must see the advanced pc so that the other choices resume after the call
      if (b == B_THROW || b == B_LONGJMP) { builtin(b, args); return; }
      if (b == B_YIELD || b == B_BLOCK) { F->pc++; builtin(b, args); return; }
      builtin(b, args); F = &S->th[S->cur].st.back(); F->pc++; return; }
    if (n.compare(0, 5, "llvm.") == 0) {
      auto is = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
      if (is("llvm.memcpy") || is("llvm.memmove")) { u64 c = concretize(args[2], i.t[2]); copyBytes(args[0], args[1], c, is("llvm.memmove")); }
      else if (is("llvm.memset")) { u64 c = concretize(args[2], i.t[2]); if (c) { u64 id, off; resolve(args[0], c, true, id, off); Obj *o = wr(id); for (u64 q = 0; q < c; q++) setByte(o, off + q, args[1].e, args[1].c); } }
      else if (is("llvm.dbg") || is("llvm.lifetime") || is("llvm.assume") || is("llvm.donothing") || is("llvm.va_end") || is("llvm.prefetch") || is("llvm.experimental.noalias")) {}
      else if (is("llvm.va_start")) { u64 n2 = max<size_t>(8, F->va.size() * 8); u64 area = allocObj(n2, K_STACK, false); int aid = (int)S->mem.size() - 1; F->allocas.push_back(aid); for (size_t q = 0; q < F->va.size(); q++) { V v = F->va[q]; if (v.e && v.e->w < 64) v.e = eZext(v.e, 64); storeAt(aid, q * 8, v, 64); } u64 id, off; resolve(args[0], 24, true, id, off); storeAt(id, off, {nullptr, 48}, 32); storeAt(id, off + 4, {nullptr, 176}, 32); storeAt(id, off + 8, {nullptr, area}, 64); storeAt(id, off + 16, {nullptr, 0}, 64); }
      else if (is("llvm.va_copy")) copyBytes(args[0], args[1], 24, true);
      else if (is("llvm.stacksave")) F->regs[i.dst] = {nullptr, 0}; else if (is("llvm.stackrestore")) {}
      else if (is("llvm.expect") || is("llvm.threadlocal.address") || is("llvm.launder") || is("llvm.strip")) F->regs[i.dst] = args[0];
      else if (is("llvm.objectsize")) F->regs[i.dst] = {nullptr, (args[1].c & 1) ? 0 : maskw(i.w)};
      else if (is("llvm.eh.typeid.for")) F->regs[i.dst] = {nullptr, ((args[0].c >> 32) + 1) & 0xffffffff};
      else if (is("llvm.is.constant")) F->regs[i.dst] = {nullptr, 0};
      else if (is("llvm.abs")) { E *a = ex(args[0], i.w); F->regs[i.dst] = mkv(eIte(eBin(SLT, a, C(0, i.w)), eBin(SUB, C(0, i.w), a), a)); }
      else if (is("llvm.umin") || is("llvm.umax") || is("llvm.smin") || is("llvm.smax")) { E *a = ex(args[0], i.w), *b = ex(args[1], i.w); E *lt = eBin(n[5] == 'u' ? ULT : SLT, a, b); bool mn = n.substr(6, 3) == "min"; F->regs[i.dst] = mkv(mn ? eIte(lt, a, b) : eIte(lt, b, a)); }
      else if (is("llvm.bswap")) { E *a = ex(args[0], i.w); int nb = i.w / 8; E *r = eExtract(a, 0, 8); for (int q = 1; q < nb; q++) r = eConcat(r, eExtract(a, 8 * q, 8)); F->regs[i.dst] = mkv(r); }
      else if (is("llvm.fshl") || is("llvm.fshr")) { int w = i.w; u64 s = concretize(args[2], w) % w; E *a = ex(args[0], w), *b = ex(args[1], w); E *r; if (is("llvm.fshl")) r = s ? eBin(OR, eBin(SHL, a, C(s, w)), eBin(LSHR, b, C(w - s, w))) : a; else r = s ? eBin(OR, eBin(SHL, a, C(w - s, w)), eBin(LSHR, b, C(s, w))) : b; F->regs[i.dst] = mkv(r); }
      else if (is("llvm.ubsantrap")) endErr("memory", "array index out of bounds");
      else if (is("llvm.trap")) endErr("abort", "trap");
      else { incomplete("unsupported intrinsic " + n); pathsErr++; throw PathEnd(); }
      F->pc++; return;
    }
    extMissing.insert(n); incomplete("call to unmodelled function " + n); pathsErr++; throw PathEnd();
  }
  int fixed = f->nargs;
  // byval copies
  for (size_t q = 0; q < args.size(); q++) if (i.byval[q]) { u64 a = allocObj(i.byval[q], K_STACK, false); F->allocas.push_back((int)S->mem.size() - 1); copyBytes({nullptr, a}, args[q], i.byval[q], true); args[q] = {nullptr, a}; }
  int rr = i.dst; F->pc++;
  pushFrame(S->th[S->cur], f, rr); Frame &nf = S->th[S->cur].st.back(); F = &nf;
  // argRegs are slot starts; flattened aggregates occupy consecutive regs so a linear fill works
  size_t q = 0; int r = 0; int total = fixed ? f->argRegs.back() + 1 : 0; (void)total;
  for (; q < args.size() && r < (int)f->argRegs.size(); q++, r++) nf.regs[f->argRegs[r]] = args[q];
  for (; q < args.size(); q++) { nf.va.push_back(args[q]); nf.vaW.push_back(i.t[q]); }
}
static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static double tStart;
static bool stopAll = false;
static void runState(State *s) {
  S = s; 
  try {
    for (;;) { step(); if (S->icount > maxInstr) { endErr("nonterm", "path executed more than " + to_string(maxInstr) + " instructions (possible non-termination)"); }
      if ((instrs & 0xffff) == 0 && now() - tStart > maxTime) { incomplete("time budget exhausted"); stopAll = true; throw PathEnd(); } }
  } catch (PathEnd &) { paths++; delete S; S = nullptr; }
}
static void emit(FILE *o) {
  fprintf(o, "{\"paths\":%llu,\"paths_ok\":%llu,\"paths_err\":%llu,\"paths_assume\":%llu,\"instructions\":%llu,\"forks\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"vars\":%d,\n", (unsigned long long)paths, (unsigned long long)pathsOk, (unsigned long long)pathsErr, (unsigned long long)pathsAssume, (unsigned long long)instrs, (unsigned long long)forksN, (unsigned long long)nQueries, (unsigned long long)nCacheHits, (unsigned long long)nModelHits, (unsigned long long)nUnknown, solverTime, now() - tStart, nVars);
  fprintf(o, "\"reached\":{"); bool f = true; for (auto &p : reached) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; }
  fprintf(o, "},\n\"incomplete\":{"); f = true; for (auto &p : incompl) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; }
  fprintf(o, "},\n\"functions\":["); f = true; for (auto x : fns) if (x->executed) { int cov = 0; for (auto &b : x->bb) if (b.covered) cov++; fprintf(o, "%s[\"%s\",\"%s\",%d,%d]", f ? "" : ",", jesc(x->name).c_str(), jesc(x->file).c_str(), cov, (int)x->bb.size()); f = false; }
  if (getenv("VF_COV")) { fprintf(o, "],\n\"lines\":["); f = true; set<pair<int, int>> all, cov; for (auto x : fns) if (!x->decl) for (auto &b : x->bb) for (auto &i : b.in) if (i.line) { all.insert({i.file, i.line}); if (b.covered) cov.insert({i.file, i.line}); } for (auto &l : all) { fprintf(o, "%s[\"%s\",%d,%d]", f ? "" : ",", jesc(files[l.first]).c_str(), l.second, (int)cov.count(l)); f = false; } }
  fprintf(o, "],\n\"errors\":["); f = true;
  for (auto &p : errs) { auto &e = p.second; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"inputs\":[", f ? "" : ",\n", jesc(e.kind).c_str(), jesc(e.msg).c_str(), jesc(e.where).c_str(), jesc(e.stack).c_str()); f = false; bool g = true;
    for (auto &s : e.syms) { fprintf(o, "%s[\"%s\",\"", g ? "" : ",", jesc(s.name).c_str()); for (int v : s.vars) fprintf(o, "%02x", v < (int)e.m.size() ? e.m[v] : 0); fprintf(o, "\"]"); g = false; }
    fprintf(o, "],\"sched\":["); g = true; for (auto t : e.sched) { fprintf(o, "%s%d", g ? "" : ",", t); g = false; }
    fprintf(o, "],\"trail\":["); g = true; for (auto &t : e.trail) { fprintf(o, "%s\"%s\"", g ? "" : ",", jesc(t).c_str()); g = false; } fprintf(o, "]}"); }
  fprintf(o, "],\n\"samples\":["); f = true;
  for (auto &e : samples) { fprintf(o, "%s{\"inputs\":[", f ? "" : ",\n"); f = false; bool g = true; for (auto &s : e.syms) { fprintf(o, "%s[\"%s\",\"", g ? "" : ",", jesc(s.name).c_str()); for (int v : s.vars) fprintf(o, "%02x", v < (int)e.m.size() ? e.m[v] : 0); fprintf(o, "\"]"); g = false; } fprintf(o, "],\"sched\":["); g = true; for (auto t : e.sched) { fprintf(o, "%s%d", g ? "" : ",", t); g = false; } fprintf(o, "]}"); }
  fprintf(o, "]}\n"); fflush(o);
}
int main(int argc, char **argv) {
  string bc, entry = "harness", out; int jobs = 1; unsigned seed = 0; bool bfs = false;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--jobs") jobs = stoi(nx()); else if (a == "--max-instr") maxInstr = stoull(nx()); else if (a == "--max-time") maxTime = stod(nx()); else if (a == "--solver-ms") solverTimeoutMs = stoi(nx()); else if (a == "--max-enum") maxEnum = stoi(nx()); else if (a == "--seed") seed = stoi(nx()); else if (a == "--preempt") maxPreempt = stoi(nx()); else bc = a; }
  rngs += seed * 0x9E3779B97F4A7C15ull; (void)bfs;
  tStart = now();
  loadModule(bc.c_str());
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
  { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), solverTimeoutMs); Z3_solver_set_params(zc, zs, p); }
  z1 = Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1));
  auto it = fnByName.find(entry); if (it == fnByName.end() || it->second->decl) die("entry function not found: " + entry);
  State *s0 = new State; s0->mem = initMem; s0->th.resize(1); S = s0; CI = nullptr; pushFrame(s0->th[0], it->second, -1); work.push_back(s0);
  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  // breadth first until there is enough work for every job, then split
  if (jobs > 1) {
    deque<State *> q; double t0 = now();
    while (!work.empty() && work.size() < (size_t)jobs * 24 && !stopAll && now() - t0 < 20) { State *s = work.front(); work.erase(work.begin()); S = s; size_t before = work.size(); bool ended = false;
      try { for (;;) { step(); if (S->icount > maxInstr) endErr("nonterm", "path executed more than " + to_string(maxInstr) + " instructions (possible non-termination)"); if (work.size() > before) break; if ((instrs & 0xffff) == 0 && now() - tStart > maxTime) { incomplete("time budget exhausted"); stopAll = true; throw PathEnd(); } } } catch (PathEnd &) { paths++; delete S; ended = true; }
      if (!ended) work.push_back(s); }
    if (work.empty()) { emit(fo); return 0; }
    vector<State *> all = work; vector<string> parts; vector<pid_t> pids; fflush(stdout);
    for (int j = 0; j < jobs; j++) { char t[] = "/tmp/osxpartXXXXXX"; int fd = mkstemp(t); close(fd); parts.push_back(t); pid_t p = fork();
      if (p == 0) { // only the first job keeps the counters of the shared prefix
        if (j) { paths = pathsOk = pathsErr = pathsAssume = instrs = forksN = nQueries = nCacheHits = nModelHits = nUnknown = 0; solverTime = 0; reached.clear(); incompl.clear(); errs.clear(); samples.clear(); sampleSeen = 0; }
        work.clear(); for (size_t k = 0; k < all.size(); k++) if ((int)(k % jobs) == j) work.push_back(all[k]); 
        while (!work.empty() && !stopAll) { State *s = work.back(); work.pop_back(); runState(s); }
        FILE *f = fopen(t, "w"); emit(f); fclose(f); _exit(0); }
      pids.push_back(p); }
    bool bad = false; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    fprintf(fo, "{\"parts\":["); for (size_t j = 0; j < parts.size(); j++) { FILE *f = fopen(parts[j].c_str(), "r"); if (j) fprintf(fo, ","); char buf[65536]; size_t n; size_t tot = 0; while ((n = fread(buf, 1, sizeof buf, f)) > 0) { fwrite(buf, 1, n, fo); tot += n; } if (!tot) { fprintf(fo, "null"); bad = true; } fclose(f); unlink(parts[j].c_str()); } fprintf(fo, "],\"bad\":%s}\n", bad ? "true" : "false"); fflush(fo); return 0;
  }
  while (!work.empty() && !stopAll) { State *s = work.back(); work.pop_back(); runState(s); }
  emit(fo); return 0;
}
