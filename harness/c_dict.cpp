// Onion::Dict: every sequence of wrapper operations over a few objects against a reference of who shares what
#include "cxx.h"
#include "dict.hpp"
using Onion::Dict;
#define SL 3
#define KN 2
#ifndef PADL
#define PADL 0
static const char *K[KN] = { "k", "a key longer than sixteen" };
#else
#define P10 "0123456789"
#define P100 P10 P10 P10 P10 P10 P10 P10 P10 P10 P10
static const char *K[KN] = { P100 P100 P100 "k", P100 P100 P100 "l" };
#endif
static std::string val(char c) { return std::string(1, c) + std::string(PADL, 'p'); }
struct M { int refs; bool has[KN]; char v[KN]; };
static Dict *D[SL]; static int own[SL]; static M m[SL + OPS + 2]; static int nm;
static void drop(int i) { D[i] = 0; own[i] = -1; }
static void looks(const Dict &d, M &x) {
  int n = 0;
  for (int k = 0; k < KN; k++) {
    std::string g = d.get(K[k], "?!"); std::string w = x.has[k] ? val(x.v[k]) : std::string("?!"); CHECK(same(g, w), "dict: get gives another value"); CHECK(d.has(K[k]) == x.has[k], "dict: has is wrong"); n += x.has[k];
    bool thrown = false; try { std::string s = d[K[k]]; CHECK(same(s, w), "dict: [] gives another value"); } catch (const Dict::key_not_found &e) { thrown = true; CHECK(same(e.what(), std::string("Key ") + K[k] + " not found"), "dict: wrong text in the exception"); } CHECK(thrown == !x.has[k], "dict: the exception for a missing key is wrong");
  }
  CHECK((int)d.count() == n, "dict: wrong count");
}
extern "C" void harness(void) {
  long l0 = sym_heap_live();
  for (int i = 0; i < SL; i++) drop(i);
  D[0] = new Dict(); own[0] = nm++;
  for (int o = 0; o < OPS; o++) {
    int op = sym_pick(0, 9, "op"), i = sym_pick(0, SL - 1, "to"); 
    if (op <= 3 || op >= 8 || op == 7) sym_assume(D[i] != 0);
    if (op == 0 || op == 1) { int k = sym_pick(0, KN - 1, "key"); std::string v = val(text(1, 1, "value")[0]); if (op == 0) { sym_assume(!m[own[i]].has[k]); D[i]->add(K[k], v); } else D[i]->add(K[k], v, OD_DUP_ALL | OD_REPLACE); m[own[i]].has[k] = true; m[own[i]].v[k] = v[0]; sym_reach("add"); }
    else if (op == 2) { int k = sym_pick(0, KN - 1, "key"); D[i]->remove(K[k]); m[own[i]].has[k] = false; sym_reach("remove"); }
    else if (op == 3) { std::map<std::string, std::string> x = *D[i]; M &y = m[own[i]]; size_t n = 0; for (int k = 0; k < KN; k++) { n += y.has[k]; if (y.has[k]) CHECK(x.count(K[k]) == 1 && x[K[k]] == val(y.v[k]), "dict: the map has another value"); } CHECK(x.size() == n, "dict: the map has other keys"); if (sym_pick(0, 1, "back")) { delete D[i]; D[i] = new Dict(x); m[nm] = m[own[i]]; own[i] = nm++; } sym_reach("map"); }
    else if (op == 4 || op == 5 || op == 6) { int j = sym_pick(0, SL - 1, "from"); sym_assume(D[j] != 0);
      if (op == 4) { sym_assume(!D[i]); D[i] = new Dict(*D[j]); own[i] = own[j]; sym_reach("copy"); }
      else if (op == 5) { sym_assume(D[i] != 0); if (sym_pick(0, 1, "c")) *D[i] = D[j]->c_handler(); else { Dict &r = (*D[i] = *D[j]); CHECK(&r == D[i], "dict: assignment returns another object"); } own[i] = own[j]; sym_reach(i == j ? "self" : "assign"); }
      else { sym_assume(!D[i]); D[i] = new Dict(D[j]->hard_dup()); m[nm] = m[own[j]]; own[i] = nm++; sym_reach("hard_dup"); } }
    else if (op == 7) { delete D[i]; drop(i); sym_reach("delete"); }
    else if (op == 8) { int j = sym_pick(0, SL - 1, "from"); sym_assume(D[j] != 0 && own[i] != own[j]); for (int k = 0; k < KN; k++) sym_assume(!(m[own[i]].has[k] && m[own[j]].has[k])); D[i]->merge(*D[j]); for (int k = 0; k < KN; k++) if (m[own[j]].has[k]) { m[own[i]].has[k] = true; m[own[i]].v[k] = m[own[j]].v[k]; } sym_reach("merge"); }
    else { for (int k = 0; k < KN; k++) if (m[own[i]].has[k]) sym_assume(m[own[i]].v[k] == 'j'); std::string js = D[i]->toJSON(); Dict *n = new Dict(Dict::fromJSON(js)); delete D[i]; D[i] = n; m[nm] = m[own[i]]; own[i] = nm++; sym_reach("json"); }
    for (int s = 0; s < SL; s++) if (D[s]) looks(*D[s], m[own[s]]);
  }
  for (int i = 0; i < SL; i++) delete D[i];
  CHECK(sym_heap_live() == l0, "dict: memory is not released");
  sym_reach("done");
}
