#include "util.h"
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/low.h>
// write a dictionary as JSON, read it back: equal
static int same(onion_dict *a, const char *k, const char *v) { const char *g = onion_dict_get(a, k); return g && eqz(g, v, strlen(v)); }
// strict JSON (RFC 8259) of strings and objects: position after the value at i, or -1
static int ws(const char *j, int i, int n) { while (i < n && ((j[i] == ' ') | (j[i] == '\t') | (j[i] == '\n') | (j[i] == '\r'))) i++; return i; }
static int jstr(const char *j, int i, int n) { if (i >= n || j[i] != '"') return -1; i++; for (;;) { if (i >= n) return -1; unsigned char c = j[i]; if (c == '"') return i + 1; if (c < 0x20) return -1; if (c == '\\') { if (i + 1 >= n) return -1; char e = j[i + 1]; if (e == 'u') { if (i + 5 >= n) return -1; if (!(HEXD(j[i + 2]) & HEXD(j[i + 3]) & HEXD(j[i + 4]) & HEXD(j[i + 5]))) return -1; i += 6; continue; } if (!((e == '"') | (e == '\\') | (e == '/') | (e == 'b') | (e == 'f') | (e == 'n') | (e == 'r') | (e == 't'))) return -1; i += 2; continue; } i++; } }
static int jobj(const char *j, int i, int n) { if (i >= n || j[i] != '{') return -1; i = ws(j, i + 1, n); if (i < n && j[i] == '}') return i + 1; for (;;) { i = jstr(j, ws(j, i, n), n); if (i < 0) return -1; i = ws(j, i, n); if (i >= n || j[i] != ':') return -1; i = ws(j, i + 1, n); i = i < n && j[i] == '{' ? jobj(j, i, n) : jstr(j, i, n); if (i < 0) return -1; i = ws(j, i, n); if (i >= n) return -1; if (j[i] == '}') return i + 1; if (j[i] != ',') return -1; i++; } }
#ifdef LONG
// many pairs, long keys and values, many levels
void harness(void) {
  int many = MANY, shape = sym_pick(0, 2, "shape"); static char ks[MANY][4]; onion_dict *d = onion_dict_new(), *in = d; char *v = longstr("v"); 
  for (int i = 0; i < many; i++) { ks[i][0] = 'A' + i % 26; ks[i][1] = 'a' + i / 26; if (shape == 1) { onion_dict *u = onion_dict_new(); onion_dict_add(in, ks[i], u, OD_DICT | OD_FREE_VALUE); in = u; } else onion_dict_add(d, ks[i], shape == 2 && i == many / 2 ? v : "x", 0); }
  if (shape == 0) onion_dict_add(d, v, "kv", 0); if (shape == 1) onion_dict_add(in, "z", v, 0);
  onion_block *b = onion_dict_to_json(d); CHECK(b != NULL, "json: writing failed"); if (!b) return;
  int jl = onion_block_size(b); char *j = dupn(onion_block_data(b), jl); CHECK((int)strlen(j) == jl, "json: text contains NUL");
  int je = jobj(j, 0, jl); CHECK(je >= 0 && ws(j, je, jl) == jl, "json: the text written is no JSON");
  onion_dict *r = onion_dict_from_json(j); CHECK(r != NULL, "json: own text refused"); if (!r) return;
  CHECK(onion_dict_count(r) == onion_dict_count(d), "json: round trip changes the number of pairs");
  onion_dict *u = r; for (int i = 0; i < many; i++) if (shape == 1) { u = onion_dict_get_dict(u, ks[i]); CHECK(u != NULL, "json: round trip loses a level"); if (!u) return; } else CHECK(same(r, ks[i], shape == 2 && i == many / 2 ? v : "x"), "json: round trip loses a pair");
  if (shape == 0) CHECK(same(r, v, "kv"), "json: round trip changes a long key"); if (shape == 1) CHECK(same(u, "z", v), "json: round trip changes the innermost pair");
  sym_reach("long"); onion_dict_free(r); onion_dict_free(d); onion_block_free(b); free(j); free(v); CHECK(sym_heap_live() == 0, "json: memory leaked");
}
#else
void harness(void) {
  int shape = sym_pick(0, 3, "shape"); onion_dict *d = onion_dict_new(), *s = NULL; char *k = symstr(0, KN, "k"), *v = symstr(0, VN, "v");
  if (shape == 1) onion_dict_add(d, k, v, 0);
  if (shape == 2) { s = onion_dict_new(); onion_dict_add(s, "p", v, 0); onion_dict_add(d, k, s, OD_DICT | OD_FREE_VALUE); onion_dict_add(d, "~~q", "t", 0); sym_assume(k[0] != '~'); }
  if (shape == 3) { s = onion_dict_new(); onion_dict_add(d, "e", s, OD_DICT | OD_FREE_VALUE); onion_dict_add(d, "f", v, 0); }
  onion_block *b = onion_dict_to_json(d); CHECK(b != NULL, "json: writing failed"); if (!b) return;
  int jl = onion_block_size(b); char *j = dupn(onion_block_data(b), jl); CHECK((int)strlen(j) == jl, "json: text contains NUL");
  int je = jobj(j, 0, jl); CHECK(je >= 0 && ws(j, je, jl) == jl, "json: the text written is no JSON");
  onion_dict *r = onion_dict_from_json(j); CHECK(r != NULL, "json: own text refused"); if (!r) return;
  CHECK(onion_dict_count(r) == onion_dict_count(d), "json: round trip changes the number of pairs");
  if (shape == 1) { CHECK(same(r, k, v), "json: round trip changes a pair"); sym_reach("pair"); }
  if (shape == 2) { onion_dict *u = onion_dict_get_dict(r, k); CHECK(u != NULL && onion_dict_count(u) == 1 && same(u, "p", v), "json: round trip changes a nested pair"); CHECK(same(r, "~~q", "t"), "json: round trip loses a pair"); sym_reach("nested"); }
  if (shape == 3) { onion_dict *u = onion_dict_get_dict(r, "e"); CHECK(u != NULL && onion_dict_count(u) == 0 && same(r, "f", v), "json: round trip changes an empty nested dictionary"); }
  onion_dict_free(r); onion_dict_free(d); onion_block_free(b); free(j); free(k); free(v); CHECK(sym_heap_live() == 0, "json: memory leaked");
}
#endif
