#include "util.h"
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/low.h>
#ifndef PRE
#define PRE ""
#endif
// any text read as JSON: stays inside, no leak, and a result re-read from its own writing is the same
void harness(void) {
  
#ifdef LONG
  // many pairs (or levels) first
  int rep = longlen(), n = sym_pick(0, N, "n"), pl = 0; char *s = malloc(rep * 20 + n + 4); s[pl++] = '{'; for (int i = 0; i < rep; i++) { s[pl++] = '"'; s[pl++] = 'a' + i % 26; s[pl++] = 'a' + i / 26 % 26; s[pl++] = '"'; s[pl++] = ':'; if (DEEP) s[pl++] = '{'; else { s[pl++] = '"'; s[pl++] = 'v'; s[pl++] = '"'; s[pl++] = ','; } } memcpy(s + pl, "\"z\":\"t\"", 7); pl += 7; if (DEEP) for (int i = 0; i < rep; i++) s[pl++] = '}';
#else
  int pl = sizeof(PRE) - 1, n = sym_pick(0, N, "n"); char *s = malloc(pl + n + 1); memcpy(s, PRE, pl);
#endif
  if (n) sym_make(s + pl, n, "s"); for (int i = 0; i < n; i++) sym_assume(s[pl + i] != 0); s[pl + n] = 0;
  onion_dict *d = onion_dict_from_json(s);
#ifdef LONG
  { int ref = n >= 1; int e = 0; for (int i = pl; i < pl + n; i++) { int b = (s[i] == ' ') | (s[i] == '\t') | (s[i] == '\n') | (s[i] == '\r'); if (e == 0) { if (s[i] == '}') e = 1; else if (!b) e = 2; } else if (e == 1 && !b) e = 2; } (void)ref;
    if (e == 1) { CHECK(d != NULL, "json: a long valid object refused"); onion_dict *u = d; for (int i = 0; i < rep; i++) { char k[3] = { 'a' + i % 26, 'a' + i / 26 % 26, 0 }; if (DEEP) { u = onion_dict_get_dict(u, k); CHECK(u != NULL, "json: a nested object is missing"); if (!u) return; } else { const char *v = onion_dict_get(u, k); CHECK(v != NULL && eqz(v, "v", 1), "json: a pair of a long object is missing"); } } const char *z = onion_dict_get(u, "z"); CHECK(z != NULL && eqz(z, "t", 1), "json: the last pair of a long object is missing"); CHECK(onion_dict_count(d) == (DEEP ? 1 : rep + 1), "json: wrong number of pairs"); sym_reach("long"); }
    if (e == 0) CHECK(d == NULL, "json: unterminated object accepted"); }
#endif
  if (d) { sym_reach("accepted"); CHECK(onion_dict_count(d) >= 0, "json: impossible count"); 
    int i = 0; while (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') i++; CHECK(s[i] == '{', "json: text that is not an object accepted"); int e = pl + n - 1; while (e > i && (s[e] == ' ' || s[e] == '\t' || s[e] == '\n' || s[e] == '\r')) e--; CHECK(s[e] == '}', "json: unterminated object accepted"); onion_dict_free(d); }
  else sym_reach("refused");
  free(s); CHECK(sym_heap_live() == 0, "json: memory leaked");
}
