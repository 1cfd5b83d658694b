#include "util.h"
#include <onion/codecs.h>
#include <onion/low.h>
// reads a C string literal (possibly several adjacent ones); -1 if it is not one
static int cread(const char *p, char *o) {
  int n = 0, in = 0, any = 0;
  for (; *p;) {
    if (!in) { if (*p == '"') { in = 1; any = 1; } else if (*p != '\n' && *p != ' ') return -1; p++; continue; }
    if (*p == '"') { in = 0; p++; continue; }
    if (*p == '\n' || *p == '\r') return -1;
    if (*p != '\\') { o[n++] = *p++; continue; }
    p++;
    switch (*p) { case 'n': o[n++] = '\n'; p++; break; case 'r': o[n++] = '\r'; p++; break; case 't': o[n++] = '\t'; p++; break; case '"': o[n++] = '"'; p++; break; case '\\': o[n++] = '\\'; p++; break; case '\'': o[n++] = '\''; p++; break;
    case 'a': o[n++] = 7; p++; break; case 'b': o[n++] = 8; p++; break; case 'v': o[n++] = 11; p++; break; case 'f': o[n++] = 12; p++; break;
    default: { int v = 0, k = 0; while (k < 3 && *p >= '0' && *p <= '7') { v = v * 8 + *p - '0'; p++; k++; } if (!k || v > 255) return -1; o[n++] = (char)v; } }
  }
  return in || !any ? -1 : n; }
void harness(void) {
  char *s = TSTR(0, N, "s"); int n = strlen(s); static char o[8 * TMAX + 8];
  char *q = onion_c_quote_new(s); int k = cread(q, o);
  CHECK(k >= 0, "c literal: not a valid literal"); CHECK(k == n && eqn(o, s, n), "c literal: does not read back as the original text");
  int ql = strlen(q);
  
#ifdef LONG
  int m = ql + sym_pick(-1, 1, "size");
#else
  int m = sym_pick(3, 5 * N + 4, "size");
#endif
  char *b = malloc(m); onion_c_quote(s, b, m);
  int bl = 0; while (bl < m && b[bl]) bl++; CHECK(bl < m, "bounded c literal: not terminated inside the buffer");
  k = cread(b, o); CHECK(k >= 0 && k <= n && eqn(o, s, k), "bounded c literal: not a literal of the text's beginning");
  if (m > ql) { CHECK(k == n, "bounded c literal: cut although it fits"); sym_reach("fits"); } else sym_reach("cut");
  onion_low_free(q); free(b); free(s); CHECK(sym_heap_live() == 0, "c literal: memory leaked");
}
