#include "util.h"
#include <onion/codecs.h>
#include <onion/low.h>
void harness(void) {
  char *s = TSTR(0, N, "s"); int n = strlen(s);
  char *q = onion_quote_new(s); int ql = strlen(q);
  { int ok = 1; for (int i = 0; i < ql; i++) ok &= ALNUM(q[i]) | (q[i] == '%') | (q[i] == '-') | (q[i] == '_') | (q[i] == '.') | (q[i] == '~'); CHECK(ok, "escape: reserved character left in escaped text"); }
  // the bounded escaper: writes inside m bytes, a prefix of the whole result, the whole of it if it fits
  
#ifdef LONG
  int m = sym_pick(0, 2, "max"); m = m == 0 ? 1 : ql + m - 1;
#else
  int m = sym_pick(1, 3 * N + 2, "max");
#endif
  char *b = malloc(m);
  int r = onion_quote(s, b, m);
  CHECK(r >= 0 && r < m, "bounded escape: returned size outside the buffer");
  CHECK(b[r] == 0, "bounded escape: not terminated at the returned size");
  CHECK(r <= ql && eqn(b, q, r), "bounded escape: not a prefix of the escaped text");
  if (m > ql) { CHECK(r == ql, "bounded escape: text cut although it fits"); sym_reach("fits"); } else sym_reach("cut");
  if (m != 1) sym_stop();   // the round trip does not depend on m
  onion_unquote_inplace(q);
  CHECK(eqz(q, s, n), "escape then unescape is not the original text");
  onion_low_free(q); free(b); free(s);
  CHECK(sym_heap_live() == 0, "escape: memory leaked");
}
