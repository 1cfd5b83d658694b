#include "util.h"
#include <onion/codecs.h>
#include <onion/low.h>
static const char AB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// encode n arbitrary bytes (LEN of them concrete around the line length), compare with RFC 4648, decode back
void harness(void) {
  int n = sym_pick(LO, HI, "n"); char *s = malloc(n ? n : 1);
  for (int i = 0; i < n; i++) s[i] = (char)(i * 37 + 11);
  int f = n - N; if (f < 0) f = 0; if (n) sym_make(s + f, n - f, "bytes");   // the last N bytes are arbitrary
  char *e = onion_base64_encode(s, n); int el = strlen(e), k = 0;
  for (int i = 0; i < n; i += 3) { unsigned v = (unsigned char)s[i] << 16; if (i + 1 < n) v |= (unsigned char)s[i + 1] << 8; if (i + 2 < n) v |= (unsigned char)s[i + 2];
    char g[4] = { AB[v >> 18], AB[(v >> 12) & 63], i + 1 < n ? AB[(v >> 6) & 63] : '=', i + 2 < n ? AB[v & 63] : '=' };
    for (int j = 0; j < 4; j++) { while (k < el && (e[k] == '\n' || e[k] == '\r')) k++; CHECK(k < el && e[k] == g[j], "base64: encoded text differs from the standard"); k++; } }
  while (k < el && (e[k] == '\n' || e[k] == '\r')) k++;
  CHECK(k == el, "base64: trailing characters after the encoded text");
  char *c = dupn(e, el);   // exact size copy: over-reads are seen
  int l = -1; char *d = onion_base64_decode(c, &l);
  CHECK(l == n, "base64: decoded length differs");
  if (n) { CHECK(d != NULL, "base64: valid text refused"); CHECK(eqn(d, s, n), "base64: decode of the encoding is not the original"); }
  if (d) onion_low_free(d); onion_low_free(e); free(c); free(s); sym_reach("done");
  CHECK(sym_heap_live() == 0, "base64: memory leaked");
}
