#include "util.h"
#include <onion/codecs.h>
#include <onion/block.h>
// standard reader of JSON string content for one-byte results; -1 if invalid
static int jread(const char *p, int n, char *o) {
  int k = 0; for (int i = 0; i < n;) { unsigned char c = p[i]; if (c < 32 || c == '"') return -1; if (c != '\\') { o[k++] = c; i++; continue; } i++; if (i >= n) return -1;
    switch (p[i]) { case 'b': o[k++] = 8; break; case 'f': o[k++] = 12; break; case 'n': o[k++] = 10; break; case 'r': o[k++] = 13; break; case 't': o[k++] = 9; break; case '"': case '\\': case '/': o[k++] = p[i]; break;
    case 'u': { int v = 0; for (int j = 1; j <= 4; j++) { if (i + j >= n) return -1; int h = hexv(p[i + j]); if (h < 0) return -1; v = v * 16 + h; } if (v > 127) return -1; o[k++] = v; i += 4; break; }
    default: return -1; } i++; }
  return k; }
void harness(void) {
  char *s = TSTR(0, N, "s"); int n = strlen(s); static char o[6 * TMAX + 8];
  onion_block *b = onion_block_new(); onion_block_add_str(b, "x"); onion_json_quote_add(b, s);
  CHECK(onion_block_data(b)[0] == 'x', "json quote: earlier block content changed");
  int k = jread(onion_block_data(b) + 1, onion_block_size(b) - 1, o);
  CHECK(k >= 0, "json quote: not valid JSON string content"); CHECK(k == n && eqn(o, s, n), "json quote: does not read back as the original text");
  // the library's own reader, both with and without the surrounding quotes
  int quoted = sym_bool("quoted"); int ql = onion_block_size(b) - 1; char *t = malloc(ql + 3); int tl = 0; if (quoted) t[tl++] = '"'; memcpy(t + tl, onion_block_data(b) + 1, ql); tl += ql; if (quoted) t[tl++] = '"'; t[tl] = 0;
  char *e = dupn(t, tl); free(t);
  onion_block *u = onion_block_new(); ssize_t r = onion_json_unquote_add(u, e);
  CHECK(r >= 0, "json unquote: own quoting refused"); CHECK(onion_block_size(u) == n && eqn(onion_block_data(u), s, n), "json unquote: not the original text");
  if (quoted) { CHECK(r == tl, "json unquote: wrong number of bytes consumed"); sym_reach("quoted"); }
  onion_block_free(b); onion_block_free(u); free(e); free(s); CHECK(sym_heap_live() == 0, "json quote: memory leaked");
}
