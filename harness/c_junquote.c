#include "util.h"
#include <onion/codecs.h>
#include <onion/block.h>
#ifndef PRE
#define PRE ""
#endif
// reading any text as a JSON string: stays inside the text; what valid text yields is checked against a reference
static int put(char *o, int k, unsigned c) { if (c < 0x80) o[k++] = c; else if (c < 0x800) { o[k++] = 0xc0 | c >> 6; o[k++] = 0x80 | (c & 63); } else if (c < 0x10000) { o[k++] = 0xe0 | c >> 12; o[k++] = 0x80 | ((c >> 6) & 63); o[k++] = 0x80 | (c & 63); } else { o[k++] = 0xf0 | c >> 18; o[k++] = 0x80 | ((c >> 12) & 63); o[k++] = 0x80 | ((c >> 6) & 63); o[k++] = 0x80 | (c & 63); } return k; }
static int u4(const char *p) { int v = 0; for (int j = 0; j < 4; j++) { int h = hexv(p[j]); if (h < 0) return -1; v = v * 16 + h; } return v; }
void harness(void) {
  
#ifdef LONG
  int pl = sizeof(PRE) - 1, ul = sizeof(FILL) - 1, rep = longlen(); pl += ul * rep; int n = sym_pick(0, N, "n"); char *s = malloc(pl + n + 1); memcpy(s, PRE, sizeof(PRE) - 1); for (int i = 0; i < rep; i++) memcpy(s + sizeof(PRE) - 1 + i * ul, FILL, ul);
#else
  int pl = sizeof(PRE) - 1; int n = sym_pick(0, N, "n"); char *s = malloc(pl + n + 1); memcpy(s, PRE, pl);
#endif
  if (n) sym_make(s + pl, n, "s"); for (int i = 0; i < n; i++) sym_assume(s[pl + i] != 0); s[pl + n] = 0; n += pl;
#ifdef HEXONLY
  for (int i = pl; i < n; i++) { sym_assume(hexv(s[i]) >= 0 || s[i] == '"'); }
#endif
  static char o[8 * (TMAX + N + sizeof(PRE))]; int k = 0, ok = 0, i = 1, done = -1;
  if (s[0] == '"') for (;;) { unsigned char c = s[i]; if (!c) break; if (c == '"') { ok = 1; done = i + 1; break; } if (c != '\\') { o[k++] = c; i++; continue; } c = s[++i]; if (!c) break;
      if (c == 'u') { int v = u4(s + i + 1); if (v <= 0) break; i += 5; if (v >= 0xdc00 && v <= 0xdfff) break; if (v >= 0xd800 && v < 0xdc00) { if (s[i] != '\\' || s[i + 1] != 'u') break; int w = u4(s + i + 2); if (w < 0xdc00 || w > 0xdfff) break; i += 6; v = 0x10000 + ((v & 0x3ff) << 10 | (w & 0x3ff)); } k = put(o, k, v); continue; }
      char d = c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c; o[k++] = d; i++; }
  onion_block *b = onion_block_new(); ssize_t r = onion_json_unquote_add(b, s);
  if (s[0] == '"') {
    if (ok) { CHECK(r == done, "json string: wrong number of bytes consumed"); CHECK(onion_block_size(b) == k && eqn(onion_block_data(b), o, k), "json string: wrong text"); sym_reach("valid"); }
    else { CHECK(r < 0, "json string: malformed or unterminated string accepted"); sym_reach("invalid"); } }
  onion_block_free(b); free(s); CHECK(sym_heap_live() == 0, "json string: memory leaked");
}
