#include "util.h"
#include <onion/codecs.h>
#include <onion/low.h>
#include <limits.h>
static int inab(unsigned char c) { return ALNUM(c) | (c == '+') | (c == '/'); }
static unsigned dec(unsigned char c) { return (-(unsigned)INR(c, 'A', 'Z') & (c - 'A')) | (-(unsigned)INR(c, 'a', 'z') & (c - 'a' + 26)) | (-(unsigned)INR(c, '0', '9') & (c - '0' + 52)) | (-(unsigned)(c == '+') & 62) | (-(unsigned)(c == '/') & 63); }
// arbitrary text: memory safe; valid groups (with blanks anywhere) decode to what the standard says
void harness(void) {
#ifdef ALPHA
  // a few letters, blanks and padding, so that all layouts of longer texts are covered
  int n = sym_pick(0, N, "n"); char *s = malloc(n + 1); static const char al[] = ALPHA; for (int i = 0; i < n; i++) s[i] = al[sym_pick(0, sizeof al - 2, "c")]; s[n] = 0;
#else
  char *s = symstr(0, N, "s"); int n = strlen(s);
#endif
  char g[N + 1]; int k = 0, valid = 1, pad = 0;
  for (int i = 0; i < n; i++) { if (s[i] == ' ' || s[i] == '\n' || s[i] == '\r') continue; if (s[i] == '=') pad++; else { valid &= !pad; valid &= inab(s[i]); } g[k++] = s[i]; }
  if (k == 0 || k % 4 || pad > 2) valid = 0;
  int l = 12345; char *d = onion_base64_decode(s, &l);
  if (valid) {
    CHECK(d != NULL, "base64: valid text refused"); int el = k / 4 * 3 - pad; CHECK(l == el, "base64: wrong decoded length");
    int okb = 1; for (int i = 0; i < el; i++) { int q = i / 3 * 4; unsigned v = 0; for (int j = 0; j < 4; j++) v = v << 6 | (q + j >= k - pad ? 0 : dec(g[q + j])); okb &= (unsigned char)d[i] == (unsigned char)(v >> (16 - 8 * (i % 3))); }
    CHECK(okb, "base64: wrong decoded byte");
    CHECK(d[el] == 0, "base64: decoded text not terminated"); sym_reach("valid");
  } else { sym_reach("invalid"); if (d) { CHECK(l >= 0 && l <= k / 4 * 3, "base64: impossible decoded length"); for (int i = 0; i < l; i++) (void)*(volatile char *)&d[i]; CHECK(d[l] == 0, "base64: decoded text not terminated"); } }
  if (d) onion_low_free(d); free(s);
  CHECK(sym_heap_live() == 0, "base64: memory leaked");
}
