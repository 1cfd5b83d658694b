#include "util.h"
#include <onion/codecs.h>
// any text: safe; and the part before the first malformed escape decodes as specified
void harness(void) {
  char *s = TSTR(0, N, "s"); int n = strlen(s);
  static char ref[TMAX + 1]; int rn = 0, i = 0, bad = 0;
  while (i < n && !bad) {
    if (s[i] == '%') { int h = i + 1 < n ? hexv(s[i + 1]) : -1, l = i + 2 < n ? hexv(s[i + 2]) : -1; if (h < 0 || l < 0) { bad = 1; break; } ref[rn++] = h * 16 + l; i += 3; }
    else { ref[rn++] = s[i] == '+' ? ' ' : s[i]; i++; }
  }
  onion_unquote_inplace(s);
  CHECK(eqn(s, ref, rn), "unescape: decoded text differs from the specification");
  if (!bad) { CHECK(s[rn] == 0, "unescape: decoded text has the wrong length"); sym_reach("wellformed"); } else { sym_reach("malformed"); CHECK((int)strlen(s) <= n, "unescape: text grew"); }
}
