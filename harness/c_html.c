#include "req.h"
#include "util.h"
#include <onion/codecs.h>
extern char *onion_html_add_enc(char c, char *p); extern int onion_html_encoding_size(char c);
// decodes the entities HTML defines for the special characters; -1 if a special character is left bare
static int unhtml(const char *q, char *o) {
  int n = 0; while (*q) {
    if (*q == '&') { if (!strncmp(q, "&lt;", 4)) { o[n++] = '<'; q += 4; } else if (!strncmp(q, "&gt;", 4)) { o[n++] = '>'; q += 4; } else if (!strncmp(q, "&amp;", 5)) { o[n++] = '&'; q += 5; } else if (!strncmp(q, "&quot;", 6)) { o[n++] = '"'; q += 6; } else if (!strncmp(q, "&#39;", 5) || !strncmp(q, "&#34;", 5)) { o[n++] = q[3] == '9' ? '\'' : '"'; q += 5; } else if (!strncmp(q, "&apos;", 6)) { o[n++] = '\''; q += 6; } else return -1; }
    else if (*q == '<' || *q == '>' || *q == '"' || *q == '\'') return -1; else o[n++] = *q++; }
  return n; }
static int special(char c) { return c == '<' || c == '>' || c == '&' || c == '"' || c == '\''; }
void harness(void) {
  char *s = TSTR(0, N, "s"); int n = strlen(s); static char o[8 * TMAX + 8]; int sp = 0; for (int i = 0; i < n; i++) if (special(s[i])) sp = 1;
  char *q = onion_html_quote(s);
  if (!sp) { sym_reach("plain"); CHECK(q == NULL || eqz(q, s, n), "html: text without special characters changed"); }
  else { sym_reach("special"); CHECK(q != NULL, "html: text with special characters not quoted"); int k = unhtml(q, o); CHECK(k >= 0, "html: special character left unquoted"); CHECK(k == n && eqn(o, s, n), "html: quoted text does not decode to the original"); }
  const char *d = onion_html_quote_dup(s);
  CHECK(d != NULL && d != s && d != q, "html: quoted copy missing");
  { int k = unhtml(d, o); CHECK(k == n && eqn(o, s, n), "html: quoted copy does not decode to the original"); if (q) CHECK(eqz(d, q, strlen(q)), "html: the two quoters disagree"); }
  onion_low_free((void *)d); if (q) onion_low_free(q);
  CHECK(onion_html_quote_dup(NULL) == NULL, "html: quoted copy of nothing");
  for (int i = 0; i < n; i++) { char b[16]; char *e = onion_html_add_enc(s[i], b); CHECK(e - b == onion_html_encoding_size(s[i]), "html: announced size differs from the size written"); *e = 0; CHECK(unhtml(b, o) == 1 && o[0] == s[i], "html: single character quoted wrongly"); }
  free(s); CHECK(sym_heap_live() == 0, "html: memory leaked");
}
