// content types: the table file is a text given by the harness
#include "util.h"
#include <errno.h>
#include <stdio.h>
#include <onion/mime.h>
#include <onion/dict.h>
static const char *tab; static int tl, tp, topen, nofile; static char fobj[8];
FILE *vf_fopen(const char *n, const char *m) { CHECK(m[0] == 'r' && !topen, "mime: opens the table wrongly"); if (nofile) { errno = ENOENT; return NULL; } topen = 1; tp = 0; return (FILE *)fobj; }
int vf_fclose(FILE *f) { CHECK(f == (FILE *)fobj && topen, "mime: closes twice"); topen = 0; return 0; }
int vf_getc(FILE *f) { CHECK(topen, "mime: reads after closing"); return tp < tl ? (unsigned char)tab[tp++] : EOF; }
int vf_fgetc(FILE *f) { return vf_getc(f); }
int vf__IO_getc(FILE *f) { return vf_getc(f); }
int vf_ungetc(int c, FILE *f) { if (c == EOF) return EOF; CHECK(topen && tp > 0 && (unsigned char)tab[tp - 1] == (unsigned char)c, "mime: pushes back another byte"); tp--; return c; }
int vf_feof(FILE *f) { return tp >= tl; }
int vf_ferror(FILE *f) { return 0; }
char *vf_fgets(char *b, int n, FILE *f) { int i = 0; if (tp >= tl) return NULL; while (i < n - 1 && tp < tl) { b[i++] = tab[tp++]; if (b[i - 1] == '\n') break; } b[i] = 0; return b; }
size_t vf_fread(void *b, size_t s, size_t n, FILE *f) { size_t k = 0; while (k < s * n && tp < tl) ((char *)b)[k++] = tab[tp++]; return k / s; }
static int blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
// is r one of the types the table gives to extension e? -1: the table has none
static int ref(const char *e, int el, const char *r) { int found = -1, i = 0; while (i < tl) { int t = -1, tn = 0, end = i; while (end < tl && tab[end] != '\n' && tab[end] != '#') end++; int k = i;
    while (k < end) { while (k < end && blank(tab[k])) k++; int w = k; while (k < end && !blank(tab[k])) k++; int wl = k - w; if (!wl) break;
      if (t < 0) { t = w; tn = wl; if (tn > 127) break; } else if (wl == el && eqn(tab + w, e, el)) { if (found < 0) found = 0; if (r && eqz(r, tab + t, tn)) found = 1; } }
    while (end < tl && tab[end] != '\n') end++; i = end + 1; } return found; }
static void query(const char *path, const char *e, int el) { const char *r = onion_mime_get(path); CHECK(r != NULL, "mime: no type"); int k = ref(e, el, r); if (el > 63 && k == 0 && !strcmp(r, "text/plain")) return; if (k < 0) { CHECK(!strcmp(r, "text/plain"), "mime: unknown extensions are not plain text"); sym_reach("unknown"); } else { CHECK(k == 1, "mime: wrong type for an extension of the table"); sym_reach("known"); } }
void harness(void) {
#if MODE == 1
  char *t = malloc(400); strcpy(t, PRE); int b = strlen(t), n = sym_pick(0, N, "length"); if (n) sym_make(t + b, n, "table"); for (int i = 0; i < n; i++) sym_assume(t[b + i] != 0); tl = b + n; t[tl] = 0; strcat(t, POST); tl = strlen(t); tab = dupn(t, tl); free(t);
  char *e = symstr(0, EN, "extension"); for (int i = 0; e[i]; i++) sym_assume(e[i] != '.'); char p[16] = "/x.y/f."; strcat(p, e); query(p, e, strlen(e)); free(e);
#elif MODE == 2
  static const int tls[] = { 1, 126, 127, 128, 129, 300 }, els[] = { 3, 7, 11, 62, 63, 64, 65, 200 }; int a = tls[sym_pick(0, 5, "type length")], c = els[sym_pick(0, 7, "extension length")]; char *t = malloc(700); memset(t, 'a', a); t[a] = 0; strcat(t, " "); int o = strlen(t); memset(t + o, 'e', c); t[o + c] = 0; sym_make(t + o + c - 1, 1, "last byte"); sym_assume(ALNUM(t[o + c - 1])); char ext[240]; memcpy(ext, t + o, c); ext[c] = 0;
  strcat(t, " s\nb/c k"); tl = strlen(t); tab = dupn(t, tl); free(t); char p[240]; strcpy(p, "f."); strcat(p, ext); query(p, ext, c); query("x.s", "s", 1); query("y.k", "k", 1); p[strlen(p) - 1] = 0; query(p, p + 2, c - 1);
#elif MODE == 3
  tab = "t/html html htm\n# a comment\nt/a\ta ab  \n\nt/j js"; tl = strlen(tab); char *p = symstr(0, N, "path");
#ifdef LONG   // a long name or extension before or behind it
  { int L = longlen(), where = sym_pick(0, 1, "where"), n = strlen(p); char *q = malloc(L + n + 1); longfill(q + (where ? n : 0), L); memcpy(q + (where ? 0 : L), p, n); q[L + n] = 0; free(p); p = q; }
#endif
  int d = -1; for (int i = 0; p[i]; i++) if (p[i] == '.') d = i; query(p, p + d + 1, strlen(p + d + 1)); free(p);
#elif MODE == 4
  nofile = sym_pick(0, 1, "no table"); tab = "t/a a\nt/b b"; tl = strlen(tab); const char *cur[2] = { nofile ? NULL : "t/a", nofile ? NULL : "t/b" }; static const char *ty[] = { NULL, "x/1", "x/2" };
  for (int s = 0; s < N; s++) { int w = sym_pick(0, 1, "which"); int v = sym_pick(0, 2, "type"); char m[8], x[2] = { 'a' + w, 0 }; if (ty[v]) strcpy(m, ty[v]); onion_mime_update(x, v ? m : NULL); memset(m, 'z', 7); x[0] = 'q'; cur[w] = ty[v]; if (v) sym_reach("updated"); else sym_reach("removed"); }
  for (int w = 0; w < 2; w++) { char q[4] = { 'f', '.', 'a' + w, 0 }; const char *r = onion_mime_get(q); CHECK(r && !strcmp(r, cur[w] ? cur[w] : "text/plain"), "mime: the type is not the one last set"); }
  if (nofile) CHECK(!strcmp(onion_mime_get("a.html"), "text/html") && !strcmp(onion_mime_get("a.png"), "image/png"), "mime: no minimal set");
  onion_dict *own = onion_dict_new(); onion_dict_add(own, "a", "my/a", 0); onion_mime_set(own); CHECK(!strcmp(onion_mime_get("p.a"), "my/a") && !strcmp(onion_mime_get("p.html"), "text/plain"), "mime: the dictionary of the user is not used");
#endif
  onion_mime_set(NULL); CHECK(!topen, "mime: table left open");
#if MODE == 1 || MODE == 2
  free((char *)tab);
#endif
  CHECK(sym_heap_live() == 0, "mime: memory leaked"); sym_reach("done"); }
