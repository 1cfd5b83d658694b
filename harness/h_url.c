// URL tables and path handlers: dispatch, consumption of the path, groups
#include "req.h"
#include "util.h"
#include "onion.h"
#include <regex.h>
#include <onion/url.h>
onion_handler *onion_handler_path(const char *path, onion_handler *inside);
// regular expressions are stand-ins: whether and what they match is arbitrary, the same every time the same text is tried
static int comp, rfree; static struct { int set, match, so, eo, g[2][2]; } M[4][PN + 2]; static char *full;
#ifndef G2
#define G2 2
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
static int badre; size_t vf_regerror(int e, const regex_t *r, char *b, size_t n) { if (n) *b = 0; return 1; }
int vf_regcomp(regex_t *r, const char *p, int f) { CHECK((f & (REG_EXTENDED | REG_NOSUB | REG_ICASE)) == REG_EXTENDED, "url: another kind of expression"); if (badre) return REG_BADPAT; comp++; r->re_nsub = p[1] - '0'; return 0; }
void vf_regfree(regex_t *r) { rfree++; }
static void decide(int id, int off) { if (M[id][off].set) return; int len = strlen(full + off); M[id][off].set = 1; M[id][off].match = sym_pick(0, 1, "match"); if (!M[id][off].match) return; M[id][off].eo = sym_pick(0, len, "end"); M[id][off].so = M[id][off].eo ? sym_pick(0, 1, "inside") : 0;
  for (int g = 0; g < 2; g++) { M[id][off].g[g][0] = -1; M[id][off].g[g][1] = -1; if (sym_pick(0, 1, "group")) { int a = sym_pick(M[id][off].so, M[id][off].eo, "from"); M[id][off].g[g][0] = a; M[id][off].g[g][1] = sym_pick(a, M[id][off].eo, "to"); } } }
int vf_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) { int id = r->re_nsub, off = s - full; CHECK(off >= 0 && off <= (int)strlen(full), "url: the path is outside the request"); decide(id, off); if (!M[id][off].match) return REG_NOMATCH;
  for (size_t i = 0; i < n; i++) m[i].rm_so = m[i].rm_eo = -1; if (n) { m[0].rm_so = M[id][off].so; m[0].rm_eo = M[id][off].eo; } for (int g = 0; g < 2; g++) { size_t i = g ? G2 : 1; if (i >= n) continue; m[i].rm_so = M[id][off].g[g][0]; m[i].rm_eo = M[id][off].g[g][1]; } return 0; }
// leaves and what the reference expects to reach them
static int seen[8], nseen, seenoff[8]; static char seen1[8][PN + 2], seen2[8][PN + 2]; static int has1[8], has2[8]; static int verdict[8]; static int hid[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
static onion_connection_status leaf(void *p, onion_request *r, onion_response *res) { int i = *(int *)p; CHECK(nseen < 8, "url: called without end"); seen[nseen] = i; seenoff[nseen] = onion_request_get_path(r) - full; const char *a = onion_request_get_query(r, "1"), *b = onion_request_get_query(r, STR(G2)); has1[nseen] = !!a; has2[nseen] = !!b; if (a) { CHECK(strlen(a) <= PN, "url: wrong group"); strcpy(seen1[nseen], a); } if (b) { CHECK(strlen(b) <= PN, "url: wrong group"); strcpy(seen2[nseen], b); } nseen++; return verdict[i] ? OCS_PROCESSED : OCS_NOT_PROCESSED; }
static struct { int kind; char *str; int id; int nested; } R[RN + 1]; static char *q1;
static int en, eseen[8], eoff[8]; static int e1[8], e2[8]; static char e1s[8][PN + 2], e2s[8][PN + 2];   // expected calls
static int c1, c2; static char c1s[PN + 2], c2s[PN + 2];
static void expect(int i, int off) { eseen[en] = i; eoff[en] = off; e1[en] = c1; e2[en] = c2; strcpy(e1s[en], c1s); strcpy(e2s[en], c2s); en++; }
static void groups(int id, int off) { for (int g = 0; g < 2; g++) if (M[id][off].g[g][0] >= 0) { char *d = g ? c2s : c1s; int a = M[id][off].g[g][0], b = M[id][off].g[g][1]; memcpy(d, full + off + a, b - a); d[b - a] = 0; if (g) c2 = 1; else c1 = 1; } }
void harness(void) {
  warm(); size_t live = sym_heap_live(); onion *o = onion_new(O_ONE); onion_request *r = mkreq(); onion_response *res = onion_response_new(r); onion_url *u = onion_url_new(), *in = NULL;
  char *path = symstr(0, PN, "path"); for (char *p = path; *p; p++) sym_assume(*p == 'a' || *p == 'b' || *p == '/'); full = r->fullpath = onion_low_strdup(path); r->path = full; r->GET = onion_dict_new(); r->flags |= OR_GET; if (sym_pick(0, 1, "query")) { onion_dict_add(r->GET, "1", "Q", 0); c1 = 1; strcpy(c1s, "Q"); }
  int rn = sym_pick(1, RN, "rules"); char pat[4]; int usednest = 0;
#ifdef MANY   // many rules before that do not match
  for (int i = 0; i < MANY; i++) CHECK(onion_url_add_with_data(u, i & 1 ? "no" : "such", leaf, &hid[5], NULL) == 0, "url: rule refused");
#endif
  for (int i = 0; i < rn; i++) { R[i].kind = sym_pick(0, 1, "kind"); R[i].nested = !usednest && i == 0 ? sym_pick(0, 1, "nested") : 0; char *s; if (R[i].kind == 0) { s = R[i].str = symstr(0, 2, "rule"); if (*s) sym_assume(*s != '^'); } else { pat[0] = '^'; pat[1] = '0' + i; pat[2] = 0; s = pat; R[i].id = i; }
    if (R[i].kind == 1 && i == 0 && sym_pick(0, 1, "refused before")) { onion_handler *h = onion_handler_new(leaf, &hid[5], NULL); badre = 1; CHECK(onion_url_add_handler(u, s, h) != 0, "url: bad expression accepted"); badre = 0; onion_handler_free(h); sym_reach("refused"); }
    verdict[i] = sym_pick(0, 1, "takes"); if (R[i].nested) { usednest = 1; in = onion_url_new(); onion_url_add_with_data(in, "^3", leaf, &hid[6], NULL); verdict[6] = verdict[i]; CHECK(onion_url_add_url(u, s, in) == 0, "url: rule refused"); } else CHECK(onion_url_add_with_data(u, s, leaf, &hid[i], NULL) == 0, "url: rule refused"); }
  onion_handler *root = onion_url_to_handler(u); 
#ifdef PATHH
  root = onion_handler_path("^2", root);
#endif
  onion_handler_add(root, onion_handler_new(leaf, &hid[7], NULL)); verdict[7] = 1;
  // reference
  { int off = 0, taken = 0, go = 1;
#ifdef PATHH
    decide(2, 0); if (M[2][0].match) off = M[2][0].eo; else go = 0;
#endif
    for (int i = 0; i < rn && go; i++) { int m, noff = off; if (R[i].kind == 0) { m = !strcmp(full + off, R[i].str); if (m) noff = off + strlen(R[i].str); } else { decide(i, off); m = M[i][off].match; if (m) { noff = off + M[i][off].eo; groups(i, off); } }
      if (!m) continue; if (R[i].nested) { decide(3, noff); if (M[3][noff].match) { groups(3, noff); expect(6, noff + M[3][noff].eo); taken = verdict[i]; } } else { expect(i, noff); taken = verdict[i]; } break; }
    if (!taken) expect(7, 0); }
  onion_connection_status s = onion_handler_handle(root, r, res); CHECK(s == OCS_PROCESSED, "url: not processed");
  CHECK(nseen == en, nseen < en ? "url: a handler that should have the request did not get it" : "url: a handler was called that should not");
  for (int i = 0; i < en; i++) { CHECK(seen[i] == eseen[i], "url: another rule was used"); CHECK(seenoff[i] == eoff[i], "url: wrong part of the path is passed on"); if (seen[i] != 7) { CHECK(has1[i] == e1[i] && has2[i] == e2[i], "url: a group is missing or invented"); if (e1[i]) CHECK(!strcmp(seen1[i], e1s[i]), "url: wrong group"); if (e2[i]) CHECK(!strcmp(seen2[i], e2s[i]), "url: wrong group"); sym_reach(seen[i] == 6 ? "nested" : "rule"); } else sym_reach("next"); }
  onion_handler_free(root); CHECK(comp == rfree, "url: expressions not released"); onion_response_free(res); onion_request_free(r); free(path); for (int i = 0; i < rn; i++) free(R[i].str); onion_free(o); CHECK(sym_heap_live() == live, "url: memory leaked"); sym_reach("done");
}
