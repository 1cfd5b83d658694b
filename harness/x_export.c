// exporting a directory (or a file): what is opened for which request
#include "req.h"
#include "util.h"
#include "client.h"
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <unistd.h>
#include <dirent.h>
#include <pwd.h>
#include <sys/stat.h>
#include <onion/handlers/exportlocal.h>
extern int onion_use_sendfile;
static const char *R; static char *REAL; static int Rkind, kind, gone, unresolved, opened, dirs, inside_; static char *asked; static size_t asked_n; static size_t fpos; static int setup; static char *ent; static int ent_n, ent_pos, ent_kind, ent_gone;
const char *vf_onion_mime_get(const char *f) { return "text/x-test"; }
static void fill(struct stat *st, int k) { memset(st, 0, sizeof *st); st->st_size = 5; st->st_mode = k == 1 ? S_IFREG | 0644 : k == 2 ? S_IFDIR | 0755 : S_IFIFO | 0600; }
static int is_asked(const char *n) { return strlen(n) == asked_n && eqn(n, asked, asked_n); }
char *vf_realpath(const char *n, char *b) { const char *s; if (setup) { s = R; } else { CHECK(is_asked(n), "export: another path resolved"); if (unresolved) { errno = ENOENT; return NULL; } s = REAL; } size_t l = strlen(s); if (!b) b = malloc(l + 1); memcpy(b, s, l + 1); return b; }
static int st_of(const char *n, struct stat *st) { if (setup) { fill(st, Rkind); return 0; } size_t l = strlen(n), rl = strlen(REAL);
  if (dirs == 1 && ent) { CHECK(l == rl + 1 + ent_n || !ent_n, "export: another entry examined"); if (ent_gone) { errno = ENOENT; return -1; } fill(st, ent_kind); return 0; }
  if (opened + dirs == 0 && is_asked(n)) { if (gone) { errno = ENOENT; return -1; } fill(st, kind); return 0; }
  CHECK(l == rl && eqn(n, REAL, rl), "export: another file examined"); CHECK(inside_, "export: a file outside the exported directory is examined"); fill(st, kind); return 0; }
int vf_stat(const char *n, struct stat *st) { return st_of(n, st); }
int vf_lstat(const char *n, struct stat *st) { return st_of(n, st); }
int vf_fstat(int fd, struct stat *st) { fill(st, kind); return 0; }
static void may(const char *n) { size_t rl = strlen(REAL); CHECK(strlen(n) == rl && eqn(n, REAL, rl), "export: opened something else than the resolved path"); CHECK(inside_, "export: opened outside the exported directory"); CHECK(!gone && !unresolved, "export: opened something that is not there"); }
int vf_open(const char *n, int fl, ...) { may(n); CHECK((fl & O_ACCMODE) == O_RDONLY, "export: opened for writing"); opened++; fpos = 0; return 50; }
ssize_t vf_read(int fd, void *d, size_t n) { if (n > 5 - fpos) n = 5 - fpos; memcpy(d, "hello" + fpos, n); fpos += n; return n; }
int vf_close(int fd) { CHECK(fd == 50, "export: close elsewhere"); return 0; }
static char dirobj[8]; static struct dirent de;
DIR *vf_opendir(const char *n) { may(n); dirs++; ent_pos = 0; return (DIR *)dirobj; }
#if MODE == 4
static int nm_len[MANY]; static int nm_at = -1; static void name(char *b, int i) { b[0] = 'Q'; b[1] = 'z'; b[2] = 'a' + i / 26; b[3] = 'a' + i % 26; for (int j = 4; j < nm_len[i]; j++) b[j] = 'x'; b[nm_len[i]] = 0; }
#endif
struct dirent *vf_readdir(DIR *d) { CHECK((char *)d == dirobj, "export: reading another directory");
#if MODE == 4
  if (ent_pos == MANY) return NULL; ent_n = nm_len[ent_pos]; name(de.d_name, ent_pos); ent_pos++; return &de;
#endif
 if (!ent || ent_pos++) return NULL; memcpy(de.d_name, ent, ent_n + 1); return &de; }
int vf_closedir(DIR *d) { dirs += 100; return 0; }
static struct passwd pw; struct passwd *vf_getpwuid(uid_t u) { pw.pw_name = "owner"; return &pw; }
char *vf_getenv(const char *n) { return NULL; }
static int inside(const char *r) { size_t l = strlen(R); if (l == 1) return 1; size_t n = strlen(r); if (n < l) return 0; for (size_t i = 0; i < l; i++) if (r[i] != R[i]) return 0; return n == l || r[l] == '/'; }
static long lastlive; static int own, hdrs, ftrs; static const char *shown; static void hdr(onion_response *r, const char *d) { CHECK(!hdrs && !ftrs && !strcmp(d, shown), "export: header for another directory"); hdrs++; onion_response_write0(r, "<i>head</i>"); } static void ftr(onion_response *r, const char *d) { CHECK(!ftrs && hdrs == (own != 2) && !strcmp(d, shown), "export: footer for another directory"); ftrs++; onion_response_write0(r, "<i>foot</i>"); }
extern void onion_handler_export_local_set_header(onion_handler *h, void (*r)(onion_response *, const char *)); extern void onion_handler_export_local_set_footer(onion_handler *h, void (*r)(onion_response *, const char *));
static onion_connection_status go(const char *path) { onion_request *r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = onion_low_strdup(path); r->GET = onion_dict_new(); onion_request_polish(r); const char *p = onion_request_get_path(r);
  if (Rkind == 1) { asked_n = strlen(R); memcpy(asked, R, asked_n + 1); } else { size_t a = strlen(R), b = strlen(p); memcpy(asked, R, a); asked[a] = '/'; memcpy(asked + a + 1, p, b + 1); asked_n = a + 1 + b; }
  setup = 1; onion_handler *h = onion_handler_export_local_new("given"); CHECK(h != NULL, "export: not created"); setup = 0; if (own) { shown = p; onion_handler_export_local_set_header(h, own == 2 ? NULL : hdr); onion_handler_export_local_set_footer(h, own == 3 ? NULL : ftr); } onion_response *res = onion_response_new(r); out_len = 0; onion_connection_status s = onion_handler_handle(h, r, res);
  if (s == OCS_NOT_PROCESSED) { CHECK(out_len == 0 && res->buffer_pos == 0, "export: output though declined"); onion_dict_free(res->headers); onion_low_free(res); } else onion_response_free(res); onion_request_free(r); onion_handler_free(h); return s; }
#if MODE == 2 || MODE == 4
// decodes the script text starting inside a literal opened by d, then the HTML in it
static int name_is(const char *o, size_t n, char d, const char *w, int wn) { char js[700]; int k = 0; size_t i = 0; for (;; i++) { if (i >= n || k > 690) return 0; unsigned char c = o[i]; if (c == (unsigned char)d) break; if (c == '\n' || c == '<') return 0; if (c == '\\') { c = o[++i]; if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c == 'r') c = '\r'; else if (c == 'b') c = 8; else if (c == 'f') c = 12; else if (c == 'u') { c = hexv(o[i + 3]) * 16 + hexv(o[i + 4]); i += 4; } } js[k++] = c; }
  char t[700]; int m = 0; for (int j = 0; j < k; j++) { if (js[j] == '<' || js[j] == '>') return 0; if (js[j] == '&') { static const char *E[] = { "&lt;", "&gt;", "&amp;", "&quot;", "&#39;", "&apos;" }; static const char C[] = "<>&\"''"; int q = 0; for (; q < 6; q++) { int l = strlen(E[q]); if (j + l <= k && !memcmp(js + j, E[q], l)) { t[m++] = C[q]; j += l - 1; break; } } if (q == 6) return 0; } else t[m++] = js[j]; }
  return m == wn + (ent_kind == 2) && eqn(t, w, wn) && (ent_kind != 2 || t[m - 1] == '/'); }
#endif
void harness(void) {
  asked = malloc(9000); onion_use_sendfile = 0; static const char *roots[] = { "/a", "/", "/a/f" };
  { onion_request *w = mkreq(); onion_response *res = onion_response_new(w); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(w); } base_live = sym_heap_live();
#if MODE == 1   // wherever the path resolves to
  int k = sym_pick(0, 2, "root"); R = roots[k]; Rkind = k == 2 ? 1 : 2; gone = sym_pick(0, 1, "gone"); unresolved = sym_pick(0, 1, "unresolved"); kind = sym_pick(1, 3, "kind");
  int n = sym_pick(0, RN, "reallen"); REAL = malloc(n + 2); REAL[0] = '/'; char t[RN]; if (n) sym_make(t, n, "real"); for (int i = 0; i < n; i++) { sym_assume(t[i] != 0); sym_assume(!((t[i] == '/') & ((i == 0 || t[i - 1] == '/') | (i == n - 1)))); REAL[1 + i] = t[i]; } REAL[n + 1] = 0; inside_ = inside(REAL); own = sym_pick(0, 3, "own");
  onion_connection_status s = go("/p/..");
  if (gone || unresolved || !inside_ || kind == 3) { CHECK(s == OCS_NOT_PROCESSED && !opened && !dirs, "export: something was served that should not"); sym_reach("declined"); }
  else { CHECK(s != OCS_NOT_PROCESSED, "export: a file of the exported directory was not served"); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len, "export: unreadable answer"); if (kind == 1) { CHECK(opened == 1 && !dirs && a.blen == 5 && !memcmp(a.body, "hello", 5), "export: other content"); sym_reach("file"); } else { CHECK(dirs == 101 && !opened && a.blen > 20, "export: no listing"); if (own) { CHECK(hdrs == (own != 2) && ftrs == (own != 3), "export: own header or footer not shown"); int f = 0; for (size_t i = 0; i + 11 <= a.blen; i++) { if (!memcmp(a.body + i, "<i>head</i>", 11)) f += 1; if (!memcmp(a.body + i, "<i>foot</i>", 11)) { CHECK(f == (own != 2), "export: footer before the header"); f += 10; } } CHECK(f == (own == 2 ? 10 : own == 3 ? 1 : 11), "export: own header or footer not sent"); sym_reach("own"); } sym_reach("listing"); } }
  free(REAL);
#elif MODE == 2   // names in listings are text
  R = "/a"; Rkind = kind = 2; REAL = "/a/Qd"; inside_ = 1; char *nm; int which = sym_pick(0, 1, "path"); ent_kind = sym_pick(1, 2, "entkind"); ent_gone = sym_pick(0, 1, "entgone");
  int n = sym_pick(1, NN, "len"); char t[NN]; sym_make(t, n, "name"); for (int i = 0; i < n; i++) sym_assume(t[i] != 0 && t[i] != '/' && t[i] != 'Q');
  char e[NN + 8]; memcpy(e, "Qz", 2); memcpy(e + 2, t, n); e[2 + n] = 0; ent = "Qzx"; ent_n = 3; if (!which) { ent = e; ent_n = n + 2; if (sym_pick(0, 1, "dot")) { e[0] = '.'; ent_gone = 0; } }
  char p[NN + 8]; p[0] = '/'; p[1] = 0; if (which) { memcpy(p + 1, t, n); p[1 + n] = 0; for (int i = 0; i < n; i++) sym_assume(t[i] != '?'); }
  onion_connection_status s = go(p); CHECK(s != OCS_NOT_PROCESSED && dirs == 101, "export: no listing"); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len, "export: unreadable answer");
  int lt = 0, gt = 0; for (size_t i = 0; i < a.blen; i++) { lt += a.body[i] == '<'; gt += a.body[i] == '>'; } 
  // the same page for harmless names
  char *sv = ent; int same_hidden = ent[0] == '.'; char *se = ent; int sn = ent_n; ent = same_hidden ? ".z" : "Qzx"; ent_n = same_hidden ? 2 : 3; dirs = 0; char q[NN + 2]; memset(q, 'y', NN + 2); q[0] = '/'; q[n + 1] = 0; onion_connection_status s2 = go(which ? q : "/"); answer b = client(out_buf, out_len, 0); int lt2 = 0, gt2 = 0; for (size_t i = 0; i < b.blen; i++) { lt2 += b.body[i] == '<'; gt2 += b.body[i] == '>'; }
  CHECK(lt == lt2 && gt == gt2, "export: a name adds markup to the page"); ent = se; ent_n = sn; dirs = 0; go(p); a = client(out_buf, out_len, 0);
  size_t at = 0; int found = 0; for (size_t i = 1; i + 1 < a.blen; i++) if (a.body[i] == 'Q' && a.body[i + 1] == 'z') { found++; at = i; }
  if (same_hidden) CHECK(!found, "export: hidden entry listed"); else if (ent_gone) CHECK(!found, "export: entry listed that is not there"); else { CHECK(found == 1, "export: entry not listed once"); char d = a.body[at - 1]; CHECK(d == '\'' || d == '"', "export: name outside a literal"); CHECK(name_is(a.body + at, a.blen - at, d, ent, ent_n), "export: the name does not read back as it is"); sym_reach("listed"); }
#elif MODE == 4   // many entries, one with a long name
  R = "/a"; Rkind = kind = 2; REAL = "/a/Qd"; inside_ = 1; ent_kind = sym_pick(1, 2, "entkind"); static const int L[] = { 5, 30, 64, 100, 128, 200, 255 }; for (int i = 0; i < MANY; i++) nm_len[i] = 4; nm_at = sym_pick(0, 1, "where") ? MANY - 1 : 0; nm_len[nm_at] = L[sym_pick(0, 6, "namelen")]; char b[300]; ent = b; ent_n = 4;
  onion_connection_status s = go("/"); CHECK(s != OCS_NOT_PROCESSED && dirs == 101, "export: no listing"); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len, "export: unreadable answer"); int seen = 0;
  for (size_t i = 1; i + 1 < a.blen; i++) if (a.body[i] == 'Q' && a.body[i + 1] == 'z') { CHECK(seen < MANY, "export: more entries than there are"); name(b, seen); CHECK(name_is(a.body + i, a.blen - i, a.body[i - 1], b, nm_len[seen]), "export: the name does not read back as it is"); seen++; }
  CHECK(seen == MANY, "export: an entry is missing in the listing"); sym_reach("listed");
#else   // very long paths
  R = "/a"; Rkind = kind = 2; REAL = "/a"; inside_ = 1; static const int L[] = { 1000, 4090, 4091, 4092, 4093, 4096, 4200 }; int l = L[sym_pick(0, 6, "len")]; char *p = malloc(l + 1); memset(p, 'p', l); p[0] = '/'; p[l] = 0; kind = sym_pick(1, 2, "kind"); int isf = sym_pick(0, 1, "isfile"); char *rr = malloc(PATH_MAX); if (isf) { memset(rr, 'r', PATH_MAX - 1); rr[0] = '/'; rr[PATH_MAX - 1] = 0; R = REAL = rr; Rkind = 1; kind = 1; }
  onion_connection_status s = go(p); if (!isf && 2 + l - 1 + 1 > PATH_MAX) CHECK(s == OCS_NOT_PROCESSED && !opened && !dirs, "export: a path too long to be looked up was served"); free(p); free(rr); sym_reach("long");
#endif
  CHECK(sym_heap_live() == base_live, "export: memory leaked"); free(asked); sym_reach("done");
}
