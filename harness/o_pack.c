// packed files: what the generated handlers answer
#define PACK 1
#include <sys/stat.h>
#include <dirent.h>
#include <string.h>
static const char *req_path; static long nlen = -1; static int nct; static char ct[64];
static void set_length(long n) { nlen = n; } static void set_header(const char *k, const char *v) { if (strcmp(k, "Content-Type") == 0) { nct++; strncpy(ct, v, 63); } }
#include "ot.h"
int tool_main(int argc, char **argv);
static char got[ASIZE]; static int ngot;
static void out(const char *s, int n) { CHECK(ngot + n <= (int)sizeof got, "model: output"); memcpy(got + ngot, s, n); ngot += n; }
const char *vf_onion_mime_get(const char *f) { int n = strlen(f); return n > 2 && f[n - 2] == '.' && f[n - 1] == 'c' ? "text/x-c" : "text/plain"; }
#ifndef DIRS
static int nodir; int vf_stat(const char *p, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG; return 0; }
DIR *vf_opendir(const char *p) { CHECK(0, "tool: a file as directory"); return NULL; } struct dirent *vf_readdir(DIR *d) { return NULL; } int vf_closedir(DIR *d) { return 0; }
static char data[ASIZE];
// any content, any size: the handler answers exactly it
void harness(void) { static const int len[] = LENS; int n = len[sym_pick(0, sizeof len / sizeof *len - 1, "size")]; for (int i = 0; i < n; i++) data[i] = i * 7 + (i >> 8); sym_make(data, n < NSYM ? n : NSYM, "bytes");
  static const char *names[] = { "d/a.c", "b-1.txt", "x.y/A 9" }; static const char *fns_[] = { "opack_a_c", "opack_b_1_txt", "opack_A_9" }; int k = sym_pick(0, 2, "name"); char nm[32]; strcpy(nm, names[k]);
  mf_add(names[k], data, n, sizeof data); mf_add("o.c", outbuf, 0, sizeof outbuf); MF *a = mf_add("assets.h", assbuf, 0, sizeof assbuf); a->exists = 0; char *av[] = { "opack", "-o", "o.c", nm, "-a", "assets.h", NULL };
  int r = tool_main(6, av); CHECK(r == 0, "tool: packing fails"); for (int i = 0; i < nmf; i++) CHECK(!mf[i].open, "tool: leaves a file open");
  char decl[128]; sprintf(decl, "onion_connection_status %s(void *_, onion_request *req, onion_response *res);\n", fns_[k]); CHECK(strstr(assbuf, decl) != NULL, "tool: the header does not declare the handler");
  scan(outbuf); Fn *f = fn(fns_[k], strlen(fns_[k])); CHECK(f && f->body, "tool: the file has no handler"); V ar[3] = { ptr(NULL), ptr(NULL), ptr(NULL) }; V v = callfn(f, ar, 3);
  CHECK(v.k == 0 && v.n == 2, "tool: the handler of a packed file does not tell that the request is processed"); CHECK(ngot == n && memcmp(got, data, n) == 0, "tool: the packed file has other content"); CHECK(nlen < 0 || nlen == n, "tool: the length is not that of the file"); CHECK(nct == 1 && strcmp(ct, k == 0 ? "text/x-c" : "text/plain") == 0, "tool: other type"); sym_reach("done"); }
#else
// directories
typedef struct { const char *name, *path; int dir, at; } E; // at: directory it is in
static E es[] = { { "a", "d/a", 0, 0 }, { "b.c", "d/b.c", 0, 0 }, { "s", "d/s", 1, 0 }, { ".h", "d/.h", 0, 0 }, { "o~", "d/o~", 0, 0 }, { "q\"\\", "d/q\"\\", 0, 0 }, { "a", "d/s/a", 0, 1 }, { "t", "d/s/t", 1, 1 }, { "z", "d/s/t/z", 0, 2 }, { "s2", "d/s2", 0, 0 } };
#define NE 10
static int has[NE], rev; typedef struct { int at, i, open; struct dirent de; } D; static D ds[12]; static int nds, opened;
static int dirof(const char *p) { return strcmp(p, "d") == 0 ? 0 : strcmp(p, "d/s") == 0 ? 1 : strcmp(p, "d/s/t") == 0 ? 2 : -1; }
int vf_stat(const char *p, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = dirof(p) >= 0 ? S_IFDIR : S_IFREG; return 0; }
DIR *vf_opendir(const char *p) { int k = dirof(p); CHECK(k >= 0, "tool: opens as directory what is not"); CHECK(nds < 12, "model: directories"); D *d = &ds[nds++]; d->at = k; d->i = 0; d->open = 1; opened++; return (DIR *)d; }
struct dirent *vf_readdir(DIR *x) { D *d = (D *)x; CHECK(d->open, "tool: closed directory"); while (d->i < NE) { int k = rev ? NE - 1 - d->i : d->i; d->i++; if (has[k] && es[k].at == d->at) { strcpy(d->de.d_name, es[k].name); d->de.d_type = es[k].dir ? DT_DIR : DT_REG; return &d->de; } } return NULL; }
int vf_closedir(DIR *x) { D *d = (D *)x; CHECK(d->open, "tool: closed directory"); d->open = 0; opened--; return 0; }
static char cont[NE][4];
void harness(void) { for (int i = 0; i < NE; i++) { has[i] = i == 2 || i == 7 ? 1 : sym_pick(0, 1, "file"); cont[i][0] = 'A' + i; if (!es[i].dir && has[i]) mf_add(es[i].path, cont[i], 1 + i % 3, 4); } rev = sym_pick(0, 1, "order");
  mf_add("o.c", outbuf, 0, sizeof outbuf); MF *a = mf_add("assets.h", assbuf, 0, sizeof assbuf); a->exists = 0; char nm[] = "d"; char *av[] = { "opack", "-o", "o.c", "-a", "assets.h", nm, NULL }; int r = tool_main(6, av); CHECK(r == 0, "tool: packing fails"); for (int i = 0; i < nmf; i++) CHECK(!mf[i].open, "tool: leaves a file open"); CHECK(!opened, "tool: leaves a directory open");
  CHECK(strstr(assbuf, "onion_connection_status opack_d(void *_, onion_request *req, onion_response *res);\n") != NULL, "tool: the header does not declare the handler");
  static const char *paths[] = { "", "a", "a/", "aa", "b.c", "s", "s/", "s/a", "s/b.c", "s/t/z", "s/t/", "s/z", "sz", ".h", "o~", "q\"\\", "../a", "s2", "S/a" }; static const int want[] = { -1, 0, -1, -1, 1, -1, -1, 6, -1, 8, -1, -1, -1, -1, -1, 5, -1, 9, -1 };
  for (int p = 0; p < 19; p++) { char path[16]; strcpy(path, paths[p]); req_path = path; ngot = 0; nlen = -1; nct = 0; narr = 0; scan(outbuf); Fn *f = fn("opack_d", 7); CHECK(f && f->body, "tool: the directory has no handler"); V ar[3] = { ptr(NULL), ptr(NULL), ptr(NULL) }; V v = callfn(f, ar, 3); int w = want[p]; if (w >= 0 && !has[w]) w = -1;
    if (w < 0) { CHECK(v.k == 0 && v.n == 0, "tool: a file that was not packed is answered"); CHECK(!ngot, "tool: answers something for a file that was not packed"); sym_reach("none"); } else { CHECK(v.k == 0 && v.n == 2, "tool: a packed file is not answered"); CHECK(ngot == 1 + w % 3 && memcmp(got, cont[w], ngot) == 0, "tool: another file is answered"); sym_reach("file"); } } }
#endif
