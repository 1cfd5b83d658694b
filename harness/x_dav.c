// WebDAV: what is touched for which request
#include "req.h"
#include "util.h"
#include "client.h"
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <libxml/xmlwriter.h>
#include <onion/handlers/webdav.h>
extern int onion_use_sendfile; extern int onion_webdav_default_check_permissions(const char *exported_path, const char *filename, onion_request *req);
#define TMPF "/tmp/up"
static char *okp[4], *bad[4]; static int nok, nbad, touched, method, renames, mkdirs, removes, chmods, opens, dirs, stats, fail; static char src[1200], dst[1200]; static int has_dst;
const char *vf_onion_mime_get(const char *f) { return "text/x-test"; }
static int granted(const char *p) { for (int i = 0; i < nok; i++) if (!strcmp(okp[i], p)) return 1; return 0; }
#ifdef MANY   // many entries, one of them with a long name
static int e_at, e_len; static void e_name(char *b, int i) { int n = 0; b[n++] = i % 5 == 3 ? '.' : 'e'; b[n++] = 'a' + i / 26; b[n++] = 'a' + i % 26; if (i == e_at) while (n < e_len) b[n++] = 'x'; b[n] = 0; }
static int is_ent(const char *p) { char b[300]; for (int i = 0; i < MANY; i++) { e_name(b, i); if (b[0] != '.' && !strcmp(b, p)) return 1; } return 0; }
#else
static int is_ent(const char *p) { return !strcmp(p, "ent"); }
#endif
static int below(const char *p) { for (int i = 0; i < nok; i++) { size_t l = strlen(okp[i]); if (dirs && !strncmp(okp[i], p, l) && p[l] == '/' && is_ent(p + l + 1)) return 1; } return 0; }
static void touch(const char *p, int writes) { touched++; CHECK(nbad == 0, "webdav: something is touched after the request was refused"); if (method == OR_PUT && !strcmp(p, TMPF)) return; if (!writes && below(p)) return; CHECK(granted(p), "webdav: a path that was not granted is touched"); }
static void fill(struct stat *st, int k) { memset(st, 0, sizeof *st); st->st_size = 0; st->st_mode = k ? S_IFDIR | 0755 : S_IFREG | 0640; }
static int isdir;
int vf_stat(const char *n, struct stat *st) { touch(n, 0); stats++; if (fail == 1) { errno = ENOENT; return -1; } fill(st, isdir); return 0; }
int vf_lstat(const char *n, struct stat *st) { return vf_stat(n, st); }
int vf_fstat(int fd, struct stat *st) { fill(st, isdir); return 0; }
int vf_open(const char *n, int fl, ...) { int w = (fl & O_ACCMODE) != O_RDONLY; touch(n, w); opens++; if (w) CHECK(method == OR_PUT || method == OR_MOVE, "webdav: a reading request writes"); if (fail == 2) { errno = EACCES; return -1; } return 50 + w; }
ssize_t vf_read(int fd, void *d, size_t n) { return 0; } ssize_t vf_write(int fd, const void *d, size_t n) { CHECK(fd == 51, "webdav: write elsewhere"); return n; } int vf_close(int fd) { return 0; }
int vf_remove(const char *n) { touch(n, 1); CHECK(method == OR_DELETE, "webdav: removed by another request"); removes++; if (fail) { errno = EACCES; return -1; } return 0; }
int vf_rmdir(const char *n) { return vf_remove(n); }
int vf_unlink(const char *n) { touch(n, 1); CHECK(method == OR_DELETE || method == OR_PUT || method == OR_MOVE, "webdav: removed by another request"); if (method == OR_DELETE) removes++; return 0; }
int vf_mkdir(const char *n, mode_t m) { touch(n, 1); CHECK(method == OR_MKCOL, "webdav: directory made by another request"); mkdirs++; if (fail) { errno = EEXIST; return -1; } return 0; }
int vf_chmod(const char *n, mode_t m) { touch(n, 1); CHECK(method == OR_PROPPATCH, "webdav: mode changed by another request"); CHECK((m & 07000 & ~0111) == 0 && (m & 0666) == (isdir ? 0644 : 0640), "webdav: more than the executable bit changed"); chmods++; return 0; }
int vf_rename(const char *a, const char *b) { touch(a, 1); touch(b, 1); CHECK(method == OR_PUT || method == OR_MOVE, "webdav: renamed by another request"); if (method == OR_PUT) CHECK(!strcmp(a, TMPF) && !strcmp(b, src), "webdav: PUT stores another file, or elsewhere"); else CHECK(!strcmp(a, src) && !strcmp(b, dst), "webdav: MOVE moves another file, or elsewhere"); renames++; if (fail) { errno = fail == 3 ? EXDEV : EACCES; return -1; } return 0; }
static char dirobj[8]; static struct dirent de; static int dpos;
DIR *vf_opendir(const char *n) { touch(n, 0); dirs++; dpos = 0; if (!isdir) { errno = ENOTDIR; return NULL; } return (DIR *)dirobj; }
struct dirent *vf_readdir(DIR *d) {
#ifdef MANY
  if (dpos == MANY) return NULL; e_name(de.d_name, dpos++); return &de;
#endif
  if (dpos == 2) return NULL; strcpy(de.d_name, dpos++ ? "ent" : ".hid"); return &de; }
int vf_closedir(DIR *d) { dirs = 100; return 0; }
char *vf_getenv(const char *n) { return NULL; }
// libxml2
static xmlNode nd[8]; static int nn; static xmlDoc doc_; static xmlBuffer buf_; 
#ifdef MANY
#define NHREF (MANY + 2)
#else
#define NHREF 4
#endif
static char hrefs[NHREF][1300]; static int nh;
static xmlNode *node(const char *name) { xmlNode *n = &nd[nn++]; memset(n, 0, sizeof *n); n->name = BAD_CAST name; return n; }
static const char *pickname(const char *a, const char *b) { int k = method == OR_PROPFIND ? 2 * sym_pick(0, 1, "node") : sym_pick(0, 2, "node"); return k == 0 ? a : k == 1 ? b : "text"; }
static int pvalue, docs; // 0 none, 1 no text, 2.. text
xmlDocPtr vf_xmlParseMemory(const char *b, int n) { sym_assert(sym_readable(b, n), "webdav: content over-read"); if (!sym_pick(0, 1, "xml")) return NULL; docs++; return &doc_; }
static int xdepth;
xmlNodePtr vf_xmlDocGetRootElement(const xmlDoc *d) { if (!d) return NULL; nn = 0; xmlNode *r = node(pickname("propfind", "propertyupdate")); if (!sym_pick(0, 1, "kid")) return r; xmlNode *a = node(pickname("prop", "set")); r->children = a; if (!sym_pick(0, 1, "kid")) return r;
  xmlNode *p = node(pickname("prop", "executable")); a->children = p; if (!sym_pick(0, 1, "kid")) return r; static const char *N[] = { "executable", "resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "other" }; xmlNode *e = node(N[method == OR_PROPFIND ? sym_pick(7, 8, "prop") : sym_pick(0, 8, "prop")]); p->children = e; pvalue = method == OR_PROPPATCH ? sym_pick(0, 4, "value") : 0; if (pvalue) { xmlNode *t = node("text"); e->children = t; static const char *V[] = { 0, 0, "T", "f", "" }; t->content = BAD_CAST V[pvalue]; } return r; }
void vf_xmlFreeDoc(xmlDocPtr d) { if (d) docs--; }
void vf_xmlInitParser(void) {} void vf_xmlCleanupParser(void) {} void vf_xmlMemoryDump(void) {} void vf_xmlCheckVersion(int v) {}
xmlBufferPtr vf_xmlBufferCreate(void) { buf_.content = BAD_CAST "<ok/>"; return &buf_; } void vf_xmlBufferFree(xmlBufferPtr b) {}
static char wr[8]; xmlTextWriterPtr vf_xmlNewTextWriterMemory(xmlBufferPtr b, int c) { return (xmlTextWriterPtr)wr; } void vf_xmlFreeTextWriter(xmlTextWriterPtr w) {}
int vf_xmlTextWriterStartDocument(xmlTextWriterPtr w, const char *v, const char *e, const char *s) { return 0; } int vf_xmlTextWriterEndDocument(xmlTextWriterPtr w) { return 0; }
int vf_xmlTextWriterStartElement(xmlTextWriterPtr w, const xmlChar *n) { return 0; } int vf_xmlTextWriterEndElement(xmlTextWriterPtr w) { return 0; } int vf_xmlTextWriterWriteAttribute(xmlTextWriterPtr w, const xmlChar *n, const xmlChar *c) { return 0; }
int vf_xmlTextWriterWriteElement(xmlTextWriterPtr w, const xmlChar *n, const xmlChar *c) { size_t l = strlen((const char *)c); if (!strcmp((const char *)n, "D:href") && nh < NHREF && l < 1300) { char *o = hrefs[nh++]; for (size_t i = 0; i < l; i++) { if (c[i] == '%' && i + 2 < l + 0 && hexv(c[i + 1]) >= 0 && hexv(c[i + 2]) >= 0) { *o++ = hexv(c[i + 1]) * 16 + hexv(c[i + 2]); i += 2; } else *o++ = c[i]; } *o = 0; } return 0; }
static int refuse_first, refuse_second;
static int perm(const char *exported, const char *filename, onion_request *req) { CHECK(!strcmp(exported, "/r"), "webdav: another root given to the permission check"); int d = has_dst && !strcmp(filename, dst), s = !strcmp(filename, src); CHECK(s || d, "webdav: permission asked for another file"); int no = s && d ? refuse_first | refuse_second : s ? refuse_first : refuse_second; char *c = strdup(filename); if (no) bad[nbad++ & 3] = c; else { okp[nok & 3] = c; if (nok < 4) nok++; } return no ? 1 + sym_pick(0, 1, "how") : 0; }
#if MODE == 2
static const char *BASE; static char *F, *PAR; static int f_res, l_exists, p_res; static const char *file_name; static char want_par[16];
char *vf_realpath(const char *n, char *b) { const char *s; if (!strcmp(n, "base")) { s = BASE; } else if (!strcmp(n, file_name)) { if (!f_res) { errno = ENOENT; return NULL; } s = F; } else { CHECK(!strcmp(n, want_par), "webdav: another path resolved"); if (!p_res) { errno = ENOENT; return NULL; } s = PAR; } char *r = malloc(strlen(s) + 1); strcpy(r, s); return r; }
static char *canon(int max, const char *nm) { int n = sym_pick(0, max, "len"); char *r = malloc(n + 2); r[0] = '/'; char t[8]; if (n) sym_make(t, n, nm); for (int i = 0; i < n; i++) { sym_assume(t[i] != 0); sym_assume(!((t[i] == '/') & ((i == 0 || t[i - 1] == '/') | (i == n - 1)))); r[1 + i] = t[i]; } r[n + 1] = 0; return r; }
static int in(const char *r) { size_t l = strlen(BASE); if (l == 1) return 1; size_t n = strlen(r); if (n < l) return 0; for (size_t i = 0; i < l; i++) if (r[i] != BASE[i]) return 0; return n == l || r[l] == '/'; }
#endif
void harness(void) {
  onion_use_sendfile = 0; warm();
#if MODE == 1
  static const int M[] = { OR_GET, OR_HEAD, OR_OPTIONS, OR_PROPFIND, OR_PUT, OR_DELETE, OR_MOVE, OR_MKCOL, OR_PROPPATCH, OR_POST }; method = M[METHOD];
  onion_handler *h = onion_handler_webdav("/r", perm); CHECK(h != NULL, "webdav: not created"); long before = sym_heap_live();
  int n = sym_pick(0, PN, "len"); char p[PN + 1]; if (n) sym_make(p, n, "path"); for (int i = 0; i < n; i++) sym_assume(p[i] != 0); p[n] = 0; static const char *pre[] = { "/", "/w/" }; int pi = sym_pick(0, 1, "prefix"); int pl = strlen(pre[pi]);
  char full[PN + 8]; memcpy(full, pre[pi], pl); memcpy(full + pl, p, n + 1); memcpy(src, "/r/", 3); memcpy(src + 3, p, n + 1);
  onion_request *r = mkreq(); r->flags |= method | OR_HTTP11; r->fullpath = onion_low_strdup(full); r->GET = onion_dict_new(); onion_request_polish(r); r->path = r->fullpath + pl;
  refuse_first = sym_pick(0, 1, "refuse"); refuse_second = 0; fail = refuse_first ? 0 : sym_pick(0, 3, "fail"); isdir = sym_pick(0, 1, "dir"); int outside = 0, data = sym_pick(0, 1, "data"); if (data && method != OR_MOVE) { r->data = onion_block_new(); onion_block_add_str(r->data, TMPF); }
  if (method == OR_MOVE) { int dk = sym_pick(0, 4, "dest"); refuse_second = sym_pick(0, 1, "refuse2"); char d[64]; size_t k = 0;
    if (dk == 1 || dk == 2) { k = sprintf(d, dk == 1 ? "http://h%s" : "https://u:p@h:8%s", pre[pi]); int m = sym_pick(0, DN, "dlen"); char t[DN]; if (m) sym_make(t, m, "destination"); for (int i = 0; i < m; i++) sym_assume(t[i] != 0 && t[i] != '%' && t[i] != '+'); memcpy(d + k, t, m); d[k + m] = 0; memcpy(dst, "/r/", 3); memcpy(dst + 3, t, m); dst[3 + m] = 0; has_dst = 1; }
    else if (dk == 3) { int e = sym_pick(0, 1, "enc"); sprintf(d, "http://h%s%s", pre[pi], e ? "..%2fA%41" : "%2e%2e/x"); strcpy(dst, e ? "/r/../AA" : "/r/../x"); has_dst = 1; }
    else if (dk == 4) { int m = sym_pick(0, 5, "dlen"); sym_make(d, 6, "destination"); for (int i = 0; i < m; i++) sym_assume(d[i] != 0 && d[i] != '%'); d[m] = 0; outside = 1; }
    if (dk) onion_dict_add(r->headers, "Destination", d, OD_DUP_ALL); if (dk == 4) { memcpy(dst, "/r/", 3); int sl = 0, i = 0; while (d[i] && sl < 3) sl += d[i++] == '/'; if (sl == 3 && !strncmp(d + i - 1, pre[pi], pl)) { has_dst = 1; outside = 0; strcpy(dst + 3, d + i - 1 + pl); for (int j = 0; dst[j]; j++) sym_assume(dst[j] != '%' && dst[j] != '+'); } } }
  int depth = 0; if (method == OR_PROPFIND) { depth = sym_pick(0, 4, "depth"); static const char *D[] = { "0", "1", "infinity", "x" }; if (depth < 4) onion_dict_add(r->headers, "Depth", D[depth], OD_DUP_ALL); }
  onion_response *res = onion_response_new(r); out_len = 0; onion_connection_status s = onion_handler_handle(h, r, res); int flushed = 0; if (s == OCS_PROCESSED || s == OCS_KEEP_ALIVE) { onion_response_free(res); flushed = 1; } else { onion_dict_free(res->headers); onion_low_free(res); }
  int cd = flushed && out_len > 12 ? (out_buf[9] - '0') * 100 + (out_buf[10] - '0') * 10 + out_buf[11] - '0' : 0; if (flushed) { answer a = client(out_buf, out_len, method == OR_HEAD); CHECK(a.ok && a.used == out_len, "webdav: unreadable answer"); }
  CHECK(nok + nbad > 0, "webdav: permission was not asked"); CHECK(docs == 0, "webdav: document not released");
  if (nbad) { CHECK(!touched, "webdav: something was touched before it was refused"); CHECK(cd == 403, "webdav: a refused request is not answered as forbidden"); sym_reach("refused"); }
  else { sym_reach("granted");
    if (method == OR_DELETE) CHECK(removes == 1 && cd == (fail ? 500 : 200), "webdav: delete not done or wrongly reported");
    if (method == OR_MKCOL) CHECK(mkdirs == 1 && cd == (fail ? 403 : 201), "webdav: directory not made or wrongly reported");
    if (method == OR_PUT) { if (data) CHECK(renames == 1 && (fail ? fail == 3 || cd != 201 : cd == 201), "webdav: file not stored or wrongly reported"); else CHECK(cd != 201 && !touched, "webdav: something stored for nothing"); }
    if (method == OR_MOVE) { if (has_dst) CHECK(renames == 1 && (fail ? fail == 3 || cd != 201 : cd == 201), "webdav: file not moved or wrongly reported"); else CHECK(!touched && cd != 201, "webdav: moved to nowhere"); }
    if (method == OR_PROPFIND && cd == 207) { CHECK(stats && nh >= 1, "webdav: properties of nothing"); int plain = 1; for (int i = 0; i < n; i++) plain &= p[i] != '/'; if (plain) { size_t l = strlen(hrefs[0]); while (l && hrefs[0][l - 1] == '/') l--; size_t fl = strlen(full); while (fl && full[fl - 1] == '/') fl--; CHECK(l == fl && eqn(hrefs[0], full, fl), "webdav: properties under another address"); } CHECK(nh == (depth == 1 && isdir && fail != 1 ? 2 : 1), "webdav: other entries than asked for"); sym_reach("properties"); }
    if (method == OR_PROPPATCH && chmods) { CHECK(pvalue >= 2, "webdav: mode changed without value"); sym_reach("patched"); }
    if (method == OR_OPTIONS || method == OR_POST) CHECK(!touched, "webdav: something touched for nothing"); }
  for (int i = 0; i < nok; i++) free(okp[i]); for (int i = 0; i < nbad; i++) free(bad[i]);
  onion_request_free(r); CHECK(sym_heap_live() == before, "webdav: memory leaked"); onion_handler_free(h);
#elif MODE == 4
  method = OR_PROPFIND; onion_handler *h = onion_handler_webdav("/r", perm); long before = sym_heap_live(); isdir = 1; e_at = sym_pick(0, 1, "where") ? MANY - 1 : 0; static const int L[] = { 3, 30, 64, 100, 128, 200, 255 }; e_len = L[sym_pick(0, 6, "namelen")]; static const int PL[] = { 1, 64, 200 }; int pl = PL[sym_pick(0, 2, "pathlen")]; char p[300]; p[0] = '/'; memset(p + 1, 'p', pl); p[1 + pl] = 0; int slash = sym_pick(0, 1, "slash"); if (slash) { p[1 + pl] = '/'; p[2 + pl] = 0; }
  strcpy(src, "/r/"); strcat(src, p + 1); onion_request *r = mkreq(); r->flags |= method | OR_HTTP11; r->fullpath = onion_low_strdup(p); r->GET = onion_dict_new(); onion_request_polish(r); r->path = r->fullpath + 1; onion_dict_add(r->headers, "Depth", "1", OD_DUP_ALL);
  onion_response *res = onion_response_new(r); out_len = 0; onion_connection_status s = onion_handler_handle(h, r, res); CHECK(s == OCS_PROCESSED, "webdav: not answered"); onion_response_free(res); CHECK(!memcmp(out_buf + 9, "207", 3), "webdav: properties not answered");
  int k = 1; char b[300], w[700]; for (int i = 0; i < MANY; i++) { e_name(b, i); if (b[0] == '.') continue; strcpy(w, p); if (!slash) strcat(w, "/"); strcat(w, b); if (k < nh) { char *o = hrefs[k]; size_t l = 0; for (size_t j = 0; o[j]; j++) if (!(o[j] == '/' && l && o[l - 1] == '/')) o[l++] = o[j]; while (l && o[l - 1] == '/') l--; CHECK(l == strlen(w) && eqn(o, w, l), "webdav: entry under another address"); } k++; } CHECK(nh == k, "webdav: other entries than there are"); sym_reach("listed");
  for (int i = 0; i < nok; i++) free(okp[i]); onion_request_free(r); CHECK(sym_heap_live() == before, "webdav: memory leaked"); onion_handler_free(h);
#elif MODE == 2
  static const char *B[] = { "/", "/a" }; BASE = B[sym_pick(0, 1, "base")]; F = canon(RN, "file"); PAR = canon(RN, "parent"); f_res = sym_pick(0, 1, "resolves"); l_exists = f_res ? 1 : sym_pick(0, 1, "link"); p_res = sym_pick(0, 1, "parentresolves"); static const char *FN[] = { "base/x", "base/s/y", "base/..", "base/../z", "base/" }; static const char *PP[] = { "base", "base/s", "base", "base/..", "." }; int k = sym_pick(0, 3, "name"); file_name = FN[k]; strcpy(want_par, PP[k]);
  okp[0] = (char *)file_name; nok = 1; fail = l_exists ? 0 : 1; if (!strcmp(want_par, "base")) p_res = 1; 
  int v = onion_webdav_default_check_permissions("base", file_name, NULL); int up = k == 2 || k == 3; const char *par = !strcmp(want_par, "base") ? BASE : PAR;
  int good = f_res ? in(F) : !l_exists && p_res && in(par);
  if (v == 0) { CHECK(good, "webdav: granted outside of the root"); sym_reach("inside"); } else { CHECK(!good || up, "webdav: a file of the root is refused"); sym_reach("outside"); } free(F); free(PAR);
#else
  static const int L[] = { 400, 500, 508, 509, 510, 511, 512, 600, 1100 }; int l = L[sym_pick(0, 8, "len")], mi = sym_pick(0, 3, "method"); static const int M[] = { OR_GET, OR_DELETE, OR_PROPFIND, OR_MOVE }; method = M[mi]; onion_handler *h = onion_handler_webdav("/r", perm); long before = sym_heap_live(); isdir = 1;
  char *p = malloc(l + 2); p[0] = '/'; memset(p + 1, 'p', l); p[l + 1] = 0; int ml = method == OR_MOVE; const char *path = ml ? "/s" : p; strcpy(src, "/r/"); strcat(src, path + 1); onion_request *r = mkreq(); r->flags |= method | OR_HTTP11; r->fullpath = onion_low_strdup(path); r->GET = onion_dict_new(); onion_request_polish(r); r->path = r->fullpath + 1; char hd[1200]; if (ml) { strcpy(hd, "http://h"); strcat(hd, p); onion_dict_add(r->headers, "Destination", hd, OD_DUP_ALL); strcpy(dst, "/r/"); strcat(dst, p + 1); has_dst = 1; } if (method == OR_PROPFIND) onion_dict_add(r->headers, "Depth", "1", OD_DUP_ALL);
  onion_response *res = onion_response_new(r); out_len = 0; onion_connection_status s = onion_handler_handle(h, r, res); if (s == OCS_PROCESSED) onion_response_free(res); else { onion_dict_free(res->headers); onion_low_free(res); } if (l + 3 < 500) CHECK(touched, "webdav: refused without reason"); for (int i = 0; i < nok; i++) free(okp[i]); onion_request_free(r); free(p); CHECK(sym_heap_live() == before, "webdav: memory leaked"); onion_handler_free(h); sym_reach("long");
#endif
  CHECK(sym_heap_live() == base_live, "webdav: memory leaked"); sym_reach("done");
}
