// WebDAV: what is told about the resources (PROPFIND) and what PROPPATCH changes
#include "req.h"
#include "util.h"
#include "client.h"
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <libxml/xmlwriter.h>
#include <onion/handlers/webdav.h>
#include <onion/shortcuts.h>
#ifndef NN
#define NN 1
#endif
// the share: one resource, if it is a directory with three entries, one hidden
typedef struct { int dir; mode_t mode; long size; time_t mtime; } thing; static thing self, ent[2]; static char ename[2][NN + 2]; static char path_[16]; static int missing, no_dir, chmods, chmod_fail; static mode_t chmod_to;
static void fill(struct stat *st, thing *t) { memset(st, 0, sizeof *st); st->st_mode = (t->dir ? S_IFDIR : S_IFREG) | t->mode; st->st_size = t->size; st->st_mtime = t->mtime; st->st_ctime = t->mtime + 9; st->st_atime = t->mtime + 17; st->st_nlink = 1; st->st_ino = 77; st->st_blocks = 3; }
int vf_stat(const char *n, struct stat *st) { if (!strcmp(n, path_)) { if (missing) { errno = ENOENT; return -1; } fill(st, &self); return 0; } size_t l = strlen(path_); CHECK(strlen(n) >= l && eqn(n, path_, l), "webdav: another place is asked for"); const char *e = n + l; while (*e == '/') e++; for (int i = 0; i < 2; i++) if (!strcmp(e, ename[i])) { fill(st, &ent[i]); return 0; } CHECK(0, "webdav: properties of something that does not exist"); return -1; }
int vf_lstat(const char *n, struct stat *st) { return vf_stat(n, st); }
int vf_chmod(const char *n, mode_t m) { CHECK(!strcmp(n, path_), "webdav: mode of another file"); chmods++; chmod_to = m; if (chmod_fail) { errno = EPERM; return -1; } return 0; }
static char dirobj[8]; static struct dirent de; static int dpos, dopen, has_ent;
DIR *vf_opendir(const char *n) { CHECK(!strcmp(n, path_), "webdav: another directory is listed"); if (!self.dir || no_dir) { errno = ENOTDIR; return NULL; } dpos = 0; dopen++; return (DIR *)dirobj; }
struct dirent *vf_readdir(DIR *d) { if (dpos == 5) return NULL; int i = dpos++; strcpy(de.d_name, i == 0 ? "." : i == 1 ? ".." : i == 3 ? ".hid" : i == 2 ? ename[0] : ename[1]); return &de; }
int vf_closedir(DIR *d) { dopen--; return 0; }
struct tm *vf_gmtime_r(const time_t *t, struct tm *tm) { memset(tm, 0, sizeof *tm); tm->tm_sec = (int)*t; return tm; }
struct tm *vf_localtime_r(const time_t *t, struct tm *tm) { memset(tm, 0, sizeof *tm); tm->tm_sec = (int)*t + 3600; return tm; }
static void when(char *b, int iso, unsigned t) { b[0] = iso ? 'I' : 'R'; for (int i = 0; i < 8; i++) b[1 + i] = 'a' + (t >> (28 - 4 * i) & 15); b[9] = 0; }
size_t vf_strftime(char *b, size_t max, const char *f, const struct tm *tm) { when(b, strstr(f, "%a") == NULL, (unsigned)tm->tm_sec); return 9; }
// what libxml2 writes: a tree
typedef struct { char name[24], ns[3][2][40]; int nns; char *text; int up; } node_; static node_ t[120]; static int tn, cur = -1, started, ended; static char wr[8]; static xmlBuffer buf_; static int bufs, wrs;
static int add(const char *n) { CHECK(started && !ended, "webdav: written outside of the document"); CHECK(tn < 120 && strlen(n) < 24, "webdav: too much"); CHECK(cur >= 0 || tn == 0, "webdav: a document with two roots"); t[tn].up = cur; strcpy(t[tn].name, n); t[tn].nns = 0; t[tn].text = NULL; return tn++; }
xmlBufferPtr vf_xmlBufferCreate(void) { bufs++; buf_.content = BAD_CAST ""; return &buf_; } void vf_xmlBufferFree(xmlBufferPtr b) { bufs--; buf_.content = NULL; }
xmlTextWriterPtr vf_xmlNewTextWriterMemory(xmlBufferPtr b, int c) { wrs++; return (xmlTextWriterPtr)wr; } void vf_xmlFreeTextWriter(xmlTextWriterPtr w) { wrs--; buf_.content = BAD_CAST "<all/>"; }
int vf_xmlTextWriterStartDocument(xmlTextWriterPtr w, const char *v, const char *e, const char *s) { started = 1; return 0; } int vf_xmlTextWriterEndDocument(xmlTextWriterPtr w) { cur = -1; ended = 1; return 0; }
int vf_xmlTextWriterStartElement(xmlTextWriterPtr w, const xmlChar *n) { cur = add((const char *)n); return 0; } int vf_xmlTextWriterEndElement(xmlTextWriterPtr w) { if (cur < 0) return -1; cur = t[cur].up; return 0; } int vf_xmlTextWriterFullEndElement(xmlTextWriterPtr w) { return vf_xmlTextWriterEndElement(w); }
int vf_xmlTextWriterWriteAttribute(xmlTextWriterPtr w, const xmlChar *n, const xmlChar *c) { CHECK(cur >= 0, "webdav: attribute of nothing"); if (!strncmp((const char *)n, "xmlns:", 6)) { node_ *x = &t[cur]; CHECK(x->nns < 3 && strlen((const char *)c) < 40, "webdav: too many name spaces"); strcpy(x->ns[x->nns][0], (const char *)n + 6); strcpy(x->ns[x->nns++][1], (const char *)c); } return 0; }
int vf_xmlTextWriterWriteString(xmlTextWriterPtr w, const xmlChar *c) { CHECK(cur >= 0, "webdav: text outside"); t[cur].text = strdup((const char *)c); return 0; }
int vf_xmlTextWriterWriteElement(xmlTextWriterPtr w, const xmlChar *n, const xmlChar *c) { int i = add((const char *)n); t[i].text = strdup((const char *)c); return 0; }
void vf_xmlInitParser(void) {} void vf_xmlCleanupParser(void) {} void vf_xmlMemoryDump(void) {} void vf_xmlCheckVersion(int v) {}
// the document of the request
static xmlNode nd[16]; static int nn, docs; static xmlDoc doc_; static xmlNode *root_;
static xmlNode *node(const char *name) { xmlNode *n = &nd[nn++]; memset(n, 0, sizeof *n); n->name = BAD_CAST name; return n; }
xmlDocPtr vf_xmlParseMemory(const char *b, int n) { CHECK(n == 6 && eqn(b, "<req/>", 6), "webdav: another document is read"); docs++; return &doc_; } xmlNodePtr vf_xmlDocGetRootElement(const xmlDoc *d) { return d ? root_ : NULL; } void vf_xmlFreeDoc(xmlDocPtr d) { if (d) docs--; }
// reading the tree
static int isn(int i, const char *local, const char *ns) { const char *c = strchr(t[i].name, ':'); if (strcmp(c ? c + 1 : t[i].name, local)) return 0; size_t l = c ? c - t[i].name : 0; for (int k = i; k >= 0; k = t[k].up) for (int j = 0; j < t[k].nns; j++) if (strlen(t[k].ns[j][0]) == l && eqn(t[k].ns[j][0], t[i].name, l)) { CHECK(!strcmp(t[k].ns[j][1], ns), "webdav: a name of another name space"); return 1; } CHECK(0, "webdav: a name space that is not declared"); return 0; }
static int kids(int p, const char *local, const char *ns, int *first) { int n = 0; for (int i = 0; i < tn; i++) if (t[i].up == p && isn(i, local, ns)) { if (!n++ && first) *first = i; } return n; }
static int allkids(int p) { int n = 0; for (int i = 0; i < tn; i++) n += t[i].up == p; return n; }
static const char *PN_[] = { "resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "executable" };
// where a client gets to with this address: no doubled or final slashes
static size_t leads(const char *h, char *o) { size_t n = 0; for (size_t i = 0; h[i] && h[i] != '?' && h[i] != '#'; i++) { CHECK((unsigned char)h[i] > ' ', "webdav: an address with control characters or spaces"); char c = h[i]; if (c == '%') { int a = hexv(h[i + 1]), b = a < 0 ? -1 : hexv(h[i + 2]); CHECK(b >= 0, "webdav: a broken address"); c = a * 16 + b; i += 2; } if (c == '/' && n && o[n - 1] == '/') continue; o[n++] = c; } while (n > 1 && o[n - 1] == '/') n--; o[n] = 0; return n; }
static void describe(int r, thing *x, const char *where, int asked) {
  int h, okp = -1, nop = -1, s, p; CHECK(kids(r, "href", "DAV:", &h) == 1 && t[h].text, "webdav: a resource without address"); char g[64]; size_t l = leads(t[h].text, g); CHECK(l == strlen(where) && eqn(g, where, l), "webdav: the address leads elsewhere");
  for (int i = 0; i < tn; i++) if (t[i].up == r && isn(i, "propstat", "DAV:")) { CHECK(kids(i, "status", "DAV:", &s) == 1 && t[s].text && kids(i, "prop", "DAV:", &p) == 1 && allkids(i) == 2, "webdav: properties without status"); if (strstr(t[s].text, " 200 ")) { CHECK(okp < 0, "webdav: two sets"); okp = p; } else { CHECK(strstr(t[s].text, " 404 ") && nop < 0, "webdav: another status"); nop = p; } }
  char b[64]; struct stat st; fill(&st, x); int nok = 0, nno = 0;
  for (int k = 0; k < 8; k++) { const char *ns = k == 7 ? "http://apache.org/dav/props/" : "DAV:"; int f = -1, m = okp < 0 ? 0 : kids(okp, PN_[k], ns, &f), q = nop < 0 ? 0 : kids(nop, PN_[k], k == 7 ? "http://apache.org/dav/props/" : "DAV:", NULL); nok += m; nno += q; int has = k == 1 || k == 7 ? !x->dir : k == 5 ? x->dir : k != 6; const char *w = NULL;
    if (!(asked >> k & 1)) { CHECK(!m && !q, "webdav: a property that was not asked for"); continue; } if (!has) { CHECK(!m, "webdav: a property the resource does not have"); if (k != 7) CHECK(q == 1, "webdav: a missing property is not told"); continue; } CHECK(m == 1 && q == 0, "webdav: a property is missing");
    if (k == 0) { CHECK(kids(f, "collection", "DAV:", NULL) == x->dir && allkids(f) == x->dir, "webdav: another type of resource"); continue; }
    if (k == 1) { snprintf(b, sizeof b, "%ld", x->size); w = b; } else if (k == 2 || k == 3) { when(b, k == 3, (unsigned)x->mtime); w = b; } else if (k == 4) { onion_shortcut_etag(&st, b); w = b; } else if (k == 5) w = "httpd/unix-directory"; else w = x->mode & 0111 ? "true" : "false";
    CHECK(t[f].text && !strcmp(t[f].text, w) && allkids(f) == 0, "webdav: another value of a property"); }
  if (okp >= 0) CHECK(allkids(okp) == nok, "webdav: unknown properties"); if (nop >= 0) CHECK(allkids(nop) == nno, "webdav: unknown properties");
  if (asked & 0x1d) sym_reach("told"); }
static int perm(const char *exported, const char *filename, onion_request *req) { return 0; }
static onion_request *request(int method, const char *pre, const char *p) { onion_request *r = mkreq(); r->flags |= method | OR_HTTP11; char full[32]; strcpy(full, pre); strcat(full, p); strcpy(path_, "/r/"); strcat(path_, p); r->fullpath = onion_low_strdup(full); r->GET = onion_dict_new(); onion_request_polish(r); r->path = r->fullpath + strlen(pre); return r; }
static int answered(onion_handler *h, onion_request *r) { onion_response *res = onion_response_new(r); out_len = 0; onion_connection_status s = onion_handler_handle(h, r, res); int cd; if (s == OCS_PROCESSED || s == OCS_KEEP_ALIVE || s == OCS_CLOSE_CONNECTION) { onion_response_free(res); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len, "webdav: unreadable answer"); cd = (out_buf[9] - '0') * 100 + (out_buf[10] - '0') * 10 + out_buf[11] - '0'; if (cd == 207) CHECK(a.blen == 6 && eqn(a.body, "<all/>", 6), "webdav: the document is not sent whole"); } else { onion_dict_free(res->headers); onion_low_free(res); cd = 500; } CHECK(docs == 0 && bufs == 0 && wrs == 0 && dopen == 0, "webdav: something is not released"); return cd; }
static thing some(int k) { static const long S[] = { 0, 7, 5000000000L }; static const mode_t M[] = { 0640, 0755, 0601, 0610 }; thing x = { k & 1, M[(k >> 1) & 3], S[k % 3], 1000000000 + 86400 * k }; return x; }
void harness(void) {
  warm(); onion_handler *h = onion_handler_webdav("/r", perm); CHECK(h != NULL, "webdav: not created"); long before = sym_heap_live(); int reach = 0;
#if MODE == 1 || MODE == 2
  static const char *pre[] = { "/", "/w/" }; const char *pr = pre[sym_pick(0, 1, "prefix")]; char p[8];
#if MODE == 1
  int asked = sym_pick(0, 2, "how"), k = sym_pick(0, 7, "kind"); asked = asked ? 255 + asked : sym_pick(0, 255, "asked"); strcpy(p, "a.b"); self = some(k); ent[0] = some(k + 1); ent[1] = some(k + 2); strcpy(ename[0], "e"); strcpy(ename[1], "f"); int order = pr == pre[1], depth = sym_pick(0, 1, "depth"); no_dir = 0; missing = k == 7 && sym_pick(0, 1, "missing");
#else
  int asked = 1, depth = sym_pick(0, 1, "depth"), order = 0; self = some(1); ent[0] = some(0); ent[1] = some(1); int n = depth ? sym_pick(0, 1, "len") : sym_pick(0, NN, "len"); if (depth) { p[0] = 'd'; } else if (n) sym_make(p, n, "path"); p[n] = 0; for (int i = 0; i < n; i++) sym_assume(p[i] != 0 && p[i] != '/'); int m = depth ? sym_pick(1, NN, "elen") : 1; if (depth) sym_make(ename[0], m, "entry"); else ename[0][0] = 'e'; ename[0][m] = 0; for (int i = 0; i < m; i++) sym_assume(ename[0][i] != 0 && ename[0][i] != '/' && (i || ename[0][i] != '.')); strcpy(ename[1], "f"); sym_assume(strcmp(ename[0], "f"));
#endif
  onion_request *r = request(OR_PROPFIND, pr, p); onion_dict_add(r->headers, "Depth", depth ? "1" : "0", OD_DUP_ALL);
  if (asked != 256) { r->data = onion_block_new(); onion_block_add_str(r->data, "<req/>"); root_ = node("propfind"); xmlNode *tx = node("text"), *pn = node(asked == 257 ? "allprop" : "prop"); root_->children = order ? tx : pn; if (order) tx->next = pn; if (asked < 256) { xmlNode **last = &pn->children; if (order) { *last = node("text"); last = &(*last)->next; *last = node("unheard"); last = &(*last)->next; } for (int i = 0; i < 8; i++) { int b = order ? 7 - i : i; if (asked >> b & 1) { *last = node(PN_[b]); last = &(*last)->next; } } } } int mask = asked > 255 ? 255 : asked;
  int cd = answered(h, r); if (missing) { CHECK(cd == 404, "webdav: properties of nothing"); sym_reach("missing"); }
  else { CHECK(cd == 207, "webdav: the properties are not answered"); CHECK(tn && t[0].up == -1 && isn(0, "multistatus", "DAV:") && ended, "webdav: not a list of answers"); int want = 1 + (depth && self.dir ? 2 : 0), got = 0; for (int i = 1; i < tn; i++) if (t[i].up == 0) { CHECK(isn(i, "response", "DAV:"), "webdav: something that is not an answer"); char where[32]; strcpy(where, pr); strcat(where, p); if (got) { strcat(where, p[0] ? "/" : ""); strcat(where, ename[got - 1]); } else { size_t l = strlen(where); while (l > 1 && where[l - 1] == '/') where[--l] = 0; } CHECK(got < want, "webdav: more resources than there are"); describe(i, got ? &ent[got - 1] : &self, where, mask); got++; } CHECK(got == want, "webdav: resources are missing"); if (got > 1) sym_reach("entries"); }
#else
  self = some(sym_pick(0, 7, "kind")); onion_request *r = request(OR_PROPPATCH, "/", "a"); missing = sym_pick(0, 1, "missing"); chmod_fail = missing ? 0 : sym_pick(0, 1, "chmod"); int shape = sym_pick(0, 7, "shape"); unsigned char v[2]; sym_make(v, 1, "value"); v[1] = 0;
  if (shape != 7) { r->data = onion_block_new(); onion_block_add_str(r->data, "<req/>"); } root_ = node(shape == 1 ? "other" : "propertyupdate"); xmlNode *st = node(shape == 2 ? "remove" : "set"), *pr = node(shape == 3 ? "other" : "prop"), *e = node(shape == 4 ? "displayname" : "executable"), *tx = node("text"); root_->children = st; st->children = pr; pr->children = e; int sib = sym_pick(0, 1, "sib"); if (sib) { xmlNode *a = node("text"), *b = node("text"), *c = node("other"); root_->children = a; a->next = st; st->children = b; b->next = pr; pr->children = c; c->next = e; } if (shape != 5) { e->children = tx; tx->content = v; } int good = (shape == 0 || shape == 6) && !missing; if (shape == 6) v[0] = 'T';
  int cd = answered(h, r); CHECK(!good ? cd >= 400 && !chmods : chmods == 1, "webdav: a change that was not asked for, or not made"); if (good) { int on = v[0] == 'T' || v[0] == 't', off = v[0] == 'F' || v[0] == 'f'; if (on) { CHECK((chmod_to & 07777) == (self.mode | 0111), "webdav: not made executable, or more"); sym_reach("on"); } if (off) { CHECK((chmod_to & 07777) == (self.mode & ~0111), "webdav: not made plain, or more"); sym_reach("off"); } CHECK(chmod_fail ? cd >= 400 : cd >= 200 && cd < 300, "webdav: a change is reported wrongly"); }
#endif
  for (int i = 0; i < tn; i++) if (t[i].text) free(t[i].text); onion_request_free(r); CHECK(sym_heap_live() == before, "webdav: memory leaked"); onion_handler_free(h); CHECK(sym_heap_live() == base_live, "webdav: memory leaked"); sym_reach("done");
}
