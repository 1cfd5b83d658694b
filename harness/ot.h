// files as memory, and a small interpreter for the C that the compilers of templates and assets write
#ifndef OT_H
#define OT_H
#include "util.h"
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <onion/dict.h>
#ifndef NFILES
#define NFILES 4
#endif
#ifndef ASIZE
#define ASIZE 64
#endif
#ifndef FSIZE
#define FSIZE 16384
#endif
typedef struct { const char *name; char *d; int n, pos, cap, open, wr, exists; } MF;
static MF mf[NFILES]; static int nmf, file_faults;
static MF *mf_find(const char *n) { for (int i = 0; i < nmf; i++) if (strcmp(mf[i].name, n) == 0) return &mf[i]; return NULL; }
static MF *mf_add(const char *n, char *d, int len, int cap) { MF *f = &mf[nmf++]; f->name = n; f->d = d; f->n = len; f->cap = cap; f->exists = d != NULL && len >= 0; return f; }
static char outbuf[FSIZE], assbuf[FSIZE];
FILE *vf_fopen(const char *n, const char *m) { MF *f = mf_find(n); CHECK(f, "tool: opens a file nobody asked for"); CHECK(!f->open, "tool: opens a file twice"); if (file_faults > 0 && sym_pick(0, 1, "open fails")) { file_faults--; errno = EACCES; return NULL; } if (m[0] == 'r' && !f->exists) { errno = ENOENT; return NULL; } f->open = 1; f->wr = m[0] == 'w'; f->pos = 0; if (f->wr) { f->exists = 1; f->n = 0; } return (FILE *)f; }
#define MFO(f) MF *q = (MF *)(f); CHECK(q >= mf && q < mf + nmf && q->open, "tool: uses a file that is not open")
static int notfile(FILE *f) { return (MF *)f < mf || (MF *)f >= mf + nmf; }
int vf_fclose(FILE *f) { MFO(f); q->open = 0; return 0; }
int vf_fgetc(FILE *f) { MFO(f); CHECK(!q->wr, "tool: reads what it writes"); return q->pos < q->n ? (unsigned char)q->d[q->pos++] : EOF; }
int vf_getc(FILE *f) { return vf_fgetc(f); }
int vf__IO_getc(FILE *f) { return vf_fgetc(f); }
int vf_feof(FILE *f) { MFO(f); return q->pos >= q->n; }
int vf_ferror(FILE *f) { return 0; }
char *vf_fgets(char *b, int n, FILE *f) { MFO(f); int i = 0; if (q->pos >= q->n) return NULL; while (i < n - 1 && q->pos < q->n) { b[i++] = q->d[q->pos++]; if (b[i - 1] == '\n') break; } b[i] = 0; return b; }
size_t vf_fread(void *b, size_t s, size_t n, FILE *f) { MFO(f); size_t k = 0; while (k < s * n && q->pos < q->n) ((char *)b)[k++] = q->d[q->pos++]; return k / s; }
static void mf_put(FILE *f, const char *b, size_t n) { MFO(f); CHECK(q->wr, "tool: writes a file it reads"); CHECK(q->n + n < q->cap, "model: file too long"); memcpy(q->d + q->n, b, n); q->n += n; q->d[q->n] = 0; }
size_t vf_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (notfile(f)) return n; mf_put(f, b, s * n); return n; }
int vf_fputs(const char *s, FILE *f) { if (notfile(f)) return 0; mf_put(f, s, strlen(s)); return 0; }
int vf_fputc(int c, FILE *f) { if (notfile(f)) return c; char ch = c; mf_put(f, &ch, 1); return c; }
int vf_putc(int c, FILE *f) { return vf_fputc(c, f); }
int vf__IO_putc(int c, FILE *f) { return vf_fputc(c, f); }
int vf_vfprintf(FILE *f, const char *fm, va_list ap) { if (notfile(f)) return 0; va_list c; va_copy(c, ap); int n = vsnprintf(NULL, 0, fm, c); va_end(c); char *t = malloc(n + 1); vsnprintf(t, n + 1, fm, ap); mf_put(f, t, n); free(t); return n; }
int vf_fprintf(FILE *f, const char *fm, ...) { if (notfile(f)) return 0; va_list ap; va_start(ap, fm); int n = vf_vfprintf(f, fm, ap); va_end(ap); return n; }
void vf_perror(const char *s) { }
void vf_exit(int c) { sym_reach("exit"); sym_stop(); }
// ---------------------------------------------------------------- the language of the generated code
extern void generated_code_not_understood(const char *);   // not defined: the answer is "inconclusive", never an alarm
#define UNK(what) generated_code_not_understood(what)
typedef struct { int k; long n; const char *s; int len; } V;   // 0 number, 1 pointer (text, dictionary or function), 2 literal, 3 address of a structure
typedef struct { const char *s; int n; V v; } Var;
typedef struct { const char *s; int n; const char *body, *par; } Fn;
typedef struct { const char *fs[4]; int fn[4]; V v[4]; int n; } St;
enum { T_END, T_ID, T_NUM, T_STR, T_P };
static const char *src_p; static int tk, tkn, skipping, returned, depth; static const char *tks; static long tknum; static char *tstr; static int tstrn;
static Var vars[96]; static int nv, vbase; static Fn fns[24]; static int nf; static St sts[12]; static int nst; static char pool[8192]; static int npool;
static int idc(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9'); }
static void ws(void) { for (;;) { if (*src_p == ' ' || *src_p == '\t') src_p++; else if (*src_p == '\n') { src_p++; const char *q = src_p; while (*q == ' ' || *q == '\t') q++; if (*q == '#') { src_p = q; while (*src_p && *src_p != '\n') src_p++; } } else if (src_p[0] == '/' && src_p[1] == '*') { src_p += 2; while (*src_p && !(src_p[0] == '*' && src_p[1] == '/')) src_p++; CHECK(*src_p, "tool: the generated code has a comment without end"); src_p += 2; } else break; } }
static void lit(void) { // one literal after another, as C joins them
  tstr = pool + npool; tstrn = 0;
  for (;;) { src_p++; for (;;) { int c = (unsigned char)*src_p; CHECK(c != 0 && c != '\n', "tool: the generated code has a text without end"); src_p++; if (c == '"') break;
      if (c == '\\') { c = (unsigned char)*src_p++; switch (c) { case 'n': c = '\n'; break; case 't': c = '\t'; break; case 'r': c = '\r'; break; case '"': case '\\': case '\'': case '?': break;
          case 'x': { int v = 0, k = 0; for (;;) { int h = *src_p; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (d < 0) break; v = v * 16 + d; k++; src_p++; } CHECK(k && v < 256, "tool: wrong escape in the generated code"); c = v; break; }
          default: { CHECK(c >= '0' && c <= '7', "tool: wrong escape in the generated code"); int v = c - '0'; for (int k = 0; k < 2 && *src_p >= '0' && *src_p <= '7'; k++) v = v * 8 + (*src_p++ - '0'); CHECK(v < 256, "tool: wrong escape in the generated code"); c = v; } } }
      CHECK(npool + tstrn + 2 < (int)sizeof pool, "model: texts too long"); tstr[tstrn++] = c; }
    const char *save = src_p; ws(); if (*src_p != '"') { src_p = save; break; } }
  tstr[tstrn] = 0; npool += tstrn + 1; }
static void next(void) { ws(); tks = src_p; int c = (unsigned char)*src_p; if (!c) { tk = T_END; tkn = 0; return; }
  if (c >= '0' && c <= '9') { tk = T_NUM; tknum = 0; if (c == '0' && (src_p[1] == 'x' || src_p[1] == 'X')) { src_p += 2; while (idc(*src_p)) { int h = *src_p++; tknum = tknum * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } } else while (*src_p >= '0' && *src_p <= '9') tknum = tknum * 10 + (*src_p++ - '0'); tkn = src_p - tks; return; }
  if (idc(c)) { while (idc(*src_p)) src_p++; tk = T_ID; tkn = src_p - tks; return; }
  if (c == '"') { lit(); tk = T_STR; tkn = 1; return; }
  tk = T_P; tkn = 1; src_p++; static const char *two[] = { "->", "==", "!=", "<=", ">=", "&&", "||", "++", "--" }; for (int i = 0; i < 9; i++) if (c == two[i][0] && *src_p == two[i][1]) { src_p++; tkn = 2; break; } }
static int is(const char *t) { int n = strlen(t); return (tk == T_P || tk == T_ID) && tkn == n && memcmp(tks, t, n) == 0; }
static int acc(const char *t) { if (is(t)) { next(); return 1; } return 0; }
static void need(const char *t) { if (!acc(t)) { CHECK(tk != T_END, "tool: the generated code is cut"); UNK("syntax"); } }
static int same(const char *a, int n, const char *b, int m) { return n == m && memcmp(a, b, n) == 0; }
static V num(long n) { V v = { 0, n, NULL, 0 }; return v; } static V ptr(const void *p) { V v = { 1, 0, p, 0 }; return v; }
static int truth(V v) { return v.k ? v.s != NULL : v.n != 0; }
static Var *var(const char *s, int n) { for (int i = nv - 1; i >= vbase; i--) if (same(vars[i].s, vars[i].n, s, n)) return &vars[i]; return NULL; }
static Fn *fn(const char *s, int n) { Fn *d = NULL; for (int i = 0; i < nf; i++) if (same(fns[i].s, fns[i].n, s, n) && (!d || fns[i].body)) d = &fns[i]; return d; }
static V assign(void), call(const char *s, int n, V *a, int na), callfn(Fn *f, V *a, int na); static void stmt(void); static void block(void);
static int istype(void) { static const char *t[] = { "const", "int", "char", "void", "unsigned", "long", "size_t", "ssize_t", "static", "onion_dict", "onion_response", "onion_request", "dict_res", "struct", "dict_res_t", "onion_connection_status" }; for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (tk == T_ID && same(tks, tkn, t[i], strlen(t[i]))) return 1; return 0; }
static void out(const char *s, int n); static Var *lastvar; static V retval; static unsigned char arr[ASIZE]; static int narr;
static V postfix(void) { V v; const char *s = tks; int n = tkn;
  if (tk == T_NUM) { v = num(tknum); next(); } else if (tk == T_STR) { V l = { 2, 0, tstr, tstrn }; v = l; next(); }
  else if (tk == T_ID) { next(); Var *x = var(s, n);
    if (is("(")) { next(); V a[8]; int na = 0; if (!is(")")) for (;;) { CHECK(na < 8, "model: arguments"); a[na++] = assign(); if (!acc(",")) break; } need(")"); if (skipping) v = num(0); else if (x) { Fn *f = (Fn *)x->v.s; if (!(f >= fns && f < fns + nf)) UNK("call of a variable"); v = callfn(f, a, na); } else v = call(s, n, a, na); }
    else if (x) { v = x->v; lastvar = x; if (is("->") || is(".")) { int arrow = is("->"); next(); if (v.k != 3) { if (!skipping) UNK("member"); } else { St *t = &sts[v.n]; int f = 0; for (int i = 0; i < t->n; i++) if (same(t->fs[i], t->fn[i], tks, tkn)) { v = t->v[i]; f = 1; break; } if (!f && !skipping) UNK("member"); } next(); } }
    else if (same(s, n, "OCS_PROCESSED", 13)) v = num(2); else if (same(s, n, "OCS_NOT_PROCESSED", 17)) v = num(0);
    else if (same(s, n, "NULL", 4)) v = ptr(NULL); else if (same(s, n, "OD_DUP_VALUE", 12)) v = num(OD_DUP_VALUE); else if (same(s, n, "OD_DUP_KEY", 10)) v = num(OD_DUP_KEY); else if (same(s, n, "OD_DUP_ALL", 10)) v = num(OD_DUP_ALL); else if (same(s, n, "OD_REPLACE", 10)) v = num(OD_REPLACE); else if (same(s, n, "OD_TYPE_MASK", 12)) v = num(OD_TYPE_MASK); else if (same(s, n, "OD_DICT", 7)) v = num(OD_DICT); else if (same(s, n, "OD_FREE_VALUE", 13)) v = num(OD_FREE_VALUE);
    else { Fn *f = fn(s, n); if (f) v = ptr(f); else { UNK("name"); v = num(0); } } }
  else { CHECK(tk != T_END, "tool: the generated code is cut"); UNK("expression"); v = num(0); }
  return v; }
static V unary(void) { if (acc("!")) return num(!truth(unary())); if (acc("-")) { V v = unary(); return num(-v.n); } if (acc("&")) return unary(); if (acc("*")) return unary();
  if (is("(")) { next(); if (istype()) { while (tk == T_ID || is("*")) next(); need(")"); return unary(); } V v = assign(); need(")"); return v; }
  return postfix(); }
static V bin(int level) { if (level == 6) return unary(); V a = bin(level + 1);
  for (;;) { 
    if (level == 0 && is("||")) { next(); int t = truth(a); skipping += t; V b = bin(1); skipping -= t; a = num(t || truth(b)); continue; }
    if (level == 1 && is("&&")) { next(); int t = truth(a); skipping += !t; V b = bin(2); skipping -= !t; a = num(t && truth(b)); continue; }
    if (level == 2 && is("|")) { next(); V b = bin(3); a = num(a.n | b.n); continue; }
    if (level == 3 && is("&")) { next(); V b = bin(4); a = num(a.n & b.n); continue; }
    if (level == 4 && (is("==") || is("!="))) { int e = is("=="); next(); V b = bin(5); long x = a.k ? (long)a.s : a.n, y = b.k ? (long)b.s : b.n; a = num((x == y) == e); continue; }
    if (level == 5 && (is("<") || is(">") || is("<=") || is(">="))) { int l = is("<") || is("<="), q = tkn == 2; next(); V b = bin(6); a = num(l ? (q ? a.n <= b.n : a.n < b.n) : (q ? a.n >= b.n : a.n > b.n)); continue; }
    return a; } }
static V cond(void) { V c = bin(0); if (!is("?")) return c; next(); int t = truth(c); skipping += !t; V a = assign(); skipping -= !t; need(":"); skipping += t; V b = cond(); skipping -= t; return t ? a : b; }
static V assign(void) { if (tk == T_ID) { const char *s = tks; int n = tkn; const char *p = src_p; const char *q = p; while (*q == ' ') q++; if (*q == '=' && q[1] != '=') { Var *x = var(s, n); if (!x) UNK("assignment"); next(); next(); V v = assign(); if (!skipping) { x = var(s, n); x->v = v; } return v; } } return cond(); }
static void decl(void) { while (tk == T_ID && istype()) next();
  for (;;) { const char *s; int n; while (is("*")) next(); if (acc("(")) { need("*"); s = tks; n = tkn; next(); need(")"); need("("); int d = 1; while (d && tk != T_END) { if (is("(")) d++; if (is(")")) d--; next(); } } else { if (tk != T_ID) UNK("declaration"); s = tks; n = tkn; next(); }
    V v = num(0); v.k = 4;
    if (acc("[")) { if (is("]")) { next(); need("="); need("{"); v = ptr(arr + narr); while (!is("}")) { V e = assign(); CHECK(narr < (int)sizeof arr, "model: array"); arr[narr++] = e.n; v.len++; if (!acc(",")) break; } need("}"); v.n = -1; goto declared; } if (tk != T_NUM) UNK("array"); long m = tknum; CHECK(npool + m < (long)sizeof pool, "model: texts too long"); v = ptr(pool + npool); v.len = m; npool += m; next(); need("]"); }
    if (acc("=")) { if (is("{")) { next(); CHECK(nst < 12, "model: structures"); int id = nst++; St *t = &sts[id]; t->n = 0; while (!is("}")) { if (acc(".")) { t->fs[t->n] = tks; t->fn[t->n] = tkn; next(); need("="); } else UNK("initializer"); V m = assign(); t->v[t->n] = m; t->n++; if (!acc(",")) break; } need("}"); v.k = 3; v.n = id; v.s = (void *)1; } else v = assign(); }
  declared:
    CHECK(nv < 96, "model: variables"); vars[nv].s = s; vars[nv].n = n; vars[nv++].v = v; if (!acc(",")) break; }
  need(";"); }
static void stmt(void) { CHECK(tk != T_END, "tool: the generated code is cut");
  if (is("{")) { block(); return; }
  if (acc(";")) return;
  if (acc("if")) { need("("); V c = assign(); need(")"); if (c.k == 4 && !skipping) CHECK(0, "tool: the generated code uses a variable before it has a value"); int t = truth(c); skipping += !t; stmt(); skipping -= !t; if (acc("else")) { skipping += t; stmt(); skipping -= t; } return; }
  if (acc("return")) { V rv = num(0); if (!is(";")) rv = assign(); need(";"); if (!skipping) { retval = rv; returned = 1; skipping++; } return; }
  if (istype()) { decl(); return; }
  assign(); need(";"); }
static void block(void) { int keep = nv; need("{"); while (!is("}")) stmt(); nv = keep; next(); }
static V callfn(Fn *f, V *a, int na) { if (!f->body) { out("\3", 1); out(f->s, f->n); return num(0); } CHECK(++depth < 12, "model: calls");
  const char *p = src_p; int k = tk, kn = tkn; const char *ks = tks; int ob = vbase, on = nv, oret = returned, osk = skipping; returned = 0; skipping = 0; vbase = nv; src_p = f->par; next(); int i = 0;
  while (!is(")")) { const char *s = NULL; int n = 0; while (!is(",") && !is(")")) { if (tk == T_ID) { s = tks; n = tkn; } next(); } if (i < na && s) { vars[nv].s = s; vars[nv].n = n; vars[nv++].v = a[i]; } i++; if (!acc(",")) break; } 
  CHECK(i == na, "tool: the generated code calls with other arguments"); src_p = f->body; next(); { need("{"); while (!is("}")) stmt(); } V rv = returned ? retval : num(0);
  nv = on; vbase = ob; returned = oret; skipping = osk; src_p = p; tk = k; tkn = kn; tks = ks; depth--; return rv; }
static Fn *each_f; static V each_ctx;
static void each(void *d, const char *key, const void *value, int flags) { V a[4] = { each_ctx, ptr(key), ptr(value), num(flags) }; Fn *f = each_f; V c = each_ctx; callfn(f, a, 4); each_f = f; each_ctx = c; }
#define NAME(x) same(s, n, x, sizeof(x) - 1)
static const char *txt(V v) { CHECK(v.k != 4, "tool: the generated code uses a variable before it has a value"); return v.s; }
static V call(const char *s, int n, V *a, int na) {
  if (NAME("onion_response_write") && na == 3) { CHECK(a[2].n >= 0 && (a[1].n == -1 ? a[2].n <= a[1].len : a[1].k != 2 || a[2].n <= a[1].len + 1), "tool: the generated code writes more than the text it has"); out(a[1].s, a[2].n); return num(a[2].n); }
#ifdef PACK
  if (NAME("onion_response_set_length") && na == 2) { set_length(a[1].n); return num(0); }
  if (NAME("onion_response_set_header") && na == 3) { set_header(txt(a[1]), txt(a[2])); return num(0); }
  if (NAME("onion_request_get_path") && na == 1) return ptr(req_path);
  if (NAME("onion_request_advance_path") && na == 2) { CHECK(a[1].n >= 0 && a[1].n <= (long)strlen(req_path), "tool: the generated code goes over the path"); req_path += a[1].n; return num(0); }
  if (NAME("strncmp") && na == 3) return num(strncmp(txt(a[0]), txt(a[1]), a[2].n));
#endif
  if (NAME("onion_response_write0") && na == 2) { out(txt(a[1]), strlen(a[1].s)); return num(0); }
  if (NAME("onion_response_write_html_safe") && na == 2) { out("\1", 1); out(txt(a[1]), strlen(a[1].s)); out("\2", 1); return num(0); }
  if (NAME("onion_dict_new")) return ptr(onion_dict_new());
  if (NAME("onion_dict_free")) { onion_dict_free((onion_dict *)a[0].s); return num(0); }
  if (NAME("onion_dict_get") && na == 2) return ptr(onion_dict_get((onion_dict *)a[0].s, txt(a[1])));
  if (NAME("onion_dict_get_dict") && na == 2) return ptr(onion_dict_get_dict((onion_dict *)a[0].s, txt(a[1])));
  if ((NAME("onion_dict_rget") || NAME("onion_dict_rget_dict")) && na >= 2) { int d = NAME("onion_dict_rget_dict"); CHECK(a[na - 1].s == NULL, "tool: the generated code has a list of keys without end"); const onion_dict *x = (onion_dict *)a[0].s; for (int i = 1; i < na - 2 && x; i++) x = onion_dict_get_dict(x, txt(a[i])); if (!x || na < 3) return ptr(NULL); return ptr(d ? (void *)onion_dict_get_dict(x, txt(a[na - 2])) : (void *)onion_dict_get(x, txt(a[na - 2]))); }
  if (NAME("onion_dict_hard_dup")) return ptr(onion_dict_hard_dup((onion_dict *)a[0].s));
  if (NAME("onion_dict_add") && na == 4) { onion_dict_add((onion_dict *)a[0].s, txt(a[1]), a[2].s, a[3].n); return num(0); }
  if (NAME("onion_dict_preorder") && na == 3) { Fn *f = (Fn *)a[1].s; if (!(f >= fns && f < fns + nf)) UNK("iteration"); each_f = f; each_ctx = a[2]; onion_dict_preorder((onion_dict *)a[0].s, (void *)each, NULL); return num(0); }
  if (NAME("sizeof") && na == 1) { if (!a[0].len && a[0].n != -1) UNK("sizeof"); return num(a[0].len); }
  if (NAME("snprintf") && na == 4 && a[2].len == 2 && memcmp(a[2].s, "%p", 2) == 0) { Fn *f = (Fn *)a[3].s; if (!(f >= fns && f < fns + nf)) UNK("pointer as text"); CHECK(a[1].n > 4, "tool: a pointer in too few characters"); char *t = (char *)a[0].s; t[0] = '0'; t[1] = 'x'; t[2] = 'A' + (f - fns); t[3] = 0; return num(3); }
  if (NAME("sscanf") && na == 3 && a[1].len == 2 && memcmp(a[1].s, "%p", 2) == 0) { const char *t = txt(a[0]); if (t[0] != '0' || t[1] != 'x' || t[2] < 'A' || t[2] >= 'A' + nf || t[3] || !lastvar) UNK("pointer as text"); lastvar->v = ptr(&fns[t[2] - 'A']); return num(1); }
  if (NAME("strcmp") && na == 2) return num(strcmp(txt(a[0]), txt(a[1])));
  Fn *f = fn(s, n); if (f) return callfn(f, a, na); UNK("function"); return num(0); }
// where every function begins
static void scan(const char *code) { src_p = code; nf = 0; nv = vbase = 0; skipping = 0; npool = 0; nst = 0; if (*src_p == '#') while (*src_p && *src_p != '\n') src_p++; next(); const char *ids = NULL; int idn = 0;
  while (tk != T_END) { npool = 0;
    if (is("(") && ids) { const char *par = src_p; int d = 1; next(); while (d && tk != T_END) { if (is("(")) d++; if (is(")")) d--; if (!d) break; next(); } CHECK(tk != T_END, "tool: the generated code is cut"); const char *body = src_p; next();
      if (is("{") || is(";")) { CHECK(nf < 24, "model: functions"); Fn *f = &fns[nf++]; f->s = ids; f->n = idn; f->par = par; f->body = is("{") ? body : NULL; } ids = NULL; continue; }
    if (tk == T_ID) { ids = tks; idn = tkn; } else ids = NULL;
    if (is("{")) { int d = 1; next(); while (d && tk != T_END) { if (is("{")) d++; if (is("}")) d--; npool = 0; next(); } CHECK(d == 0, "tool: the generated code is cut"); ids = NULL; continue; }
    next(); }
  npool = 0; }
#endif
