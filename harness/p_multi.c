// multipart forms: every field and file exactly as sent, whatever its bytes and however cut; nothing left behind
#include "req.h"
#define NFILES 3
#ifndef FILL
#define FILL 0
#endif
#define FSMAX (64 + FILL)
#include "fs.h"
#include "util.h"
#ifndef BND
#define BND "b"
#endif
#ifndef EOL
#define EOL "\r\n"
#endif
static int feed(onion_request *req, const char *s, size_t n) { if (!n) return OCS_NEED_MORE_DATA; char *b = heapcopy(s, n); int r = onion_request_write(req, b, n); free(b); return r; }
static char st[600 + FILL]; static int sl;
static void put(const char *s) { int n = strlen(s); memcpy(st + sl, s, n); sl += n; }
void harness(void) {
  put("POST / HTTP/1.1\r\nContent-Length: 2350\r\nContent-Type: multipart/form-data; boundary=" BND "\r\n\r\n"); int bs = sl;
  put("--" BND EOL "Content-Disposition: form-data; name=\"");
  char nm[NAME + 1]; int nl = sym_pick(1, NAME, "namelen"); sym_make(nm, nl, "name"); nm[nl] = 0; for (int i = 0; i < nl; i++) sym_assume((nm[i] != 0) & (nm[i] != '"') & (nm[i] != ';') & (nm[i] != '\r') & (nm[i] != '\n'));
  memcpy(st + sl, nm, nl); sl += nl; put("\"");
#ifdef FILEF
  put("; filename=\"f n.t\"" EOL "Content-Type: a/b");
#endif
  put(EOL EOL);
  int vl = sym_pick(VMIN, N, "vlen"); char *v = st + sl; memset(v, 'x', FILL); if (vl) sym_make(v + FILL, vl, "value"); vl += FILL; sl += vl; char *vend = st + sl; put(EOL "--" BND);
  for (int i = FILL; i < vl; i++) {
#ifndef FILEF
    sym_assume(v[i] != 0);
#endif
#ifdef ALPHA
    int ok = 0; for (int k = 0; k < sizeof(ALPHA) - 1; k++) ok |= v[i] == (ALPHA)[k]; sym_assume(ok);
#endif
    // no boundary line inside the value (also not completed by what follows)
    static const char bl[] = "\n--" BND; int m = 1; for (int k = 0; k < sizeof bl - 1; k++) m &= v[i + k] == bl[k]; sym_assume(!m); }
  if (sizeof(EOL) == 2 && vl) sym_assume(v[vl - 1] != '\r');
  int second = sym_pick(0, SECOND, "second"); static const char *sv = "w\r\n-", *sf = "z\n--a";
  if (second == 1) put(EOL "Content-Disposition: form-data; name=second" EOL EOL "w\r\n-" EOL "--" BND);
  if (second == 2) put(EOL "Content-Disposition: form-data; name=\"second\"; filename=\"g\"" EOL EOL "z\n--a" EOL "--" BND);
  put("--");
  onion_request *r = mkreq(); int over = 0;
#ifdef MAXFILE
  int mf = sym_pick(0, MAXFILE, "max file"); the_server.max_file_size = mf; over = vl + (second == 2 ? 5 : 0) > mf;
#endif
#ifdef MAXPOST
  int mp = sym_pick(0, MAXPOST, "max post"); the_server.max_post_size = mp; over = vl + (second == 1 ? 4 : 0) > mp; int tight = vl + nl + 64 > mp;
#endif
#ifdef FAULTS
  fs_fail_mkstemp = sym_pick(0, 1, "no file"); fs_fail_write = sym_pick(-1, 4, "bad write"); fs_fault_kind = sym_pick(0, 1, "kind");
#endif
  int lo = (int)(v + FILL - st) - BACK, hi = (int)(vend - st) + FWD; if (hi > sl - 1) hi = sl - 1; int verdict = OCS_NEED_MORE_DATA;
  int cut = sym_pick(lo - 1, hi + 1, "cut");
  if (cut == lo - 1) verdict = feed(r, st, sl);
  else if (cut == hi + 1) for (int i = 0; i < sl && verdict == OCS_NEED_MORE_DATA; i++) verdict = feed(r, st + i, 1);
  else { verdict = feed(r, st, cut); if (verdict == OCS_NEED_MORE_DATA) verdict = feed(r, st + cut, sl - cut); }
  if (over) { sym_reach("over"); CHECK(verdict < 0, "multipart: form over the limit not refused"); }
#ifdef FAULTS
  else CHECK(verdict == OCS_REQUEST_READY || verdict < 0, "multipart: neither accepted nor refused");
#elif defined(MAXPOST)
  else CHECK(tight ? (verdict == OCS_REQUEST_READY || verdict < 0) : verdict == OCS_REQUEST_READY, "multipart: form within the limit not accepted");
#else
  else CHECK(verdict == OCS_REQUEST_READY, "multipart: form within the limits not accepted");
#endif
  if (verdict == OCS_REQUEST_READY) { sym_reach("ready");
    const onion_dict *P = onion_request_get_post_dict(r), *F = onion_request_get_file_dict(r); CHECK(P != NULL, "multipart: no form"); if (!P) return;
    int same = second && nl == 6 && !strcmp(nm, "second"); sym_assume(!same);
    CHECK(onion_dict_count(P) == 1 + (second > 0), "multipart: number of fields differs");
#ifdef FILEF
    const char *t = onion_request_get_file(r, nm); CHECK(t != NULL, "multipart: file missing"); if (t) { vfile *f = fs_get(t); CHECK(f != NULL, "multipart: file gone before the request"); if (f) CHECK(!f->open && f->len == (size_t)vl && eqn(f->data, v, vl), "multipart: file content differs from what was sent"); }
    const char *fn = onion_request_get_post(r, nm); CHECK(fn && !strcmp(fn, "f n.t"), "multipart: file name differs"); int files = 1;
#else
    const char *t = onion_request_get_post(r, nm); CHECK(t != NULL, "multipart: field missing"); if (t) CHECK(eqz(t, v, vl), "multipart: field value differs from what was sent"); int files = 0;
#endif
    if (second == 1) { sym_reach("second"); const char *w = onion_request_get_post(r, "second"); CHECK(w && !strcmp(w, sv), "multipart: second field differs"); }
    if (second == 2) { sym_reach("second"); const char *w = onion_request_get_file(r, "second"); vfile *f = w ? fs_get(w) : 0; CHECK(f && !f->open && f->len == strlen(sf) && eqn(f->data, sf, strlen(sf)), "multipart: second file differs"); w = onion_request_get_post(r, "second"); CHECK(w && !strcmp(w, "g"), "multipart: second file name differs"); files++; }
    CHECK(F ? onion_dict_count(F) == files : files == 0, "multipart: number of files differs"); }
  onion_request_free(r); fs_all_gone(); CHECK(sym_heap_live() == 0, "multipart: memory leaked");
}
