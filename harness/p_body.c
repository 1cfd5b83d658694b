// bodies with an announced length: exactly the announced bytes, only within the limit
#include "req.h"
#include "fs.h"
#include "util.h"
#ifndef LPRE
#define LPRE ""
#endif
#ifndef HEAD
#define HEAD "POST / HTTP/1.1\r\nContent-Length: "
#endif
#define SP(c) (((c) == ' ') | ((c) == '\t'))
static int feed(onion_request *req, const char *s, size_t n) { if (!n) return OCS_NEED_MORE_DATA; char *b = heapcopy(s, n); int r = onion_request_write(req, b, n); free(b); return r; }
void harness(void) {
  // the length text: LPRE and up to N arbitrary characters
  char t[64]; int pl = strlen(LPRE), n = sym_pick(LMIN, N, "len"); strcpy(t, LPRE); if (n) sym_make(t + pl, n, "length"); n += pl; t[n] = 0;
  for (int i = pl; i < n; i++) { sym_assume((t[i] != 0) & (t[i] != '\r') & (t[i] != '\n'));
#ifdef DIGITS
    sym_assume(INR(t[i], '0', '9'));
#endif
  }
  // what it means: digits, with blanks around
  int a = 0, b = n; while (a < b && SP(t[a])) a++; while (b > a && SP(t[b - 1])) b--; int ok = b > a; for (int i = a; i < b; i++) ok &= INR(t[i], '0', '9');
  int big = 0; unsigned long len = 0; if (ok) for (int i = a; i < b; i++) { big |= len > 100000000; len = len * 10 + (t[i] - '0'); }
  onion_request *r = mkreq(); int limit = sym_pick(0, LIMIT, "limit"); int put = 0;
#ifdef PUTM
  put = 1; the_server.max_file_size = limit;
#else
  the_server.max_post_size = limit;
#endif
  ok = ok & !big & (len <= (unsigned long)limit);
  char st[200]; strcpy(st, HEAD); strcat(st, t); strcat(st, "\r\nA: b\r\n\r\n"); int hl = strlen(st); sym_make(st + hl, BODY, "body"); char *body = st + hl;
#ifdef FAULTS
  fs_fail_mkstemp = sym_pick(0, 1, "no file"); fs_fail_write = sym_pick(-1, 2, "bad write"); fs_fault_kind = sym_pick(0, 1, "kind");
#endif
  int tot = hl + BODY, v = OCS_NEED_MORE_DATA, cut = sym_pick(-2, BODY, "cut");
  if (cut == -2) for (int i = 0; i < tot && v == OCS_NEED_MORE_DATA; i++) v = feed(r, st + i, 1);
  else if (cut == -1) v = feed(r, st, tot);
  else { v = feed(r, st, hl + cut); if (v == OCS_NEED_MORE_DATA) v = feed(r, body + cut, BODY - cut); }
  if (ok) { int faulty = 0;
#ifdef FAULTS
    faulty = 1;
#endif
    if (len <= BODY) { if (!faulty) CHECK(v == OCS_REQUEST_READY, "body: complete body within the limit not accepted"); else CHECK(v == OCS_REQUEST_READY || v < 0, "body: neither accepted nor refused"); } else { if (!faulty) CHECK(v == OCS_NEED_MORE_DATA, "body: verdict before the whole body arrived"); else CHECK(v != OCS_REQUEST_READY, "body: verdict before the whole body arrived"); }
    if (v == OCS_REQUEST_READY) { sym_reach("ready"); int l = (int)len;
      if (put) { const char *fn = onion_request_get_file(r, "filename"); CHECK(fn != NULL, "body: no file for the upload"); if (fn) { vfile *f = fs_get(fn); CHECK(f != NULL && !f->open, "body: file of the upload missing or still open"); if (f) { CHECK(f->len == (size_t)l, "body: file size differs from the announced one"); CHECK(f->len == (size_t)l && eqn(f->data, body, l), "body: file content differs from the body sent"); } const onion_block *d = onion_request_get_data(r); CHECK(d && !strcmp(onion_block_data(d), fn), "body: data does not name the file"); } }
      else { const onion_block *d = onion_request_get_data(r); if (l == 0) CHECK(!d || onion_block_size(d) == 0, "body: bytes without a body"); else { CHECK(d != NULL, "body: no body"); if (d) { CHECK(onion_block_size(d) == l, "body: size differs from the announced one"); CHECK(onion_block_size(d) == l && eqn(onion_block_data(d), body, l), "body: bytes differ from those sent"); } } } }
    else sym_reach("more"); }
  else { sym_reach("refused"); CHECK(v != OCS_REQUEST_READY && v < 0, "body: bad or too big length not refused"); }
  onion_request_free(r); fs_all_gone(); CHECK(sym_heap_live() == 0, "body: memory leaked");
}
