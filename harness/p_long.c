// long and many: requests far larger than the parser's buffers and the packets they come in
#include "req.h"
#if MODE == 7
#define NFILES MANY
#else
#define NFILES 2
#endif
#define FSMAX 12000
#include "fs.h"
#include "util.h"
static char st[80000]; static int sl;
static void put(const char *s) { int n = strlen(s); memcpy(st + sl, s, n); sl += n; }
static void num(int n) { char b[12]; int i = 12; do { b[--i] = '0' + n % 10; n /= 10; } while (n); memcpy(st + sl, b + i, 12 - i); sl += 12 - i; }
static int seq(const char *a, const char *b, int n) { return a && strlen(a) == (size_t)n && eqn(a, b, n); }
// whole, or in packets of one of several sizes
static int send_(onion_request *r) { static const int ps[] = { 0, 1, 255, 1024, 1500, 2048, 4096, 8192 }; int p = ps[sym_pick(0, PACKETS - 1, "packet")]; if (!p) p = sl; int v = OCS_NEED_MORE_DATA;
  for (int i = 0; i < sl; i += p) { int n = sl - i < p ? sl - i : p; CHECK(v == OCS_NEED_MORE_DATA, "long request: verdict before it is complete"); if (v != OCS_NEED_MORE_DATA) return v; char *b = heapcopy(st + i, n); v = onion_request_write(r, b, n); free(b); } return v; }
static char *lval(int *n, int lo) { *n = longlen(); char *v = st + sl; longfill(v, *n); char c = sym_u8("last"); sym_assume(INR(c, lo, 255) & (c != '&') & (c != '=') & (c != '+') & (c != '%') & (c != ';') & (c != '?') & (c != '#')); v[*n - 1] = c; sl += *n; return v; }
static int kat = -1, kext; // the entry with the long value has a long name too
static void key(char *k, int i) { k[0] = 'k'; k[1] = 'a' + i / 26; k[2] = 'a' + i % 26; int n = 3; if (i == kat) for (int j = 0; j < kext; j++) k[n++] = 'x'; k[n] = 0; }
static int where(int many) { static const int E[] = { 0, 40, 300 }; kat = sym_pick(0, 1, "where") ? many - 1 : 0; kext = E[sym_pick(0, 2, "name")]; return kat; }
void harness(void) {
  onion_request *r = mkreq(); int n, v; char k[320], w[4];
#if MODE == 1 // path
  put("GET /"); char *p = lval(&n, 33); put(" HTTP/1.1\r\nHost: h\r\n\r\n"); v = send_(r); CHECK(v == OCS_REQUEST_READY, "long request: long path refused"); if (v != OCS_REQUEST_READY) return;
  const char *f = onion_request_get_fullpath(r); CHECK(f && f[0] == '/' && seq(f + 1, p, n), "long request: path differs from the one sent"); const char *h = onion_request_get_header(r, "Host"); CHECK(h && seq(h, "h", 1), "long request: header after a long path");
#elif MODE == 2 // headers
  int many = MANY; int at = where(many); put("GET / HTTP/1.1\r\n"); char *lv = 0; for (int i = 0; i < many; i++) { key(k, i); put(k); put(": "); if (i == at) lv = lval(&n, 33); else { put("v"); put(k + 1); } put("\r\n"); } put("\r\n");
  v = send_(r); CHECK(v == OCS_REQUEST_READY, "long request: many or long headers refused"); if (v != OCS_REQUEST_READY) return;
  for (int i = 0; i < many; i++) { key(k, i); const char *g = onion_request_get_header(r, k); w[0] = 'v'; w[1] = k[1]; w[2] = k[2]; w[3] = 0; CHECK(i == at ? seq(g, lv, n) : seq(g, w, 3), "long request: header value differs from the one sent"); } CHECK(onion_dict_count(r->headers) == many, "long request: number of headers differs"); CHECK(onion_dict_count(onion_request_get_header_dict(r)) == many, "long request: number of headers differs");
#elif MODE == 3 || MODE == 6 // query, form
  int many = MANY; int at = where(many); put("GET /p?"); int q0 = sl; char *lv = 0; for (int i = 0; i < many; i++) { if (i) put("&"); key(k, i); put(k); put("="); if (i == at) lv = lval(&n, 33); else { put("v"); put(k + 1); } }
#if MODE == 6
  { int ql = sl - q0; static char tmp[80000]; memcpy(tmp, st + q0, ql); int off = lv - (st + q0); sl = 0; put("POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: "); num(ql); put("\r\n\r\n"); memcpy(st + sl, tmp, ql); lv = st + sl + off; sl += ql; }
#else
  put(" HTTP/1.1\r\n\r\n");
#endif
  v = send_(r); CHECK(v == OCS_REQUEST_READY, "long request: many or long values refused"); if (v != OCS_REQUEST_READY) return;
  for (int i = 0; i < many; i++) { key(k, i);
#if MODE == 6
    const char *g = onion_request_get_post(r, k);
#else
    const char *g = onion_request_get_query(r, k);
#endif
    w[0] = 'v'; w[1] = k[1]; w[2] = k[2]; w[3] = 0; CHECK(i == at ? seq(g, lv, n) : seq(g, w, 3), "long request: value differs from the one sent"); }
#if MODE == 6
  CHECK(onion_dict_count(onion_request_get_post_dict(r)) == many, "long request: number of values differs");
#else
  CHECK(onion_dict_count(onion_request_get_query_dict(r)) == many, "long request: number of values differs"); CHECK(seq(onion_request_get_fullpath(r), "/p", 2), "long request: path changed by the query");
#endif
#elif MODE == 4 // cookies
  int many = MANY; int at = where(many); put("GET / HTTP/1.1\r\nCookie: "); char *lv = 0; for (int i = 0; i < many; i++) { if (i) put("; "); key(k, i); put(k); put("="); if (i == at) lv = lval(&n, 33); else { put("v"); put(k + 1); } } put("\r\n\r\n");
  v = send_(r); CHECK(v == OCS_REQUEST_READY, "long request: many or long cookies refused"); if (v != OCS_REQUEST_READY) return;
  for (int i = 0; i < many; i++) { key(k, i); const char *g = onion_request_get_cookie(r, k); w[0] = 'v'; w[1] = k[1]; w[2] = k[2]; w[3] = 0; CHECK(i == at ? seq(g, lv, n) : seq(g, w, 3), "long request: cookie differs from the one sent"); } CHECK(onion_dict_count(onion_request_get_cookies_dict(r)) == many, "long request: number of cookies differs");
#elif MODE == 7 // multipart forms
  int many = MANY; int at = where(many); static const int BL[] = { 1, 20, 40, 70 }; int bl = BL[sym_pick(0, 3, "boundary")], fl = sym_pick(0, 1, "filename") ? 200 : 3, kind = sym_pick(0, 1, "kind"); char bnd[80], fname[300]; memset(bnd, 'b', bl); bnd[bl] = 0; memset(fname, 'f', fl); fname[fl] = 0; char *lv = 0; static char body[40000]; int bo = 0;
  // even entries are fields and odd ones files, or the other way round
  for (int i = 0; i < many; i++) { key(k, i); put("--"); put(bnd); put("\r\nContent-Disposition: form-data; name=\""); put(k); put("\""); if ((i + kind) % 2) { put("; filename=\""); put(fname); put("\""); } put("\r\n\r\n"); if (i == at) lv = lval(&n, 33); else { put("v"); put(k + 1); } put("\r\n"); } put("--"); put(bnd); put("--");
  bo = sl; memcpy(body, st, sl); int off = lv - st; sl = 0; put("POST /p HTTP/1.1\r\nContent-Type: multipart/form-data; boundary="); put(bnd); put("\r\nContent-Length: "); num(bo); put("\r\n\r\n"); memcpy(st + sl, body, bo); lv = st + sl + off; sl += bo;
  v = send_(r); CHECK(v == OCS_REQUEST_READY, "long request: many or long parts refused"); if (v != OCS_REQUEST_READY) return; int nf = 0;
  for (int i = 0; i < many; i++) { key(k, i); w[0] = 'v'; w[1] = k[1]; w[2] = k[2]; w[3] = 0; const char *g = onion_request_get_post(r, k), *f = onion_request_get_file(r, k); if ((i + kind) % 2) { nf++; CHECK(seq(g, fname, fl), "long request: file name differs from the one sent"); vfile *vf = f ? fs_get(f) : 0; CHECK(vf && !vf->open && (i == at ? vf->len == (size_t)n && eqn(vf->data, lv, n) : vf->len == 3 && eqn(vf->data, w, 3)), "long request: file differs from the one sent"); } else { CHECK(!f, "long request: a file for a field"); CHECK(i == at ? seq(g, lv, n) : seq(g, w, 3), "long request: field differs from the one sent"); } }
  CHECK(onion_dict_count(onion_request_get_post_dict(r)) == many && onion_dict_count(onion_request_get_file_dict(r)) == nf, "long request: number of fields or files differs");
#else // bodies
  static const char *ms[] = { "POST", "PUT", "PROPFIND" }; int m = sym_pick(0, 2, "method"), L = longlen(), lim = sym_pick(-1, 1, "limit"); the_server.max_post_size = the_server.max_file_size = L + lim;
  put(ms[m]); put(" / HTTP/1.1\r\nContent-Length: "); num(L); put("\r\n\r\n"); int hl = sl; char *b = st + sl; longfill(b, L); sym_make(b, 1, "first"); sym_make(b + L - 1, 1, "last"); sl += L;
  if (lim < 0) { sl = hl; v = send_(r); CHECK(v < 0 && v != OCS_NEED_MORE_DATA, "long request: body over the limit not refused"); sym_reach("refused"); }
  else { v = send_(r); CHECK(v == OCS_REQUEST_READY, "long request: body within the limit refused"); if (v != OCS_REQUEST_READY) return;
    if (m == 1) { const char *fn = onion_request_get_file(r, "filename"); vfile *f = fn ? fs_get(fn) : 0; CHECK(f && !f->open && f->len == (size_t)L && eqn(f->data, b, L), "long request: uploaded file differs from the body"); }
    else { const onion_block *d = onion_request_get_data(r); CHECK(d && onion_block_size(d) == L && eqn(onion_block_data(d), b, L), "long request: body differs from the one sent"); } }
#endif
  sym_reach("done"); onion_request_free(r); fs_all_gone(); CHECK(sym_heap_live() == 0, "long request: memory leaked");
}
