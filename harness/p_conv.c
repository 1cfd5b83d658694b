// several requests over one connection, in any packets: each one answered once, in order, with nothing of the others
#include "req.h"
#define NFILES 8
#include "fs.h"
#include "util.h"
#include "client.h"
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
#ifndef MAXREQ
#define MAXREQ 2
#endif
extern int onion_http_read_ready(onion_request *con);
static char st[2000]; static int sl, pos, cut1, cut2, bytes; static void put(const char *s) { size_t n = strlen(s); memcpy(st + sl, s, n); sl += n; }
static int kind[MAXREQ], from[MAXREQ], upto[MAXREQ]; static char let[MAXREQ]; static int nreq, calls, stop_at;
static ssize_t feed(onion_request *r, char *d, size_t n) { int e = sl; if (bytes) e = pos + 1; else if (pos < cut1) e = cut1; else if (pos < cut2) e = cut2; if (e > sl) e = sl; int l = e - pos; if (l > (int)n) l = n; memcpy(d, st + pos, l); pos += l; return l; }
static int seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); if (strlen(b) != n) return 0; return eqn(a, b, n); }
static int cnt(const onion_dict *d) { return d ? onion_dict_count(d) : 0; }
enum { K_GET, K_PLAIN, K_FORM, K_MULTI, K_PUT, K_DATA, K_COOKIE, K_HEAD, K_OLD, K_CLOSE, K_CHUNKED, K_LOST, KINDS };
static const char *METH[] = { "GET", "GET", "POST", "POST", "PUT", "PROPFIND", "GET", "HEAD", "GET", "GET", "POST", "GET" };
static void build(int i) {
  char L[2] = { let[i], 0 }; int k = kind[i]; from[i] = sl; put(METH[k]); put(" /"); put(L); if (k == K_GET) { put("?q="); put(L); } put(k == K_OLD ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n");
  switch (k) {
  case K_PLAIN: put("\r\n"); break;
  case K_GET: put("\r\n"); break;
  case K_FORM: put("Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\nf="); put(L); break;
  case K_MULTI: put("Content-Type: multipart/form-data; boundary=b\r\nContent-Length: 141\r\n\r\n--b\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\n"); put(L); put("\r\n--b\r\nContent-Disposition: form-data; name=\"u\"; filename=\"n\"\r\n\r\n"); put(L); put("\r\n--b--\r\n"); break;
  case K_PUT: put("Content-Length: 2\r\n\r\n\n"); put(L); break;
  case K_DATA: put("Content-Length: 2\r\n\r\n"); put(L); put("\n"); break;
  case K_COOKIE: put("Cookie: c="); put(L); put("\r\nX: "); put(L); put("\r\n\r\n"); break;
  case K_HEAD: put("X: "); put(L); put("\r\n\r\n"); break;
  case K_OLD: put("\r\n"); break;
  case K_CLOSE: put("Connection: close\r\n\r\n"); break;
  case K_LOST: put("Lost: "); put(L); put("\r\n\r\n"); break;
  case K_CHUNKED: put("Transfer-Encoding: chunked\r\n\r\n"); put("1c\r\nGET /z HTTP/1.1\r\nHost: h\r\n\r\n\r\n0\r\n\r\n"); break;
  }
  upto[i] = sl; }
static int why; static onion_connection_status lost(void *p, onion_request *r, onion_response *res) { int i = calls - 1; CHECK(i >= 0 && i < nreq && kind[i] == K_LOST && (onion_request_get_flags(r) & 0x0F000) == why, "requests: an error page nobody asked for"); char body[3] = { 'A' + i, let[i], 0 }; onion_response_set_length(res, 2); onion_response_write(res, body, 2); return OCS_PROCESSED; }
static onion_connection_status handle(void *p, onion_request *r, onion_response *res) {
  int i = calls++; CHECK(i < nreq && i < stop_at, "requests: a request nobody sent is handled"); if (i >= nreq) return OCS_CLOSE_CONNECTION; int k = kind[i]; char L[2] = { let[i], 0 }, full[3] = { '/', let[i], 0 };
  CHECK(seq(onion_request_get_method_name(r), METH[k]), "requests: another method"); CHECK(seq(onion_request_get_fullpath(r), full) && seq(onion_request_get_path(r), L), "requests: another path"); CHECK(!!(onion_request_get_flags(r) & OR_HTTP11) == (k != K_OLD), "requests: another protocol version");
  CHECK(cnt(onion_request_get_query_dict(r)) == (k == K_GET) && seq(onion_request_get_query(r, "q"), k == K_GET ? L : NULL), "requests: another query");
  CHECK(cnt(onion_request_get_post_dict(r)) == (k == K_FORM ? 1 : k == K_MULTI ? 2 : 0) && seq(onion_request_get_post(r, "f"), k == K_FORM || k == K_MULTI ? L : NULL), "requests: other form fields");
  CHECK(cnt(onion_request_get_file_dict(r)) == (k == K_MULTI || k == K_PUT), "requests: another number of files"); const char *fn = onion_request_get_file(r, k == K_PUT ? "filename" : "u"); CHECK((fn != NULL) == (k == K_MULTI || k == K_PUT), "requests: other files");
  if (fn) { vfile *f = fs_get(fn); CHECK(f && !f->open && f->len == (k == K_PUT ? 2 : 1) && f->data[f->len - 1] == let[i], "requests: another file content"); sym_reach("file"); int alive = 0; for (int j = 0; j < fs_n; j++) alive += fs_f[j].exists; CHECK(alive == 1, "requests: the files of an earlier request are still there"); }
  const onion_block *b = onion_request_get_data(r); if (k == K_DATA) CHECK(b && onion_block_size(b) == 2 && onion_block_data(b)[0] == let[i] && onion_block_data(b)[1] == '\n', "requests: another body"); else if (k != K_PUT) CHECK(b == NULL, "requests: a body nobody sent");
  CHECK(seq(onion_request_get_cookie(r, "c"), k == K_COOKIE ? L : NULL) && cnt(onion_request_get_cookies_dict(r)) == (k == K_COOKIE), "requests: other cookies");
  CHECK(seq(onion_request_get_header(r, "x"), k == K_COOKIE || k == K_HEAD ? L : NULL), "requests: another header"); int nh = k == K_FORM || k == K_MULTI || k == K_COOKIE ? 2 : k == K_PLAIN || k == K_GET || k == K_OLD ? 0 : 1; CHECK(cnt(onion_request_get_header_dict(r)) == nh, "requests: another number of headers");
#ifdef SESS
  onion_dict *s = onion_request_get_session_dict(r); CHECK(s && cnt(s) == 0, "requests: the session of another request"); onion_dict_add(s, "l", L, OD_DUP_ALL); sym_reach("session");
#endif
  CHECK(!(onion_request_get_flags(r) & 0x0F000), "requests: the error of an earlier request");
  if (k == K_LOST) { static const int ST[] = { OCS_NOT_PROCESSED, OCS_INTERNAL_ERROR, OCS_NOT_IMPLEMENTED, OCS_FORBIDDEN }, FL[] = { OR_NOT_FOUND, OR_INTERNAL_ERROR, OR_NOT_IMPLEMENTED, OR_FORBIDDEN }; int w = sym_pick(0, 3, "verdict"); why = FL[w]; sym_reach("lost"); return ST[w]; }
  char body[3] = { 'A' + i, let[i], 0 }; if (k != K_OLD || sym_pick(0, 1, "length")) onion_response_set_length(res, 2); onion_response_write(res, body, 2); return OCS_PROCESSED; }
#ifdef SESS
static int rnds; void vf_onion_random_init(void) {} void vf_onion_random_free(void) {} void vf_onion_random_generate(void *d, size_t n) { memset(d, ++rnds, n); }
#endif
void harness(void) {
  warm();
  onion_handler *h = onion_handler_new((void *)handle, NULL, NULL), *e = onion_handler_new((void *)lost, NULL, NULL); the_server.root_handler = h; the_server.internal_error_handler = e;
#ifdef SESS
  the_server.sessions = onion_sessions_mem_new();
#endif
  nreq = sym_pick(1, MAXREQ, "requests"); stop_at = nreq; int expect = nreq; int gap = sym_pick(0, 1, "blank line"); static int usable[] = { MENU };
  for (int i = 0; i < nreq; i++) { kind[i] = usable[sym_pick(0, sizeof usable / sizeof usable[0] - 1, "kind")]; let[i] = sym_u8("letter"); sym_assume(INR(let[i], 'a', 'z')); if (i && gap) put("\r\n"); build(i); }
  // the first request after which the connection can not go on
  for (int i = nreq - 1; i >= 0; i--) { if (kind[i] == K_CLOSE || kind[i] == K_OLD) expect = i + 1; if (kind[i] == K_CHUNKED) expect = i; } stop_at = expect;
  int mode = sym_pick(0, 3, "packets"); cut1 = cut2 = sl; if (mode == 1) bytes = 1; else if (mode == 2) { cut1 = upto[0]; cut2 = nreq > 2 ? upto[1] : sl; } else if (mode == 3) { int d = sym_pick(-BACK, FWD, "cut"); cut1 = upto[0] + d; if (nreq > 1 && sym_pick(0, 1, "two cuts")) cut2 = upto[nreq - 1] - 1; if (cut1 > sl) cut1 = sl; if (cut2 < cut1) cut2 = sl; }
  onion_request *r = onion_request_new(&the_lp); the_lp.read = feed; int v = 0; while (pos < sl) { v = onion_http_read_ready(r); if (v < 0) break; }
  CHECK(calls == expect, "requests: a request is not answered, or more than were sent"); CHECK((v < 0) == (expect < nreq || kind[expect - 1] == K_CLOSE || kind[expect - 1] == K_OLD), "requests: the connection is closed and should not, or the other way round"); if (expect == nreq && nreq == MAXREQ) sym_reach("all"); if (expect < nreq) sym_reach("closed");
  size_t at = 0; for (int i = 0; i < expect; i++) { answer a = client(out_buf + at, out_len - at, kind[i] == K_HEAD); CHECK(a.ok, "requests: an answer can not be read"); if (!a.ok) return; if (kind[i] == K_OLD && !a.has_len) CHECK(i == expect - 1, "requests: an answer without end"); CHECK(kind[i] == K_HEAD ? a.blen == 0 : (a.blen == 2 && a.body[0] == 'A' + i && a.body[1] == let[i]), "requests: the answer of another request"); at += a.used; } CHECK(at == out_len, "requests: bytes after the last answer");
  onion_request_free(r); fs_all_gone(); 
#ifdef SESS
  onion_sessions_free(the_server.sessions);
#endif
  onion_handler_free(h); onion_handler_free(e); CHECK(sym_heap_live() == base_live, "requests: memory leaked"); sym_reach("done"); }
