// what a handler writes is what the client reads, for every request kind, piece size and partial write; and the connection decision
#ifndef OUTMAX
#define OUTMAX 16384
#define EXPMAX 12000
#define PIECE 5000
#define SIZELIST 1, 0, 2, 1500, 1499, 1501, 3000, 4600, 700
#endif
#include "req.h"
#include "util.h"
#include "client.h"
#ifndef PW
#define PW 0
#endif
static char exp_[EXPMAX]; static size_t el; static int len_mode, ops_done, failed_at = -1, pw_left = PW, calls, fail_kind; static int wrote_err, dead, closed_by_fail;
static onion_response *RES;
static ssize_t my_write(onion_request *r, const char *d, size_t n) {
  CHECK(!dead, "response: writes to the connection after it failed"); CHECK(n > 0, "response: empty write"); if (dead || !n) return -1;
  if (calls++ == failed_at) { dead = 1; if (fail_kind == 2 && n > 1) { rec_write(r, d, n / 2); dead = 0; failed_at++; fail_kind = 1; return n / 2; } return fail_kind == 0 ? 0 : -1; }
  if (pw_left > 0) { pw_left--; int k = sym_pick(0, 3, "part"); if (k == 1) n = 1; else if (k == 2 && n > 1) n = n - 1; else if (k == 3 && n > 2) n = n / 2; }
  return rec_write(r, d, n); }
static const int sizes[] = { SIZELIST };
static onion_connection_status h(void *p, onion_request *req, onion_response *res) {
  RES = res; int n = sym_pick(OPMIN, OPS, "ops");
  static char piece[PIECE]; int plan[OPS + 1], sz[OPS + 1]; size_t tot = 0;
  for (int i = 0; i < n; i++) { plan[i] = sym_pick(0, OPKINDS - 1, "op"); sz[i] = plan[i] == 1 ? 0 : sizes[sym_pick(0, SIZES - 1, "size")]; tot += sz[i]; }
  len_mode = sym_pick(0, LENMODES - 1, "length mode"); // 0 none, 1 exact, 2 headers written first without length
#ifdef WRONGLEN // the handler announces another length than it writes
  { static const int dl[] = { 1, 700, -1, 0 }; int d = dl[sym_pick(0, 3, "length error")]; if (d < 0 && !tot) d = 1; onion_response_set_length(res, tot + d); }
#else
  if (len_mode == 1) onion_response_set_length(res, tot);
#endif
  if (len_mode == 2) onion_response_write_headers(res);
  for (int i = 0; i < n; i++) { int s = sz[i]; for (int k = 0; k < s; k++) piece[k] = 'a' + (k * 7 + i) % 23; if (s) { sym_make(piece, 1, "first"); sym_make(piece + s - 1, 1, "last"); }
    ssize_t w = 0;
    if (plan[i] == 0) w = onion_response_write(res, piece, s); else if (plan[i] == 1) onion_response_flush(res);
    else { if (s) { sym_assume(piece[0] != 0); sym_assume(piece[s - 1] != 0); } piece[s] = 0; w = plan[i] == 2 ? onion_response_write0(res, piece) : onion_response_printf(res, "%s", piece); }
    memcpy(exp_ + el, piece, s); el += s;
    if (!dead && failed_at < 0) { if (s && plan[i] != 1 && (req->flags & OR_METHODS) != OR_HEAD) CHECK(w == s, "response: write reports another size"); }
    else if (w < 0) wrote_err = 1; }
  ops_done = n; return sym_pick(0, RETS - 1, "return") ? OCS_CLOSE_CONNECTION : OCS_PROCESSED; }
void harness(void) {
  warm(); onion_request *r = mkreq(); the_lp.write = my_write; onion_handler *hh = onion_handler_new((void *)h, NULL, NULL); the_server.root_handler = hh;
  static const char *reqs[] = { "GET / HTTP/1.1\r\n", "GET / HTTP/1.0\r\n", "HEAD / HTTP/1.1\r\n", "HEAD / HTTP/1.0\r\n" };
  static const char *cons[] = { "", "Connection: close\r\n", "Connection: Keep-Alive\r\n" };
  int k = sym_pick(0, REQS - 1, "request"), c = sym_pick(0, CONS - 1, "connection"), nk = sym_pick(0, NOKEEP, "no keep alive");
#ifdef FAIL
  failed_at = sym_pick(0, FAIL, "fail at"); fail_kind = sym_pick(0, 2, "fail kind");
#endif
  char st[100]; strcpy(st, reqs[k]); strcat(st, cons[c]); strcat(st, "\r\n"); int v = onion_request_write(r, st, strlen(st)); CHECK(v == OCS_REQUEST_READY, "response: request not accepted");
  if (nk) onion_request_set_no_keep_alive(r);
  int http11 = k == 0 || k == 2, head = k >= 2; int wants = !nk && (http11 ? c != 1 : c == 2);
  v = onion_request_process(r);
#ifdef FAIL
  if (dead) { sym_reach("failed"); CHECK(v != OCS_KEEP_ALIVE && v < 0, "response: connection kept after a failed write"); }
  // what went out before is the beginning of the undisturbed answer: check the body part seen
  size_t i = 0; int found = 0; for (; i + 4 <= out_len && !found; i++) found = out_buf[i] == '\r' && out_buf[i + 1] == '\n' && out_buf[i + 2] == '\r' && out_buf[i + 3] == '\n';
  if (dead && found) { i += 3; size_t e = 0; int same = 1; if (head) same = i == out_len; else {
      int chunked = 0; for (size_t q = 0; q + 26 < i && !chunked; q++) chunked = ci_pre(out_buf + q, i - q, "transfer-encoding: chunked\r\n");
      if (!chunked) { same = out_len - i <= el && eqn(out_buf + i, exp_, out_len - i); }
      else { // read chunks as far as they go
        while (i < out_len && same) { unsigned long cs = 0; while (i < out_len && out_buf[i] != '\r') { char x = out_buf[i++]; cs = cs * 16 + (x >= 'A' ? x - 'A' + 10 : x - '0'); } if (i + 2 > out_len) break; i += 2; size_t m = cs; if (i + m > out_len) m = out_len - i; if (e + m > el) { same = 0; break; } same &= eqn(out_buf + i, exp_ + e, m); e += m; i += cs + 2; if (!cs) break; } } }
    sym_reach("partial"); CHECK(same, "response: bytes before the failure are wrong"); }
  if (!dead)
#endif
#ifdef WRONGLEN
  { answer a = client(out_buf, out_len, 1); CHECK(a.ok && a.has_len, "connection: head not readable");
    int exact = head || out_len - a.used == a.len;
    if (v == OCS_KEEP_ALIVE) { sym_reach("kept"); CHECK(exact, "connection: kept although the body does not have the announced length"); CHECK(wants, "connection: kept although a side wanted to close"); }
    else { sym_reach("closed"); CHECK(v < 0, "connection: no verdict"); CHECK(!(wants && exact), "connection: closed although both sides can go on"); } if (!exact) sym_reach("wrong length"); }
  if (0)
#endif
  { answer a = client(out_buf, out_len, head);
    CHECK(a.ok, a.ok ? "response: not readable by a client" : "response: not readable by a client");
    if (a.ok) {
      CHECK(a.used == out_len, "response: bytes after the end of the response");
      if (!head) CHECK(a.blen == el && eqn(a.body, exp_, el < a.blen ? el : a.blen), "response: the client reads another body");
      if (a.has_len) CHECK(a.len == el, "response: announced length differs from the body");
      if (!http11) CHECK(!a.chunked, "response: chunks for an HTTP/1.0 client");
      int visible = a.has_len || a.chunked;
      if (v == OCS_KEEP_ALIVE) { sym_reach("kept"); CHECK(wants, "connection: kept although a side wanted to close"); CHECK(visible || head, "connection: kept although the end of the body is not visible"); CHECK(!a.close, "connection: kept although the close was announced"); }
      else { sym_reach("closed"); CHECK(v < 0, "connection: no verdict"); 
#if RETS == 1
        CHECK(!(wants && visible), "connection: closed although both sides can go on"); if (http11) CHECK(a.close, "connection: closed without telling");
#endif
      }
      if (a.chunked) sym_reach("chunked"); if (a.has_len) sym_reach("length"); if (!visible) sym_reach("until close"); } }
  onion_request_free(r); onion_handler_free(hh); CHECK(sym_heap_live() == base_live, "response: memory leaked");
}
