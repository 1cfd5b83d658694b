// a well-formed request line and headers reach the request as sent
#include "req.h"
#include "util.h"
#include "fs.h"
static char st[256]; static int sl;
static void put(const char *s) { size_t n = strlen(s); for (size_t i = 0; i < n; i++) st[sl++] = s[i]; }
static int send_(onion_request *r) { char *b = heapcopy(st, sl); int v = onion_request_write(r, b, sl); free(b); return v; }
static const char *known[] = { "GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH", NULL };
static const int ids[] = { OR_GET, OR_POST, OR_HEAD, OR_OPTIONS, OR_PROPFIND, OR_PUT, OR_DELETE, OR_MOVE, OR_MKCOL, OR_PROPPATCH, OR_PATCH };
static int seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); if (strlen(b) != n) return 0; return eqn(a, b, n); }
static int crlf = -1; static void nl(void) { if (crlf < 0) crlf = sym_bool("crlf"); put(crlf ? "\r\n" : "\n"); }
static char tchar(void) { char c = sym_u8("c"); sym_assume(INR(c, 33, 126) & (c != ':')); return c; }
void harness(void) {
  onion_request *r = mkreq();
#if MODE == 0 // method: any word
  char m[12]; int n = sym_pick(1, N, "len"); sym_make(m, n, "method"); for (int i = 0; i < n; i++) sym_assume(INR(m[i], 33, 255)); m[n] = 0;
  put(m); put(" /p HTTP/1.1\r\nContent-Length: 0\r\n\r\n"); int v = send_(r); int k = -1; for (int i = 0; known[i]; i++) if (seq(known[i], m)) k = i;
  if (v == OCS_REQUEST_READY) { CHECK(seq(onion_request_get_method_name(r), m), "request line: method differs from the one sent"); for (int i = 0; known[i]; i++) if (seq(known[i], m)) CHECK((r->flags & OR_METHODS) == ids[i], "request line: method flag differs from the one sent"); CHECK(seq(onion_request_get_fullpath(r), "/p"), "request line: path differs"); sym_reach("known"); }
  else { CHECK(v == OCS_NOT_IMPLEMENTED, "request line: unknown method without a not-implemented verdict"); CHECK(k < 0, "request line: a known method is refused"); sym_reach("unknown"); }
#elif MODE == 3 // method: known names with one letter changed
  char m[12]; int w = sym_pick(0, 9, "which"); strcpy(m, known[w]); int n = strlen(m); int at = sym_pick(0, n - 1, "at"); char c = sym_u8("c"); sym_assume(INR(c, 33, 255)); m[at] = c;
  put(m); put(" /p HTTP/1.1\r\nContent-Length: 0\r\n\r\n"); int v = send_(r);
  if (v == OCS_REQUEST_READY) { CHECK(seq(onion_request_get_method_name(r), m), "request line: method differs from the one sent"); for (int i = 0; known[i]; i++) if (seq(known[i], m)) CHECK((r->flags & OR_METHODS) == ids[i], "request line: method flag differs from the one sent"); sym_reach("known"); }
  else { CHECK(v == OCS_NOT_IMPLEMENTED, "request line: unknown method without a not-implemented verdict"); for (int i = 0; known[i] && i < 10; i++) CHECK(!seq(known[i], m), "request line: a known method is refused"); sym_reach("unknown"); }
#elif MODE == 1 // path and version
  int n = sym_pick(0, N, "len"); char p[N + 2]; p[0] = '/'; if (n) sym_make(p + 1, n, "path"); for (int i = 1; i <= n; i++) sym_assume(INR(p[i], 33, 255) & (p[i] != '?')); p[n + 1] = 0;
  char ver[10]; strcpy(ver, "HTTP/1.1"); int at = sym_pick(0, 8, "vat"); if (at < 8) { ver[at] = sym_u8("v"); sym_assume(INR(ver[at], 33, 126)); }
  put(sym_bool("head") ? "HEAD " : "GET "); put(p); put(" "); put(ver); nl(); nl(); int v = send_(r);
  CHECK(v == OCS_REQUEST_READY, "request line: well-formed request not accepted"); if (v != OCS_REQUEST_READY) return;
  // reference unescape
  char e[N + 2]; int o = 0; for (int i = 0; i <= n; i++) { if (p[i] == '%' && i + 2 <= n && HEXD(p[i + 1]) && HEXD(p[i + 2])) { int x = hexv(p[i + 1]) * 16 + hexv(p[i + 2]); sym_assume(x != 0); e[o++] = x; i += 2; } else if (p[i] == '%') { sym_stop(); } else e[o++] = p[i] == '+' ? ' ' : p[i]; } e[o] = 0;
  CHECK(seq(onion_request_get_fullpath(r), e), "request line: path differs from the one sent"); CHECK(!!(r->flags & OR_HTTP11) == seq(ver, "HTTP/1.1"), "request line: version differs from the one sent"); sym_reach("ready");
#elif MODE == 4 // something between the version and the end of the line
  char t[N + 1]; int n = sym_pick(1, N, "len"); sym_make(t, n, "text"); t[n] = 0; for (int i = 0; i < n; i++) sym_assume((t[i] != 0) & (t[i] != '\n')); put("GET / HTTP/1.1"); put(sym_bool("space") ? " " : "\r"); put(t); put("k: v"); nl(); nl(); int v = send_(r);
  if (v == OCS_REQUEST_READY) { CHECK(onion_dict_count(r->headers) == 0, "headers: a header made of the rest of the request line"); sym_reach("accepted"); } else { CHECK(v < 0, "headers: neither accepted nor refused"); sym_reach("refused"); }
#else // headers
  char k1[3] = { tchar(), 0, 0 }, k2[3] = { tchar(), 0, 0 }; if (sym_bool("two")) k1[1] = tchar();
#define LOW(c) ((c) | (INR(c, 'A', 'Z') << 5))
  sym_assume(!((LOW(k1[0]) == LOW(k2[0])) & (k1[1] == 0)));
  char v1[N + 1], v2[2]; int n = sym_pick(0, N, "len"); if (n) sym_make(v1, n, "value"); for (int i = 0; i < n; i++) sym_assume((v1[i] != 0) & (v1[i] != '\r') & (v1[i] != '\n')); v1[n] = 0; v2[0] = sym_u8("v2"); v2[1] = 0; sym_assume(INR(v2[0], 33, 255));
  put("GET / HTTP/1.1"); nl(); put(k1); put(sym_bool("sp") ? ": " : ":"); put(v1); if (sym_bool("blank")) { nl(); put(sym_bool("blank tab") ? "\t " : " "); } int fold = sym_bool("fold"); if (fold) { nl(); put(sym_bool("tab") ? "\t \t" : " "); put("zz"); } nl(); put(k2); put(": "); put(v2); nl(); nl();
  int v = send_(r); CHECK(v == OCS_REQUEST_READY, "headers: well-formed headers not accepted"); if (v != OCS_REQUEST_READY) return;
  int b = 0; while (v1[b] == ' ' || v1[b] == '\t') b++; char e[N + 5]; int o = 0; for (int i = b; i < n; i++) e[o++] = v1[i]; e[o] = 0; if (fold) strcat(e, o ? " zz" : "zz");
  for (int i = 0; k1[i]; i++) if (sym_bool("case")) { unsigned char u = k1[i]; k1[i] = u ^ ((INR(u, 'a', 'z') | INR(u, 'A', 'Z')) << 5); }
  const char *g1 = onion_request_get_header(r, k1), *g2 = onion_request_get_header(r, k2);
  CHECK(g1 && g2, "headers: a header that was sent is not there"); if (!g1 || !g2) return; CHECK(seq(g1, e), "headers: value differs from the one sent"); CHECK(seq(g2, v2), "headers: second value differs from the one sent"); CHECK(onion_dict_count(r->headers) == 2, "headers: number differs from those sent"); sym_reach(fold ? "fold" : "plain");
#endif
  onion_request_free(r); CHECK(sym_heap_live() == 0, "request line: memory leaked");
}
