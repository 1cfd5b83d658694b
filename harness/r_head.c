// the head of a response: status line, headers, cookies, length; cookies of any size
#define OUTMAX 16384
#include "req.h"
#include "util.h"
#include "client.h"
static int lines_eq(const char *l, size_t n) { // how often the line l[0..n) stands in the head (whole line)
  int c = 0; size_t i = 0; while (i < out_len) { size_t j = i; while (j < out_len && out_buf[j] != '\n') j++; size_t m = j > i ? j - 1 - i : 0; if (m == 0) break; if (m == n && eqn(out_buf + i, l, n)) c++; i = j + 1; } return c; }
static const char *phrase(int c) { switch (c) { case 200: return "OK"; case 201: return "Created"; case 206: return "Partial Content"; case 207: return "Multi-Status"; case 101: return "Switching Protocols"; case 301: return "Moved Permanently"; case 302: return "Found"; case 303: return "See Other"; case 304: return "Not Modified"; case 307: return "Temporary Redirect"; case 400: return "Bad Request"; case 401: return "Unauthorized"; case 403: return "Forbidden"; case 404: return "Not Found"; case 405: return "Method Not Allowed"; case 416: return "Range Not Satisfiable"; case 418: return "I'm a teapot"; case 500: return "Internal Server Error"; case 501: return "Not Implemented"; case 502: return "Bad Gateway"; case 503: return "Service Unavailable"; } return 0; }
static void expect_line(const char *l, const char *m) { CHECK(lines_eq(l, strlen(l)) == 1, m); }
static char big[4200];
void harness(void) {
  warm(); onion_request *r = mkreq(); const char *rq = "GET / HTTP/1.1\r\n\r\n"; onion_request_write(r, rq, strlen(rq)); onion_response *res = onion_response_new(r); int lines = 4; int code = 200; char want[5200];
  onion_response_set_length(res, 0);
#if MODE == 0   // any three digit code
  code = sym_u16("code"); sym_assume((code >= 100) & (code <= 599)); onion_response_set_code(res, code);
#elif MODE == 1 // two arbitrary headers
  int kl = sym_pick(1, N, "kl"), vl = sym_pick(0, N, "vl"); char *k = symstrn(kl, "key"), *v = symstrn(vl, "value"); for (int i = 0; i < kl; i++) sym_assume((k[i] != '\r') & (k[i] != '\n') & (k[i] != ':')); for (int i = 0; i < vl; i++) sym_assume((v[i] != '\r') & (v[i] != '\n'));
  sym_assume(!INR(k[0], 0, ' ')); onion_response_set_header(res, k, v); onion_response_set_header(res, "X-Other", "first"); onion_response_set_header(res, "X-Other", "o"); lines += 2;
#elif MODE == 2 // any length
  static const unsigned long lo[] = { 0, 99990, 2147483640ul, 4294967290ul, 9999999999999990ul, 18446744073709551600ul }; int cls = sym_pick(0, 5, "class"); unsigned long L = lo[cls]; if (cls < 2) L += sym_u16("length"); else L += sym_pick(0, 15, "low"); onion_response_set_length(res, L);
#elif MODE == 3 // a cookie of any size, with any attributes
  static const int sz[] = { 1, 2000, 4041, 4042, 4043, 4044, 4045, 4046, 4047, 4048, 4049, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4100 };
  int n = sz[sym_pick(0, SZ - 1, "size")]; int where = sym_pick(0, 3, "where"), validity = sym_pick(-1, 1, "validity"), flags = 0; if (validity == 1) validity = 60;
  memset(big, 'v', n); sym_make(big, 1, "first"); sym_assume((big[0] != 0) & (big[0] != '\r') & (big[0] != '\n')); big[n] = 0;
  const char *nm = where == 0 ? big : "n", *val = where == 1 ? big : "w", *path = where == 2 ? big : sym_pick(0, 1, "path") ? "/p" : NULL, *dom = where == 3 ? big : sym_pick(0, 1, "domain") ? "d.e" : NULL; sym_assume(where != 0 || big[0] != ' ');
#if FLAGS
  if (sym_pick(0, 1, "http only")) flags |= OC_HTTP_ONLY; if (sym_pick(0, 1, "secure")) flags |= OC_SECURE; if (sym_pick(0, 1, "none")) flags |= OC_SAMESITE_NONE; if (sym_pick(0, 1, "lax")) flags |= OC_SAMESITE_LAX; if (sym_pick(0, 1, "strict")) flags |= OC_SAMESITE_STRICT;
#else
  if (sym_pick(0, 1, "flags")) flags = OC_HTTP_ONLY | OC_SECURE | OC_SAMESITE_STRICT;
#endif
  int two = sym_pick(0, 1, "two"); if (two) { CHECK(onion_response_add_cookie(res, "other", "1", -1, NULL, NULL, 0), "head: small cookie refused"); lines++; }
  int ok = onion_response_add_cookie(res, nm, val, validity, path, dom, flags);
  strcpy(want, "Set-Cookie: "); strcat(want, nm); strcat(want, "="); strcat(want, val); if (validity == 0) strcat(want, "; expires=Thu, 01 Jan 1970 00:00:00 GMT"); if (validity > 0) strcat(want, "; expires=Sun, 09 Sep 2001 01:46:40 GMT"); if (path) { strcat(want, "; path="); strcat(want, path); } if (dom) { strcat(want, "; domain="); strcat(want, dom); }
  if (flags & OC_HTTP_ONLY) strcat(want, "; HttpOnly"); if (flags & OC_SECURE) strcat(want, "; Secure"); int ss = flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT); if (ss == OC_SAMESITE_NONE) strcat(want, "; SameSite=None"); if (ss == OC_SAMESITE_LAX) strcat(want, "; SameSite=Lax"); if (ss == OC_SAMESITE_STRICT) strcat(want, "; SameSite=Strict");
  int fits = strlen(want) - 12 < 4096; CHECK(ok == fits, "head: cookie that fits refused, or one that does not accepted"); if (ok) { lines++; sym_reach("cookie"); } else sym_reach("refused");
#endif
#if MODE == 4 // many headers, one of them long
  int at = sym_pick(0, MANY - 1, "which"), ln; sym_assume(at == 0 || at == 1 || at == MANY / 2 || at == MANY - 1); ln = longlen(); longfill(big, ln); char lc = sym_u8("last"); sym_assume((lc != 0) & (lc != '\r') & (lc != '\n')); big[ln - 1] = lc; big[ln] = 0; char hk[6] = "X-aa";
  for (int i = 0; i < MANY; i++) { hk[2] = 'a' + i / 26; hk[3] = 'a' + i % 26; onion_response_set_header(res, hk, i == at ? big : hk + 1); } lines += MANY;
#endif
#if MODE == 5 // many cookies, one of them long
  int at = sym_pick(0, 1, "where") ? MANY - 1 : 0, ln = longlen(); longfill(big, ln); char lc = sym_u8("last"); sym_assume((lc != 0) & (lc != '\r') & (lc != '\n')); big[ln - 1] = lc; big[ln] = 0; char ck[4] = "caa";
  for (int i = 0; i < MANY; i++) { ck[1] = 'a' + i / 26; ck[2] = 'a' + i % 26; CHECK(onion_response_add_cookie(res, ck, i == at ? big : ck + 1, -1, NULL, NULL, 0), "head: one of many cookies refused"); } lines += MANY;
#endif
#if MODE == 2
  onion_response_write_headers(res); onion_response_flush(res);
#else
  onion_response_free(res);
#endif
  answer a = client(out_buf, out_len, 1); CHECK(a.ok && a.used == out_len, "head: not a valid head"); if (!a.ok) return;
  CHECK(a.lines == lines, "head: lines lost or invented"); CHECK(a.has_len == 1, "head: no length");
  CHECK(eqn(out_buf, "HTTP/1.1 ", 9) && out_buf[12] == ' ', "head: bad status line"); CHECK((out_buf[9] - '0') * 100 + (out_buf[10] - '0') * 10 + (out_buf[11] - '0') == code, "head: another status code");
  size_t e = 13; while (out_buf[e] != '\r') e++; CHECK(e > 13, "head: no status text");
#if MODE == 0
  for (int c = 100; c < 600; c++) if (phrase(c) && code == c) { sym_reach("known"); CHECK(e - 13 == strlen(phrase(c)) && eqn(out_buf + 13, phrase(c), e - 13), "head: wrong status text"); }
#elif MODE == 1
  char *w = want; memcpy(w, k, kl); w[kl] = ':'; w[kl + 1] = ' '; memcpy(w + kl + 2, v, vl); CHECK(lines_eq(w, kl + 2 + vl) == 1, "head: header missing or changed"); expect_line("X-Other: o", "head: replaced header missing"); free(k); free(v);
#elif MODE == 4
  for (int i = 0; i < MANY; i++) { hk[2] = 'a' + i / 26; hk[3] = 'a' + i % 26; strcpy(want, hk); strcat(want, ": "); strcat(want, i == at ? big : hk + 1); CHECK(lines_eq(want, strlen(want)) == 1, "head: one of many headers missing or changed"); }
#elif MODE == 5
  for (int i = 0; i < MANY; i++) { ck[1] = 'a' + i / 26; ck[2] = 'a' + i % 26; strcpy(want, "Set-Cookie: "); strcat(want, ck); strcat(want, "="); strcat(want, i == at ? big : ck + 1); CHECK(lines_eq(want, strlen(want)) == 1, "head: one of many cookies missing or changed"); }
#elif MODE == 2
  CHECK(a.len == L, "head: announced length differs from the one set");
#elif MODE == 3
  if (ok) { expect_line(want, "head: cookie missing or changed"); } if (two) { sym_reach("two"); expect_line("Set-Cookie: other=1", "head: an earlier cookie is lost"); }
#endif
  expect_line("Content-Type: text/html", "head: content type missing"); expect_line("Date: Sun, 09 Sep 2001 01:46:40 GMT", "head: date missing"); sym_reach("done");
#if MODE == 2
  onion_dict_free(res->headers); onion_low_free(res);
#endif
  onion_request_free(r); CHECK(sym_heap_live() == base_live, "head: memory leaked");
}
