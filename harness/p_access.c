// everything a handler may ask of a request agrees with what was sent
#include "req.h"
#include "util.h"
#include "fs.h"
#include <netdb.h>
#include <errno.h>
static int desc_len, desc_calls; static char descr[300];
int vf_getnameinfo(const struct sockaddr *s, socklen_t l, char *h, socklen_t hl, char *p, socklen_t pl, int f) { desc_calls++; CHECK((f & NI_NUMERICHOST), "client: asks the name service for every client"); if (desc_len < 0) return EAI_FAIL; CHECK(desc_len < 0 || h, "client: no room for the name"); if (desc_len >= (int)hl) return EAI_OVERFLOW; memcpy(h, descr, desc_len); h[desc_len] = 0; return 0; }
static int seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); if (strlen(b) != n) return 0; return eqn(a, b, n); }
static char st[600]; static int sl; static void put(const char *s) { size_t n = strlen(s); for (size_t i = 0; i < n; i++) st[sl++] = s[i]; }
static int seen; static char gotk[8], gotv[8]; static void collect(void *d, const char *k, const char *v, int f) { seen++; strncpy(gotk, k, 7); strncpy(gotv, v, 7); }
static const char *ms[] = { "GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH" };
void harness(void) {
  onion_request *r = mkreq(); the_lp.secure = sym_pick(0, 1, "secure");
#if MODE == 1
  int m = sym_pick(0, 10, "method"); int n = sym_pick(0, N, "len"); char p[N + 1]; if (n) sym_make(p, n, "path"); for (int i = 0; i < n; i++) sym_assume(INR(p[i], 'a', 'z') | (p[i] == '/')); p[n] = 0;
  int q = sym_pick(0, 2, "query"); char k = sym_u8("key"), v = sym_u8("value"); sym_assume(INR(k, 'a', 'z') & INR(v, 'a', 'z')); char ks[2] = { k, 0 }, vs[2] = { v, 0 };
  put(ms[m]); put(" /"); put(p); if (q) { put("?"); put(ks); if (q == 2) { put("="); put(vs); } } put(" HTTP/1.1\r\nHost: h\r\n"); if (m == 1 || m == 5 || m == 4 || m == 9 || m == 10) put("Content-Length: 0\r\n"); put("\r\n");
  char *b = heapcopy(st, sl); int st_ = onion_request_write(r, b, sl); free(b); CHECK(st_ == OCS_REQUEST_READY, "request: a request is not accepted"); if (st_ != OCS_REQUEST_READY) return; onion_request_polish(r);
  CHECK(seq(onion_request_get_method_name(r), ms[m]), "request: another method"); char full[N + 2] = "/"; memcpy(full + 1, p, n + 1); CHECK(seq(onion_request_get_fullpath(r), full), "request: another path"); CHECK(seq(onion_request_get_path(r), p), "request: another local path");
  int adv = sym_pick(0, n, "advance"); onion_request_advance_path(r, adv); CHECK(seq(onion_request_get_path(r), p + adv), "request: another local path after a step"); CHECK(seq(onion_request_get_fullpath(r), full), "request: a step changes the whole path");
  CHECK(onion_request_get_flags(r) == r->flags && ((onion_request_get_flags(r) & OR_METHODS) <= 15) && (onion_request_get_flags(r) & OR_HTTP11), "request: other flags");
  CHECK(onion_request_is_secure(r) == the_lp.secure, "request: secure and it is not, or the other way round");
  const char *w = q == 2 ? vs : q == 1 ? "" : NULL; CHECK(seq(onion_request_get_query(r, ks), w), "request: another query value"); CHECK(seq(onion_request_get_queryd(r, ks, "dflt"), w ? w : "dflt"), "request: another query value with a default"); char none[3] = { k, k, 0 }; CHECK(onion_request_get_query(r, none) == NULL && seq(onion_request_get_queryd(r, none, vs), vs), "request: a value nobody sent");
  const onion_dict *qd = onion_request_get_query_dict(r); CHECK(onion_dict_count(qd) == !!q, "request: another number of query values"); if (q) { seen = 0; onion_dict_preorder(qd, collect, NULL); CHECK(seen == 1 && seq(gotk, ks) && seq(gotv, w), "request: another query dictionary"); sym_reach("query"); }
  const onion_dict *hd = onion_request_get_header_dict(r); CHECK(seq(onion_dict_get(hd, "Host"), "h") && seq(onion_request_get_header(r, "hOST"), "h"), "request: another header");
  CHECK(onion_request_get_post(r, ks) == NULL && onion_request_get_file(r, ks) == NULL && onion_dict_count(onion_request_get_post_dict(r)) == 0 && onion_dict_count(onion_request_get_file_dict(r)) == (m == 5), "request: fields nobody sent"); sym_reach("done");
#elif MODE == 2
  int has = sym_pick(0, 1, "header"); int n = sym_pick(0, N, "len"); char l[N + 1]; if (n) sym_make(l, n, "language"); for (int i = 0; i < n; i++) sym_assume(INR(l[i], 33, 126) & (i || l[i] != ' ')); l[n] = 0;
  put("GET / HTTP/1.1\r\n"); if (has) { put("Accept-Language: "); put(l); put("\r\n"); } put("\r\n"); char *b = heapcopy(st, sl); int v = onion_request_write(r, b, sl); free(b); CHECK(v == OCS_REQUEST_READY, "request: a request is not accepted");
  const char *g = onion_request_get_language_code(r); int e = 0; while (e < n && !((l[e] == '-') | (l[e] == ';') | (l[e] == ','))) e++; l[e] = 0; CHECK(seq(g, has ? l : "C"), "language: another language"); onion_low_free((void *)g); sym_reach(has ? "language" : "none");
#elif MODE == 3
  static const int lens[] = { -1, 0, 1, 15, 253, 254, 255, 256, 290 }; desc_len = lens[sym_pick(0, 8, "name")]; for (int i = 0; i < 299; i++) descr[i] = 'a' + i % 20; int al = sym_pick(0, 1, "address") ? sym_pick(1, 2, "kind") * 12 + 4 : 0; r->connection.cli_len = al; unsigned char raw[28]; sym_make(raw, 28, "bytes"); memcpy(&r->connection.cli_addr, raw, al);
  socklen_t gl = 99; struct sockaddr_storage *ss = onion_request_get_sockadd_storage(r, &gl); CHECK(gl == al && (ss != NULL) == (al != 0), "client: another address length"); if (ss) CHECK(eqn((char *)ss, (char *)raw, al), "client: another address"); CHECK(onion_request_get_sockadd_storage(r, NULL) == ss, "client: another address without a length");
  for (int k = 0; k < 2; k++) { const char *g = onion_request_get_client_description(r); if (!al || desc_len < 0 || desc_len > 255) { CHECK(g == NULL, "client: a name from nowhere"); sym_reach("unknown"); } else { CHECK(g || desc_len >= 254, "client: no name"); if (g) { CHECK(strlen(g) == desc_len && eqn(g, descr, desc_len), "client: another name"); sym_reach("named"); } } }
#endif
  onion_request_free(r); CHECK(out_closed == 1, "request: connection not closed"); CHECK(sym_heap_live() == 0, "request: memory leaked"); }
