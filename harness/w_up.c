// websocket upgrade
#include "req.h"
#include "util.h"
#include "client.h"
#include "ws.h"
static char b64c(unsigned v) { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[v & 63]; }
static int hasline(const char *name, const char *val, size_t vl, size_t head) { int found = 0; size_t nl = strlen(name); for (size_t i = 0; i + 1 < head; i++) if (out_buf[i] == '\n' && ci_pre(out_buf + i + 1, head - i - 1, name)) { found++; const char *v = out_buf + i + 1 + nl; CHECK(eqn(v, val, vl) && v[vl] == '\r', "websocket upgrade: wrong header in the answer"); } return found; }
static char *hdr(char *v) { return v; }
void harness(void) {
  warm(); onion_request *r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = onion_low_strdup("/"); r->path = r->fullpath; r->GET = onion_dict_new();
  int must = 1, mustnot = 0; char *up = NULL, *ver = NULL, *key = NULL, *pro = NULL; static const char W[] = "websocket";
#if MODE == 1
  int u = sym_pick(0, 2, "upgrade"); if (u == 0) { must = 0; mustnot = 1; } else if (u == 1) { up = symstrn(9, "upgrade text"); unsigned d = 0; for (int i = 0; i < 9; i++) { unsigned char c = up[i]; c |= (INR(c, 'A', 'Z')) << 5; d |= c ^ W[i]; } if (d) { must = 0; mustnot = 1; } } else { up = symstr(0, 3, "upgrade text"); must = 0; mustnot = 1; }
  ver = strdup("13"); key = strdup("k");
#elif MODE == 3
  static const int L[] = { 1, 2, 15, 16, 23, 24, 25, 26, 27, 28, 29, 32, 36, 48, 63, 64, 65, 100, 128, 220 }; up = strdup("websocket"); ver = strdup("13"); int which = sym_pick(0, 1, "which"), n = L[sym_pick(0, sizeof L / sizeof *L - 1, "length")]; char *t = malloc(n + 1); for (int i = 0; i < n; i++) t[i] = 'a' + i % 26; sym_make(t, 1, "first"); sym_make(t + n - 1, 1, "last"); sym_assume((t[0] > ' ') & (t[n - 1] > ' ') & (t[0] < 127) & (t[n - 1] < 127)); t[n] = 0; if (which) { pro = t; key = strdup("k"); } else key = t;
#else
  up = strdup("websocket");
  int hv = sym_pick(0, 1, "version"); if (hv) { ver = symstr(0, VN, "version text"); if (strcmp(ver, "13")) must = 0; char *p = ver; while (*p == ' ' || INR(*p, 9, 13)) p++; int neg = 0; if (*p == '-' || *p == '+') neg = *p++ == '-'; int v = 0; while (INR(*p, '0', '9')) v = v * 10 + (*p++ - '0'); if (neg) v = -v; if (v != 13) mustnot = 1; } else { must = 0; mustnot = 1; }
  int hk = sym_pick(0, 1, "key"); if (hk) { key = symstr(0, KN, "key text"); if (!*key) must = 0; } else { must = 0; mustnot = 1; }
  if (sym_pick(0, 1, "protocol")) { pro = symstr(1, 2, "protocol text"); for (char *p = pro; *p; p++) sym_assume(INR(*p, 33, 126)); }
  sym_make(sha_out + 18, 2, "hash");
#endif
  if (up) onion_dict_add(r->headers, "Upgrade", up, OD_DUP_VALUE); if (ver) onion_dict_add(r->headers, "Sec-WebSocket-Version", ver, OD_DUP_VALUE); if (key) onion_dict_add(r->headers, "Sec-WebSocket-Key", key, OD_DUP_VALUE); if (pro) onion_dict_add(r->headers, "Sec-WebSocket-Protocol", pro, OD_DUP_VALUE);
  for (int i = 0; i < 18; i++) sha_out[i] = i * 37;
  onion_response *res = onion_response_new(r); onion_websocket *ws = onion_websocket_new(r, res);
  CHECK(!(must && !ws), "websocket upgrade: a valid request is refused"); CHECK(!(mustnot && ws), "websocket upgrade: done without being asked properly");
  if (ws) { CHECK(onion_websocket_new(r, res) == ws, "websocket upgrade: done twice");
    onion_response_flush(res); CHECK(sha_calls == 1, "websocket upgrade: hash"); size_t kl = strlen(key); CHECK(sha_len == kl + 36 && eqn(sha_in, key, kl) && eqn(sha_in + kl, "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", 36), "websocket upgrade: the token is not made from the key of the request");
    answer a = client(out_buf, out_len, 1); CHECK(a.ok, "websocket upgrade: bad answer"); CHECK(a.head == out_len, "websocket upgrade: bytes after the answer"); CHECK(!memcmp(out_buf, "HTTP/1.1 101 ", 13), "websocket upgrade: wrong status"); CHECK(!a.chunked && !a.has_len && !a.close && a.upgrade == 1, "websocket upgrade: wrong headers in the answer");
    char tok[29]; for (int i = 0; i < 20; i += 3) { unsigned x = sha_out[i] << 16 | sha_out[i + 1] << 8 | (i + 2 < 20 ? sha_out[i + 2] : 0); char *t = tok + i / 3 * 4; t[0] = b64c(x >> 18); t[1] = b64c(x >> 12); t[2] = b64c(x >> 6); t[3] = i + 2 < 20 ? b64c(x) : '='; }
    CHECK(hasline("sec-websocket-accept: ", tok, 28, a.head) == 1, "websocket upgrade: no token"); CHECK(hasline("upgrade: ", "websocket", 9, a.head) == 1, "websocket upgrade: no upgrade header"); if (pro) CHECK(hasline("sec-websocket-protocol: ", pro, strlen(pro), a.head) == 1, "websocket upgrade: the subprotocol is not answered"); else CHECK(hasline("sec-websocket-protocol: ", "", 0, a.head) == 0, "websocket upgrade: subprotocol not asked for");
    CHECK(r->websocket == ws && ws->req == r, "websocket upgrade: not linked"); out_len = 0; onion_response_free(res); CHECK(out_len == 0, "websocket upgrade: the ended response sends more"); sym_reach("upgraded"); }
  else { CHECK(!r->websocket && out_len == 0, "websocket upgrade: refused but something was sent"); onion_response_set_length(res, 1); onion_response_write(res, "x", 1); onion_response_free(res); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.blen == 1 && !memcmp(out_buf, "HTTP/1.1 200 ", 13) && !a.upgrade, "websocket upgrade: no ordinary response after a refusal"); sym_reach("refused"); }
  onion_request_free(r); free(up); free(ver); free(key); free(pro); CHECK(rnd == 0, "websocket upgrade: random generator not released"); CHECK(sym_heap_live() == base_live, "websocket upgrade: memory leaked"); sym_reach("done");
}
