// the life of a websocket: its callbacks, its user data and its end, through the real request processing
#include "req.h"
#include "util.h"
#include "ws.h"
#include <poll.h>
int vf_poll(struct pollfd *p, unsigned long n, int t) { p->revents = POLLIN; return 1; }
unsigned vf_sleep(unsigned s) { return 0; }
static unsigned char st[32]; static int sn, sp;
static ssize_t ws_reader(onion_request *r, char *d, size_t n) { int k = sn - sp; if (k <= 0) return 0; if (n < k) k = n; memcpy(d, st + sp, k); sp += k; return k; }
typedef struct { int live, owned; } U; static U us[12]; static int nu; static U *cur; static int isdata; static onion_request *req;
static void ufree(void *p) { U *u = p; CHECK(u->live == 1 && u->owned, "websocket: user data released twice, or not its own"); u->live = 2; }
static onion_websocket *W; static int curcb, ended, asked, calls, last;
static onion_connection_status cb0(void *u, onion_websocket *ws, ssize_t n), cb1(void *u, onion_websocket *ws, ssize_t n);
static void newuser(onion_websocket *ws) { U *old = cur; U *u = &us[nu++]; u->live = 1; u->owned = sym_pick(0, 1, "owned"); onion_websocket_set_userdata(ws, u, u->owned ? ufree : NULL); if (!isdata && old && old->owned) CHECK(old->live == 2, "websocket: user data that is replaced is not released"); cur = u; isdata = 0; CHECK(u->live == 1, "websocket: user data released while in use"); }
static void newcb(onion_websocket *ws) { curcb = sym_pick(0, 2, "callback"); onion_websocket_set_callback(ws, curcb == 0 ? NULL : curcb == 1 ? cb0 : cb1); }
static onion_connection_status any(int me, void *u, onion_websocket *ws, ssize_t n) { calls++; CHECK(calls < 24, "websocket: called without end"); CHECK(ws == W, "websocket: another websocket"); CHECK(curcb == me, "websocket: another callback than the one set"); CHECK(!ended, "websocket: called after its end");
  if (isdata) { CHECK(u == (void *)onion_request_get_data(req), "websocket: other user data than the request's"); if (u) CHECK(sym_readable(u, 1), "websocket: released user data"); } else CHECK(u == cur && ((U *)u)->live == 1, "websocket: other user data, or already released");
  if (n == -1) { ended = 1; sym_reach("end"); return OCS_CLOSE_CONNECTION; }
  CHECK(!asked, "websocket: called again after it asked to close"); int take = sym_pick(0, 1, "reads") ? (n > 1 ? sym_pick(1, 2, "take") : (int)n) : 0; if (take) { char b[4]; int r = onion_websocket_read(ws, b, take); CHECK(r <= take && r <= n, "websocket: reads more than there is"); }
  if (sym_pick(0, 1, "change")) { if (sym_pick(0, 1, "what")) newuser(ws); else newcb(ws); } 
  static const int rs[] = { OCS_NEED_MORE_DATA, OCS_CLOSE_CONNECTION, OCS_PROCESSED, OCS_INTERNAL_ERROR }; last = rs[sym_pick(0, 3, "status")]; if (!take && n && last == OCS_NEED_MORE_DATA) last = OCS_CLOSE_CONNECTION; if (last != OCS_NEED_MORE_DATA) asked = 1; return last; }
static onion_connection_status cb0(void *u, onion_websocket *ws, ssize_t n) { return any(1, u, ws, n); }
static onion_connection_status cb1(void *u, onion_websocket *ws, ssize_t n) { return any(2, u, ws, n); }
static int made;
static int hand(void *d, onion_request *r, onion_response *res) { req = r; if (!sym_pick(0, 1, "websocket")) { sym_reach("none"); return OCS_WEBSOCKET; }
  onion_websocket *ws = W = onion_websocket_new(r, res); CHECK(ws, "websocket: not made for a valid request"); made = 1; isdata = 1; CHECK(onion_websocket_new(r, res) == ws, "websocket: two for a request"); int n = sym_pick(0, 2, "changes"); for (int i = 0; i < n; i++) newuser(ws); newcb(ws); the_lp.read = ws_reader; return OCS_WEBSOCKET; }
static int errs; static int err(void *d, onion_request *r, onion_response *res) { errs++; onion_response_set_code(res, 500); return OCS_PROCESSED; }
void harness(void) { warm(); out_closed = 0; onion_request *r = mkreq(); int with = sym_pick(0, 1, "body"); the_server.root_handler = onion_handler_new(hand, NULL, NULL); the_server.internal_error_handler = onion_handler_new(err, NULL, NULL);
  int nf = sym_pick(0, FRAMES, "frames"); for (int i = 0; i < nf; i++) { int l = sym_pick(0, 2, "length"), op = sym_pick(1, 2, "type"); st[sn++] = 0x80 | op; st[sn++] = l; for (int k = 0; k < l; k++) st[sn++] = 'a' + k; } if (sym_pick(0, 1, "closes")) { st[sn++] = 0x88; st[sn++] = 0; }
  const char *t = with ? "PROPFIND / HTTP/1.1\r\nContent-Length: 2\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: k\r\n\r\nxy" : "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: k\r\n\r\n";
  r->connection.fd = 5; int v = onion_request_write(r, t, strlen(t)); if (v == OCS_REQUEST_READY) v = onion_request_process(r); CHECK(made || v < 0 || errs, "websocket: no websocket and no error"); if (made) CHECK(v < 0, "websocket: the connection goes on after its websocket"); int had = made && curcb; CHECK(!ended, "websocket: end told before it");
  if (made && calls) sym_reach("called"); onion_request_free(r); CHECK(ended == had, "websocket: its end is not told, or told twice"); for (int i = 0; i < nu; i++) if (us[i].owned) CHECK(us[i].live == 2, "websocket: user data is not released"); else CHECK(us[i].live == 1, "websocket: releases user data that is not its own");
  CHECK(out_closed == 1, "websocket: connection not closed once"); onion_handler_free(the_server.root_handler); onion_handler_free(the_server.internal_error_handler); CHECK(rnd == 0, "websocket: random generator not released"); CHECK(sym_heap_live() == base_live, "websocket: memory leaked"); sym_reach("done"); }
