// websocket input: any bytes from the peer, in any pieces, against a reference frame decoder
#ifndef OUTMAX
#define OUTMAX 4096
#endif
#include "req.h"
#include "util.h"
#include "ws.h"
#include <poll.h>
#ifndef N
#define N (PAY + 14)
#endif
static int eof_kind; static void eof_kind_pick(void) { eof_kind = -sym_pick(0, 1, "end kind"); }
static unsigned char st[N + 1]; static int sn, sp, piece, cut, eofs;
static ssize_t ws_reader(onion_request *r, char *d, size_t n) { if (n == 0) return 0; int av = sn - sp; if (av <= 0) { eofs++; CHECK(eofs < 4, "websocket read: keeps reading a closed connection"); return eof_kind; }
  if (piece == 1) av = 1; else if (cut > sp && cut < sp + av) av = cut - sp; int k = (n >= (size_t)av) ? av : (int)n; k = conc(k, av); memcpy(d, st + sp, k); sp += k; return k; }
int vf_poll(struct pollfd *p, unsigned long n, int t) { p->revents = POLLIN; return 1; }
unsigned vf_sleep(unsigned s) { return 0; }
// reference
#define MAXD (N + 8)
static unsigned char rd[MAXD]; static int rn; static struct { int op; int len; } ev[N]; static int evn; static unsigned char rr[MAXD + 16]; static int rrn, ended, optclose; 
static void reference(void) { int p = 0; for (;;) { if (sn - p < 2) return; int op = st[p] & 15, m = st[p + 1] >> 7; unsigned long l = st[p + 1] & 127; p += 2;
    if (l == 126) { if (sn - p < 2) return; l = st[p] << 8 | st[p + 1]; p += 2; } else if (l == 127) { if (sn - p < 8) return; l = 0; for (int i = 0; i < 8; i++) l = l << 8 | st[p + i]; p += 8; if (l >> 63) return; }
    unsigned char k[4] = { 0 }; if (m) { if (sn - p < 4) return; memcpy(k, st + p, 4); p += 4; }
    if (op == 8) { ended = 1; if (l < 2 || (unsigned long)(sn - p) < 2) { optclose = 1; return; } rr[rrn++] = 0x88; rr[rrn++] = 2; rr[rrn++] = st[p] ^ k[0]; rr[rrn++] = st[p + 1] ^ k[1]; return; }
    if (op == 9) { if (l > 125) return; if ((unsigned long)(sn - p) < l) return; int n = conc((int)l, 125); rr[rrn++] = 0x8A; rr[rrn++] = n; for (int i = 0; i < n; i++) rr[rrn++] = st[p + i] ^ k[i & 3]; p += n; continue; }
    int n = l > (unsigned long)(sn - p) ? sn - p : conc((int)l, sn - p); ev[evn].op = op; ev[evn].len = l > 100000 ? -1 : (int)l; evn++; for (int i = 0; i < n; i++) rd[rn++] = st[p + i] ^ k[i & 3]; p += n; if ((unsigned long)n < l) return; } }
static unsigned char gd[MAXD]; static int gn; static struct { int op; int len; } ge[4 * N]; static int gen; static int how, stopped, pop; static ssize_t pend;
static onion_connection_status cb(void *u, onion_websocket *ws, ssize_t ready) { if (ready == -1) return OCS_NEED_MORE_DATA; CHECK(!stopped, "websocket: called again after its connection ended"); CHECK(gen < 4 * N, "websocket: called without end");
  if (pend) { CHECK(ready == pend, "websocket: wrong number of bytes left"); CHECK(onion_websocket_get_opcode(ws) == pop, "websocket: type changes inside a frame"); } else { ge[gen].op = onion_websocket_get_opcode(ws); ge[gen].len = ready > 100000 ? -1 : (int)ready; gen++; }
  size_t want = how ? 1 : (ready > N ? N : ready); if (!ready) return OCS_NEED_MORE_DATA; want = conc((int)want, N); char *b = malloc(want ? want : 1); int r = onion_websocket_read(ws, b, want); CHECK(r <= (int)want, "websocket read: more than asked for"); if (r > 0) { CHECK(gn + r <= MAXD, "websocket read: invents data"); memcpy(gd + gn, b, r); gn += r; pend = ready - r; pop = onion_websocket_get_opcode(ws); } else stopped = 1; free(b); return OCS_NEED_MORE_DATA; }
void harness(void) {
#ifdef PAY
  int form = sym_pick(0, 2, "form"), op = sym_pick(0, 3, "type"); static const int ops[] = { 1, 2, 9, 10 }; int L = PAY; if (form == 0 && L > 125) { L = 125; } st[sn++] = 0x80 | ops[op]; st[sn++] = 0x80 | (form == 0 ? L : form == 1 ? 126 : 127); if (form == 1) { st[sn++] = L >> 8; st[sn++] = L; } if (form == 2) { for (int i = 7; i >= 0; i--) st[sn++] = i > 3 ? 0 : (unsigned)L >> (8 * i); }
  sym_make(st + sn, 4, "mask"); sn += 4; for (int i = 0; i < L && sn < N; i++) st[sn++] = 'a' + i % 26;
#else
  sym_make(st, N, "stream"); sn = sym_pick(NLO, N, "stream length");
#ifdef B0
  sym_assume(st[0] == B0);
#endif
#ifdef B1
  sym_assume((st[1] & 127) == B1);
#endif
#endif
  piece = sym_pick(0, 1, "pieces"); 
#ifdef FEWCUTS
  if (!piece) { static const int cs[] = { 0, 1, 3, 9, 13, 500, 1024, 2050, 4096 }; cut = cs[sym_pick(0, 8, "cut")]; } else piece = 0;
#else
  if (!piece) cut = sym_pick(0, sn - 1, "cut");
#endif
  eof_kind_pick(); reference();
  onion_websocket *ws = mkws(); if (!ws) return; out_len = 0; the_lp.read = ws_reader;
#if MODE == 1
  int ask = ASK; int end = 0; for (int i = 0; i < 3 * N + 3 && !end; i++) { char *b = malloc(ask); int r = onion_websocket_read(ws, b, ask); CHECK(r <= ask, "websocket read: more than asked for"); if (r <= 0) end = 1; else { CHECK(gn + r <= rn, "websocket read: invents data"); memcpy(gd + gn, b, r); gn += r; } free(b); }
  CHECK(end, "websocket read: does not tell the end of the connection");
#else
  wreq->connection.fd = 5; how = sym_pick(0, 1, "reads"); onion_websocket_set_callback(ws, cb); onion_connection_status s = onion_websocket_call(ws); CHECK(s < 0, "websocket: the connection does not end");
  // every data frame is announced with its type and length (the empty answer to a ping may be announced too)
  { int a = 0, b = 0; while (b < evn) { if (ev[b].op == 10 && ev[b].len == 0) { b++; continue; } while (a < gen && ge[a].op == 10 && ge[a].len == 0) a++; CHECK(a < gen, "websocket: a frame is not announced"); CHECK(ge[a].op == ev[b].op, "websocket: wrong frame type"); CHECK(ge[a].len == ev[b].len, "websocket: wrong frame length"); a++; b++; }
    while (a < gen && ge[a].op == 10 && ge[a].len == 0) a++; CHECK(a == gen, "websocket: announces a frame that was not sent"); }
  onion_websocket_set_callback(ws, NULL);
#endif
  CHECK(gn == rn, "websocket read: loses data"); CHECK(eqn((char *)gd, (char *)rd, rn), "websocket read: other data than sent"); if (rn) sym_reach("data");
  if (optclose) { CHECK(out_len == (size_t)rrn || (out_len >= (size_t)rrn + 2 && (unsigned char)out_buf[rrn] == 0x88), "websocket: wrong answer to a close"); } else CHECK(out_len == (size_t)rrn, "websocket: wrong answers to pings or close");
  CHECK(eqn(out_buf, (char *)rr, rrn), "websocket: wrong answers to pings or close"); if (rrn) sym_reach("answered"); if (ended) sym_reach("closed");
  the_lp.read = rec_read; endws(); sym_reach("done");
}
