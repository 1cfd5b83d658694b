// websocket messages sent
#define OUTMAX 140000
#include "req.h"
#include "util.h"
#include "ws.h"
#include <stdio.h>
static const int lens[] = { LENS }; static int calls, cut_at, cut_size, fail_at, fail_kind, failed, after;
static ssize_t cut_write(onion_request *r, const char *d, size_t n) { calls++; if (failed) after += n; if (calls == fail_at) { failed = 1; return fail_kind ? -1 : 0; } if (calls == cut_at && (size_t)cut_size < n) n = cut_size; CHECK(out_len + n <= OUTMAX, "websocket write: too much sent"); CHECK(sym_readable(d, n), "websocket write: sends bytes outside the message"); memcpy(out_buf + out_len, d, n); out_len += n; return n; }
void harness(void) {
  onion_websocket *ws = mkws(); if (!ws) return; the_lp.write = cut_write;
  int op = sym_pick(0, 2, "type"); static const onion_websocket_opcode ops[] = { OWS_TEXT, OWS_BINARY, OWS_PONG }; onion_websocket_set_opcode(ws, ops[op]);
  for (int m = 0; m < MSGS; m++) {
  size_t n = lens[sym_pick(0, sizeof lens / sizeof *lens - 1, "length")]; char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = 'A' + i % 23; p[n] = 0;
  if (n) { sym_make(p, 1, "first"); sym_make(p + n - 1, 1, "last"); sym_make(p + n / 2, 1, "middle"); }
#ifdef FMT
  if (n) { sym_assume(p[0] && p[n - 1] && p[n / 2]); } int x = sym_pick(0, 1, "prefix");
#endif
#ifdef FAULTS
  cut_at = sym_pick(0, 3, "short write at"); if (cut_at) cut_size = sym_pick(1, 2, "short write of"); fail_at = sym_pick(0, 4, "fails at"); if (fail_at) fail_kind = sym_pick(0, 1, "fails with");
#endif
  out_len = 0; calls = failed = after = 0;
#ifdef FMT
  size_t pre = x ? 2 : 0; int w = x ? onion_websocket_printf(ws, "%d:%s", 7, p) : onion_websocket_printf(ws, "%s", p);
#else
  size_t pre = 0; int w = onion_websocket_write(ws, p, n);
#endif
  size_t len = n + pre;
  if (failed) { CHECK(w < 0, "websocket write: a failure is not reported"); CHECK(!after, "websocket write: goes on after a failure"); sym_reach("failed"); free(p); break; }
  CHECK(w == (int)len, "websocket write: does not report the bytes sent");
  unsigned char *o = (unsigned char *)out_buf; CHECK(out_len >= 2, "websocket write: no frame"); size_t h = 2; unsigned long l = o[1] & 127;
  CHECK(o[0] == (0x80 | ops[op]), "websocket write: wrong type or flags"); CHECK(!(o[1] & 128), "websocket write: announces a mask");
  if (l == 126) { l = o[2] << 8 | o[3]; h = 4; CHECK(l > 125, "websocket write: length not in the shortest form"); sym_reach("16"); } else if (l == 127) { l = 0; for (int i = 0; i < 8; i++) l = l << 8 | o[2 + i]; h = 10; CHECK(l > 65535, "websocket write: length not in the shortest form"); sym_reach("64"); } else sym_reach("7");
  CHECK(l == len, "websocket write: announces another length"); CHECK(out_len == h + len, "websocket write: sends another number of bytes than announced");
  if (pre) CHECK(o[h] == '7' && o[h + 1] == ':', "websocket write: other payload");
  CHECK(eqn((char *)o + h + pre, p, n), "websocket write: other payload"); CHECK(onion_websocket_get_opcode(ws) == ops[op], "websocket write: changes the type"); free(p); }
  the_lp.write = rec_write; endws(); sym_reach("done");
}
