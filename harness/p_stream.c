// any bytes from any parser state, in any two packets (or byte by byte): no memory error, no hang, no leak
#include "req.h"
#include "fs.h"
#include "util.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef SUF
#define SUF ""
#endif
#ifndef FILL
#define FILL 0
#endif
static int feed(onion_request *req, const char *s, size_t n) { if (!n) return OCS_NEED_MORE_DATA; char *b = heapcopy(s, n); int r = onion_request_write(req, b, n); free(b); return r; }
void harness(void) {
  onion_request *req = mkreq(); int r = OCS_NEED_MORE_DATA;
#ifdef MAXPOST
  the_server.max_post_size = MAXPOST;
#endif
  r = feed(req, PRE, strlen(PRE)); if (r != OCS_NEED_MORE_DATA) { sym_reach("pre-ended"); goto out; }
  if (FILL) { char *b = malloc(FILL); memset(b, 'a', FILL); r = onion_request_write(req, b, FILL); free(b); if (r != OCS_NEED_MORE_DATA) { sym_reach("pre-ended"); goto out; } }
  char d[N]; sym_make(d, N, "data");
#ifdef ALPHA
  for (int i = 0; i < N; i++) { int ok = 0; for (int k = 0; k < sizeof(ALPHA) - 1; k++) ok |= d[i] == (ALPHA)[k]; sym_assume(ok); }
#endif
#ifdef BYTES
  for (int i = 0; i < N && r == OCS_NEED_MORE_DATA; i++) r = feed(req, d + i, 1);
#else
  int cut = sym_pick(0, N - 1, "cut"); r = feed(req, d, cut); if (r == OCS_NEED_MORE_DATA) r = feed(req, d + cut, N - cut);
#endif
  if (r == OCS_NEED_MORE_DATA) r = feed(req, SUF, strlen(SUF));
 out:
  CHECK(r == OCS_NEED_MORE_DATA || r == OCS_REQUEST_READY || r < 0, "parser: verdict is neither ready, more, nor an error");
  if (r == OCS_REQUEST_READY) { sym_reach("ready"); CHECK(req->fullpath != NULL && req->GET != NULL, "parser: ready without path or query"); } else if (r == OCS_NEED_MORE_DATA) sym_reach("more"); else sym_reach("error");
  if (sym_bool("clean")) onion_request_clean(req);
  onion_request_free(req);
  CHECK(sym_heap_live() == 0, "parser: request memory not released"); fs_all_gone();
}
