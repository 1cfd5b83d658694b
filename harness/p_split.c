// one stream delivered whole and cut anywhere: the same verdict and the same request
#include "req.h"
#define NFILES 8
#include "fs.h"
#include "util.h"
#ifndef PRE
#define PRE ""
#endif
#ifndef SUF
#define SUF ""
#endif
typedef struct { const char *k[12], *v[12]; int n; } pairs;
static void coll(void *d, const char *k, const void *v, int f) { pairs *p = d; CHECK(p->n < 12, "split: too many pairs"); p->k[p->n] = k; p->v[p->n++] = v; }
static int seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); if (strlen(b) != n) return 0; return eqn(a, b, n); }
static int dsame(onion_dict *a, onion_dict *b, int files) {
  if (!a || !b) return a == b; pairs x = { .n = 0 }, y = { .n = 0 }; onion_dict_preorder(a, coll, &x); onion_dict_preorder(b, coll, &y); if (x.n != y.n) return 0; int ok = 1;
  for (int i = 0; i < x.n; i++) { ok &= seq(x.k[i], y.k[i]); if (!files) ok &= seq(x.v[i], y.v[i]); else { vfile *f = fs_get(x.v[i]), *g = fs_get(y.v[i]); if (!f || !g) ok &= f == g; else ok &= f->len == g->len && eqn(f->data, g->data, f->len); } }
  return ok; }
static int feed(onion_request *req, const char *s, size_t n) { if (!n) return OCS_NEED_MORE_DATA; char *b = heapcopy(s, n); int r = onion_request_write(req, b, n); free(b); return r; }
void harness(void) {
  
#ifdef LONG
  // a long piece in the middle, delivered whole and in packets
  int L = longlen(); size_t pl = strlen(PRE) + L, ql = strlen(SUF), tot = pl + N + ql; char *s = malloc(tot); memcpy(s, PRE, pl - L); longfill(s + pl - L, L);
#else
  size_t pl = strlen(PRE), ql = strlen(SUF), tot = pl + N + ql; char *s = malloc(tot); memcpy(s, PRE, pl);
#endif
  sym_make(s + pl, N, "data"); memcpy(s + pl + N, SUF, ql);
#ifdef ALPHA
  for (int i = 0; i < N; i++) { int ok = 0; for (int k = 0; k < sizeof(ALPHA) - 1; k++) ok |= s[pl + i] == (ALPHA)[k]; sym_assume(ok); }
#endif
  onion_request *a = mkreq(), *b = mkreq();
#ifdef MAXPOST
  the_server.max_post_size = MAXPOST;
#endif
#ifdef MAXFILE
  the_server.max_file_size = MAXFILE;
#endif
  int ra = feed(a, s, tot), rb = OCS_NEED_MORE_DATA;
#ifdef LONG
  { static const int ps[] = { 1, 100, 255, 1024, 1500, 2048, 4096 }; int p = ps[sym_pick(0, 6, "packet")]; for (size_t i = 0; i < tot && rb == OCS_NEED_MORE_DATA; i += p) rb = feed(b, s + i, tot - i < p ? tot - i : p); }
#else
  int lo = (int)pl - BACK; if (lo < 0) lo = 0; int hi = (int)(pl + N + FWD); if (hi > (int)tot - 1) hi = (int)tot - 1;
  int cut = sym_pick(lo, hi + 1, "cut");
  if (cut == hi + 1) { for (size_t i = 0; i < tot && rb == OCS_NEED_MORE_DATA; i++) rb = feed(b, s + i, 1); sym_reach("bytes"); }
  else { rb = feed(b, s, cut); if (rb == OCS_NEED_MORE_DATA) rb = feed(b, s + cut, tot - cut); }
#endif
  CHECK(ra == rb, "split: the verdict depends on how the stream is cut");
  if (ra == rb && ra == OCS_REQUEST_READY) { sym_reach("ready");
    CHECK(a->flags == b->flags, "split: method or version depends on how the stream is cut"); CHECK(seq(a->fullpath, b->fullpath), "split: path depends on how the stream is cut");
    CHECK(dsame(a->GET, b->GET, 0), "split: query depends on how the stream is cut"); CHECK(dsame(a->headers, b->headers, 0), "split: headers depend on how the stream is cut");
    CHECK(dsame(a->POST, b->POST, 0), "split: form fields depend on how the stream is cut"); CHECK(dsame(a->FILES, b->FILES, 1), "split: files depend on how the stream is cut");
    if ((a->flags & OR_METHODS) != OR_PUT) { CHECK(!a->data == !b->data, "split: body depends on how the stream is cut"); if (a->data && b->data) CHECK(onion_block_size(a->data) == onion_block_size(b->data) && eqn(onion_block_data(a->data), onion_block_data(b->data), onion_block_size(a->data)), "split: body depends on how the stream is cut"); } }
  else if (ra == OCS_NEED_MORE_DATA) sym_reach("more"); else sym_reach("error");
  onion_request_free(a); onion_request_free(b); free(s); CHECK(sym_heap_live() == 0, "split: memory leaked"); fs_all_gone();
}
