// handler chains, verdicts and the error page
#include "req.h"
#include "util.h"
#include "client.h"
#include "onion.h"
#ifndef HLO
#define HLO 1
#endif
static int verdict[HN], writes[HN], calls[HN], order, at[HN], freed[HN]; static onion_request *rq;
static const int V[] = { OCS_NOT_PROCESSED, OCS_PROCESSED, OCS_CLOSE_CONNECTION, OCS_INTERNAL_ERROR, OCS_NOT_IMPLEMENTED, OCS_FORBIDDEN, OCS_KEEP_ALIVE, OCS_WEBSOCKET };
#define NV 8
static int ids[HN];
static onion_connection_status h(void *p, onion_request *r, onion_response *res) { int i = *(int *)p; CHECK(r == rq, "handlers: another request"); calls[i]++; at[i] = order++; if (writes[i] == 1) onion_response_write(res, "ok", 2); else if (writes[i] == 2) { onion_response_set_length(res, 2); onion_response_write(res, "ok", 2); onion_response_flush(res); } return V[verdict[i]]; }
static void fr(void *p) { freed[*(int *)p]++; }
void harness(void) {
  onion *o = onion_new(O_ONE); CHECK(o != NULL, "server: not created"); onion_listen_point *lp = onion_listen_point_new(); lp->request_init = rec_init; lp->read = rec_read; lp->write = rec_write; lp->close = rec_close; lp->listen_stop = (void *)rec_close; onion_add_listen_point(o, NULL, NULL, lp); 
  { onion_request *w = onion_request_new(lp); onion_response *res = onion_response_new(w); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(w); }
  long before = sym_heap_live();
  int n = sym_pick(HLO, HN, "handlers"); onion_handler *first = NULL; for (int i = 0; i < n; i++) { ids[i] = i; verdict[i] = i < HLO - 1 ? 0 : sym_pick(0, NV - 1, "verdict"); writes[i] = verdict[i] ? sym_pick(0, 2, "writes") : 0; onion_handler *x = onion_handler_new(h, &ids[i], fr); CHECK(onion_handler_get_private_data(x) == &ids[i], "handlers: private data"); if (first) onion_handler_add(first, x); else first = x; }
  int own = sym_pick(0, 1, "group"); if (own) { onion_handler *mid = onion_handler_new(NULL, NULL, NULL); onion_handler_add(mid, first); first = mid; }
  onion_set_root_handler(o, first); CHECK(onion_get_root_handler(o) == first, "server: root handler");
  onion_request *r = rq = onion_request_new(lp); r->flags |= OR_GET | OR_HTTP11; r->fullpath = onion_low_strdup("/x"); r->GET = onion_dict_new(); onion_request_polish(r); out_len = 0;
  onion_connection_status s = onion_request_process(r);
  int k = 0; while (k < n && V[verdict[k]] == OCS_NOT_PROCESSED) k++;   // the handler that takes it
  for (int i = 0; i < n; i++) { CHECK(calls[i] == (i <= k), i <= k ? "handlers: one was not tried, or twice" : "handlers: one after the taker was called"); if (i <= k) CHECK(at[i] == i, "handlers: wrong order"); }
  int vd = k < n ? V[verdict[k]] : OCS_NOT_PROCESSED, wr = k < n ? writes[k] : 0; int code = vd == OCS_NOT_PROCESSED ? 404 : vd == OCS_INTERNAL_ERROR || vd == OCS_WEBSOCKET ? 500 : vd == OCS_NOT_IMPLEMENTED ? 501 : vd == OCS_FORBIDDEN ? 403 : 200;
  int body = !wr && code != 200 ? 0 : 1; if (wr) code = 200;   // an answer already begun by the handler stays
  answer a = client(out_buf, out_len, 0); CHECK(a.ok, "answer: can not be read"); CHECK(a.used == out_len, "answer: more than one answer, or bytes after it");
  CHECK(!memcmp(out_buf, "HTTP/1.1 ", 9) && out_buf[9] == '0' + code / 100 && out_buf[10] == '0' + code / 10 % 10 && out_buf[11] == '0' + code % 10, "answer: another status than the verdict asks for");
  if (wr) { CHECK(a.blen == 2 && !memcmp(a.body, "ok", 2), "answer: other content than the handler wrote"); sym_reach("handled"); } else if (body) CHECK(a.blen == 0, "answer: content nobody wrote"); else { CHECK(a.blen > 0, "answer: error without page"); sym_reach(code == 404 ? "404" : code == 403 ? "403" : code == 501 ? "501" : "500"); }
  if (vd == OCS_CLOSE_CONNECTION || (wr && code == 200 && vd < 0)) CHECK(s < 0, "answer: the connection goes on after it was to be closed");
  onion_request_free(r);
  int c = onion_handler_free(first); CHECK(c == n + own, "handlers: wrong number released"); for (int i = 0; i < n; i++) CHECK(freed[i] == 1, "handlers: data released another number of times"); onion_set_root_handler(o, NULL);
  CHECK(sym_heap_live() == before, "handlers: memory leaked"); onion_free(o); CHECK(rnd == 0 && pollers == 0, "server: not released"); sym_reach("done");
}
