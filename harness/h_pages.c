// ready-made handlers: fixed texts, packed data and the status page
#include "req.h"
#include "util.h"
#include "client.h"
#include "onion.h"
#include <regex.h>
#include <onion/url.h>
#include <onion/handlers/static.h>
#include <onion/handlers/opack.h>
#include <onion/handlers/internal_status.h>
static int nextc; static onion_connection_status after(void *p, onion_request *r, onion_response *res) { nextc++; onion_response_set_length(res, 4); onion_response_write(res, "next", 4); return OCS_PROCESSED; }
int vf_regcomp(regex_t *r, const char *p, int f) { return 0; }
void vf_regfree(regex_t *r) {}
static int rmatch; int vf_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) { if (!rmatch) return REG_NOMATCH; for (size_t i = 0; i < n; i++) m[i].rm_so = m[i].rm_eo = -1; if (n) { m[0].rm_so = 0; m[0].rm_eo = strlen(s); } return 0; }
static char *data; static int dlen; static void render(onion_response *res) { onion_response_write(res, data, dlen); }
static const int CODES[] = { 200, 201, 302, 404, 500 };
static void wantcode(int code) { CHECK(!memcmp(out_buf, "HTTP/1.1 ", 9) && out_buf[9] == '0' + code / 100 && out_buf[10] == '0' + code / 10 % 10 && out_buf[11] == '0' + code % 10, "pages: another status"); }
static onion *o; static onion_listen_point *lp;
static onion_request *ask(const char *path, int head) { onion_request *r = onion_request_new(lp); r->flags |= (head ? OR_HEAD : OR_GET) | OR_HTTP11; r->fullpath = onion_low_strdup(path); r->GET = onion_dict_new(); onion_request_polish(r); out_len = 0; nextc = 0; return r; }
void harness(void) {
  o = onion_new(O_ONE); lp = onion_listen_point_new(); lp->request_init = rec_init; lp->read = rec_read; lp->write = rec_write; lp->close = rec_close; lp->listen_stop = (void *)rec_close; onion_add_listen_point(o, NULL, NULL, lp);
  { onion_request *w = onion_request_new(lp); onion_response *res = onion_response_new(w); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(w); }
  long before = sym_heap_live();
#if MODE == 1 || MODE == 2
  char *t = TSTR(0, N, "text"); int tn = strlen(t), code = CODES[sym_pick(0, 4, "code")], head = sym_pick(0, 1, "head"); char *mine = dupn(t, tn);
#if MODE == 1
  onion_handler *h = onion_handler_static(mine, code); rmatch = 1;
#else
  onion_url *u = onion_url_new(); rmatch = sym_pick(0, 1, "match"); CHECK(onion_url_add_static(u, sym_pick(0, 1, "kind") ? "^r" : rmatch ? "x" : "other", mine, code) == 0, "pages: rule refused"); onion_handler *h = onion_url_to_handler(u);
#endif
  memset(mine, '#', tn); free(mine);   // the text is copied
  onion_handler_add(h, onion_handler_new(after, NULL, NULL)); onion_set_root_handler(o, h);
  for (int i = 0; i < 2; i++) { onion_request *r = ask("/x", head); onion_request_process(r); answer a = client(out_buf, out_len, head); CHECK(a.ok && a.used == out_len, "pages: the answer can not be read");
    if (rmatch) { CHECK(!nextc, "pages: the handler after it was called"); wantcode(code); if (head) CHECK(a.blen == 0, "pages: content for HEAD"); else { CHECK((int)a.blen == tn && eqn(a.body, t, tn), "pages: another text"); sym_reach("text"); } } else { CHECK(nextc == 1, "pages: the next handler was not called"); wantcode(200); sym_reach("next"); } onion_request_free(r); }
  free(t); onion_handler_free(h); onion_set_root_handler(o, NULL);
#elif MODE == 3
  
#ifdef LONG
  dlen = longlen(); data = malloc(dlen + 1); longfill(data, dlen); sym_make(data + dlen - 1, 1, "data");
#else
  dlen = sym_pick(0, N, "len"); data = malloc(dlen + 1); if (dlen) sym_make(data, dlen, "data");
#endif
  int known = sym_pick(0, 1, "known length"), head = sym_pick(0, 1, "head"); char *p = symstr(0, 2, "path"); for (char *q = p; *q; q++) sym_assume(*q == 'a' || *q == 'b' || *q == '/'); char *asked = symstr(0, 2, "asked"); for (char *q = asked; *q; q++) sym_assume(*q == 'a' || *q == 'b' || *q == '/');
  char *mine = dupn(p, strlen(p)); onion_handler *h = onion_handler_opack(mine, (onion_opack_renderer)render, known ? dlen : 0); memset(mine, '#', strlen(p)); free(mine); onion_handler_add(h, onion_handler_new(after, NULL, NULL)); onion_set_root_handler(o, h); char full[8] = "/"; strcat(full, asked);
  for (int i = 0; i < 2; i++) { onion_request *r = ask(full, head); onion_request_process(r); answer a = client(out_buf, out_len, head); CHECK(a.ok && (known || a.used == out_len), "pages: the answer can not be read"); wantcode(200);
    int same = !strcmp(p, asked); CHECK(nextc == !same, "pages: the path is not compared as a whole"); if (head) CHECK(a.blen == 0, "pages: content for HEAD"); else if (same) { CHECK((int)a.blen == dlen && eqn(a.body, data, dlen), "pages: other data"); sym_reach("data"); } else sym_reach("next"); onion_request_free(r); }
  free(p); free(asked); free(data); onion_handler_free(h); onion_set_root_handler(o, NULL);
#else
  onion_handler *h = onion_internal_status(); onion_set_root_handler(o, h); char *v = TSTR(1, N, "value"); static char page[OUTMAX]; int plen = 0; const char *names[] = { "X", "Cookie" }; int which = sym_pick(0, 2, "where");
  for (int i = 0; i < 2; i++) { onion_request *r = ask("/", 0); const char *val = i ? v : "\x01"; if (which == 2) onion_dict_add(r->headers, val, "y", OD_DUP_ALL); else onion_dict_add(r->headers, names[which], val, OD_DUP_ALL); onion_request_process(r); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len, "pages: the answer can not be read"); wantcode(200);
    if (!i) { memcpy(page, a.body, plen = a.blen); int k = 0; for (int j = 0; j < plen; j++) k += page[j] == 1; CHECK(k == 1, "pages: the header is not shown once"); }
    else { int k = 0, at = 0; for (int j = 0; j < plen; j++) { if (page[j] != 1) { CHECK(at < (int)a.blen && a.body[at] == page[j], "pages: a value changes the rest of the page"); at++; } else for (char *q = v; *q; q++) { const char *e = *q == '<' ? "&lt;" : *q == '>' ? "&gt;" : *q == '&' ? "&amp;" : *q == '"' ? "&quot;" : *q == '\'' ? "&#39;" : NULL; if (e) { CHECK(at + strlen(e) <= a.blen && eqn(a.body + at, e, strlen(e)), "pages: a value is not shown as text"); at += strlen(e); sym_reach("quoted"); } else { CHECK(at < (int)a.blen && a.body[at] == *q, "pages: another value"); at++; sym_reach("plain"); } } } CHECK(at == (int)a.blen, "pages: the page has more"); }
    onion_request_free(r); }
  free(v); onion_handler_free(h); onion_set_root_handler(o, NULL);
#endif
  onion_free(o); (void)before; sym_reach("done");
}
