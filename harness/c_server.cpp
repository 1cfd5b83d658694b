// Onion::Onion, listen points and Url: the calls reach the C library with the same values, and each object has one owner
#include "cxx.h"
extern "C" {
#include "req.h"
}
#include <stdarg.h>
#include "onion.hpp"
#include "http.hpp"
#include "https.hpp"
#include "url.hpp"
#include "request.hpp"
#include "response.hpp"
using namespace Onion;
static onion *O; static int flags_, made, freed, last; static uint64_t num; static std::string *A, *B; static onion_handler *root, *err; static onion_listen_point *LP[4]; static int nlp, lpn, lpf; static onion_url *ru; static char *va[3]; static int cret;
#define IS CHECK(o == O, "server: another one")
extern "C" onion *vf_onion_new(int f) { flags_ = f; made++; return O = (onion *)calloc(1, sizeof *O); }
extern "C" void vf_onion_listen_point_free(onion_listen_point *p) { if (p) { lpf++; free(p); } }
extern "C" onion_listen_point *vf_onion_listen_point_new(void) { lpn++; onion_listen_point *p = (onion_listen_point *)malloc(sizeof *p); memset(p, 0, sizeof *p); return p; }
extern "C" onion_listen_point *vf_onion_http_new(void) { return vf_onion_listen_point_new(); }
extern "C" onion_listen_point *vf_onion_https_new(void) { return vf_onion_listen_point_new(); }
extern "C" void vf_onion_free(onion *o) { IS; freed++; for (int i = 0; i < nlp; i++) vf_onion_listen_point_free(LP[i]); if (ru) onion_url_free(ru); if (root) onion_handler_free(root); if (err) onion_handler_free(err); free(o); }
extern "C" int vf_onion_add_listen_point(onion *o, const char *h, const char *p, onion_listen_point *l) { IS; last = 1; *A = h; *B = p; CHECK(!l->user_data, "server: added twice"); l->user_data = l; LP[nlp++] = l; return 0; }
extern "C" int vf_onion_listen(onion *o) { IS; last = 2; return cret; }
extern "C" void vf_onion_listen_stop(onion *o) { IS; last = 3; }
extern "C" void vf_onion_set_root_handler(onion *o, onion_handler *h) { IS; last = 4; if (root) onion_handler_free(root); root = h; }
extern "C" void vf_onion_set_internal_error_handler(onion *o, onion_handler *h) { IS; last = 5; if (err) onion_handler_free(err); err = h; }
extern "C" void vf_onion_set_port(onion *o, const char *p) { IS; last = 6; *A = p; }
extern "C" void vf_onion_set_hostname(onion *o, const char *p) { IS; last = 7; *A = p; }
extern "C" void vf_onion_set_user(onion *o, const char *p) { IS; last = 8; *A = p; }
extern "C" void vf_onion_set_timeout(onion *o, int t) { IS; last = 9; num = (uint32_t)t; }
extern "C" void vf_onion_set_max_threads(onion *o, int t) { IS; last = 10; num = (uint32_t)t; }
extern "C" void vf_onion_set_max_post_size(onion *o, size_t t) { IS; last = 11; num = t; }
extern "C" void vf_onion_set_max_file_size(onion *o, size_t t) { IS; last = 12; num = t; }
extern "C" int vf_onion_flags(onion *o) { IS; return cret; }
extern "C" void vf_onion_set_session_backend(onion *o, onion_sessions *s) { IS; last = 13; num = (uint64_t)s; }
extern "C" int vf_onion_set_certificate_va(onion *o, onion_ssl_certificate_type t, const char *f, va_list v) { IS; last = 14; num = t; va[0] = (char *)f; va[1] = va_arg(v, char *); va[2] = va_arg(v, char *); return cret; }
extern "C" int vf_onion_https_set_certificate_argv(onion_listen_point *p, onion_ssl_certificate_type t, const char *f, va_list v) { last = 15; num = t; va[0] = (char *)f; va[1] = va_arg(v, char *); va[2] = va_arg(v, char *); return cret; }
extern "C" onion_url *vf_onion_root_url(onion *o) { IS; if (!ru) ru = onion_url_new(); return ru; }
static int alive, calls; struct Probe { Probe() { alive++; } Probe(const Probe &) { alive++; } ~Probe() { alive--; } };
struct Sub : public HandlerBase { Probe p; onion_connection_status operator()(Request &q, Response &s) { calls++; return OCS_PROCESSED; } };
extern "C" void harness(void) {
  std::string a, b; A = &a; B = &b; warm(); long l0 = sym_heap_live(); cret = (int8_t)sym_u8("result"); 
  { int f = sym_u16("flags"); ::Onion::Onion o(f); CHECK(made == 1 && flags_ == f && o.c_handler() == O, "server: other flags");
    for (int k = 0; k < OPS; k++) { last = 0; int op = sym_pick(0, 19, "op"); std::string x = text(0, VN, "text");
      if (op == 0) { HttpListenPoint p; CHECK(p.c_handler(), "server: no listen point"); o.addListenPoint(x, "p", std::move(p)); CHECK(last == 1 && same(a, x) && same(b, "p"), "server: another address"); sym_reach("http"); }
      else if (op == 1) { HttpsListenPoint p; char c1, c2; int r = p.setCertificate(O_SSL_CERTIFICATE_KEY, x.c_str(), &c1, &c2); CHECK(last == 15 && r == cret && num == O_SSL_CERTIFICATE_KEY && va[0] == x.c_str() && va[1] == &c1 && va[2] == &c2, "server: another certificate"); if (sym_pick(0, 1, "move")) { ListenPoint q(std::move(p)); o.addListenPoint("h", x, std::move(q)); } else o.addListenPoint("h", x, std::move(p)); CHECK(last == 1 && same(a, "h") && same(b, x), "server: another address"); sym_reach("https"); }
      else if (op == 2) { ListenPoint p; HttpListenPoint q; HttpsListenPoint r; if (sym_pick(0, 1, "move")) { ListenPoint s(std::move(q)); } sym_reach("not added"); }
      else if (op == 3) { onion_listen_point *c = vf_onion_listen_point_new(); { ListenPoint p(c); CHECK(p.c_handler() == c, "server: another listen point"); } CHECK(sym_readable(c, sizeof *c), "server: a borrowed listen point is freed"); vf_onion_listen_point_free(c); }
      else if (op == 4) { ListenPoint p; o.addListenPoint(x, x, std::move(p)); CHECK(last == 1, "server: not added"); }
      else if (op == 5) { bool r = o.listen(); CHECK(last == 2 && r == (cret != 0), "server: not listening"); }
      else if (op == 6) { o.listenStop(); CHECK(last == 3, "server: not stopped"); }
      else if (op == 7) { o.setRootHandler(new Sub()); CHECK(last == 4 && root, "server: no root handler"); onion_request *q = mkreq(); onion_response *qs = onion_response_new(q); int c0 = calls; CHECK(onion_handler_handle(root, q, qs) == OCS_PROCESSED && calls == c0 + 1, "server: another handler"); onion_response_free(qs); onion_request_free(q); sym_reach("root"); }
      else if (op == 8) { o.setInternalErrorHandler(new Sub()); CHECK(last == 5 && err, "server: no error handler"); }
      else if (op == 9) { o.setPort(x); CHECK(last == 6 && same(a, x), "server: another port"); }
      else if (op == 10) { static const int P[] = { 0, 7, 80, 8080, 65535, -1 }; static const char *S[] = { "0", "7", "80", "8080", "65535", "-1" }; int i = sym_pick(0, 5, "port"); o.setPort(P[i]); CHECK(last == 6 && same(a, S[i]), "server: another port"); sym_reach("port"); }
      else if (op == 11) { o.setHostname(x); CHECK(last == 7 && same(a, x), "server: another name"); }
      else if (op == 12) { o.setUser(x); CHECK(last == 8 && same(a, x), "server: another user"); }
      else if (op == 13) { uint32_t v = sym_u32("v"); o.setTimeout(v); CHECK(last == 9 && num == v, "server: another time"); }
      else if (op == 14) { uint32_t v = sym_u32("v"); o.setMaxThreads(v); CHECK(last == 10 && num == v, "server: other threads"); }
      else if (op == 15) { uint64_t v = sym_u64("v"); o.setMaxPostSize(v); CHECK(last == 11 && num == v, "server: another size"); }
      else if (op == 16) { uint64_t v = sym_u64("v"); o.setMaxFileSize(v); CHECK(last == 12 && num == v, "server: another size"); }
      else if (op == 17) { CHECK(o.flags() == cret, "server: other flags"); o.setSessionBackend((onion_sessions *)0x3000); CHECK(last == 13 && num == 0x3000, "server: other sessions"); }
      else if (op == 18) { char c1, c2; bool r = o.setCertificate(O_SSL_CERTIFICATE_CRL, x.c_str(), &c1, &c2); CHECK(last == 14 && r == (cret != 0) && num == O_SSL_CERTIFICATE_CRL && va[0] == x.c_str() && va[1] == &c1 && va[2] == &c2, "server: another certificate"); sym_reach("certificate"); }
      else { int how = sym_pick(0, 2, "how"); Url u = how ? Url(o) : Url(&o); u.add("a", new Sub()); if (how == 2) { Url w(std::move(u)); CHECK(w.c_handler() == ru, "server: another url"); w.add("b", new Sub()); } CHECK(ru && u.c_handler() == ru, "server: another url"); sym_reach("url"); } } 
    CHECK(!freed, "server: freed early"); }
  CHECK(freed == 1, "server: not freed"); CHECK(lpn == lpf, lpn > lpf ? "server: a listen point is never freed" : "server: a listen point is freed twice"); CHECK(alive == 0, "server: a handler is not destroyed"); std::string().swap(a); std::string().swap(b); CHECK(sym_heap_live() == l0, "server: memory is not released"); sym_reach("done");
}
