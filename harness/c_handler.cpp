// C++ handlers called from C: what they return or throw, and when they are destroyed
#include "cxx.h"
extern "C" {
#include "req.h"
}
#include "handler.hpp"
#include "exceptions.hpp"
#include "request.hpp"
#include "response.hpp"
using namespace Onion;
static int resp, redir; static std::string *rtext; static int rcode; static onion_request *REQ; static onion_response *RES;
extern "C" onion_connection_status vf_onion_shortcut_response(const char *t, int code, onion_request *rq, onion_response *rs) { CHECK(rq == REQ && rs == RES, "handler: other request"); resp++; *rtext = t; rcode = code; return OCS_CLOSE_CONNECTION; }
extern "C" onion_connection_status vf_onion_shortcut_redirect(const char *t, onion_request *rq, onion_response *rs) { CHECK(rq == REQ && rs == RES, "handler: other request"); redir++; *rtext = t; return OCS_KEEP_ALIVE; }
static int alive, calls, what, ret, code; static std::string *msg;
struct Probe { Probe() { alive++; } Probe(const Probe &) { alive++; } ~Probe() { alive--; } };
struct Mine : public std::exception { const char *what() const noexcept { return "mine"; } };
static onion_connection_status act(Request &q, Response &s) { calls++; CHECK(q.c_handler() == REQ && s.c_handler() == RES, "handler: other request"); Probe p;
  switch (what) { case 0: return (onion_connection_status)ret; case 1: throw HttpException(*msg, (onion_response_codes)code); case 2: throw HttpException(*msg); case 3: throw HttpInternalError(*msg); case 4: throw HttpNotFound(*msg); case 5: throw HttpRedirect(*msg); case 6: throw Mine(); default: throw 3; } }
struct Obj { Probe p; onion_connection_status go(Request &q, Response &s) { return act(q, s); } };
struct Sub : public HandlerBase { Probe p; onion_connection_status operator()(Request &q, Response &s) { return act(q, s); } };
static onion_connection_status cfn(void *p, onion_request *q, onion_response *s) { CHECK(!p && q == REQ && s == RES, "handler: other request"); calls++; return (onion_connection_status)ret; }
extern "C" void harness(void) {
  std::string *t = new std::string(), *u = new std::string(text(0, VN, "message")); rtext = t; msg = u; warm(); long l0 = sym_heap_live(); REQ = mkreq();
  { what = sym_pick(0, 7, "what"); ret = (int8_t)sym_u8("status"); code = sym_u16("code"); Obj obj; int kind = sym_pick(0, 5, "kind"); onion_handler *h = 0;
    if (kind >= 3) sym_assume(what == 0 || kind != 3);
    if (kind == 0) { Probe p; h = onion_handler_cpp_to_c(Handler::make<HandlerFunction>([p](Request &q, Response &s) { return act(q, s); })); }
    else if (kind == 1) h = onion_handler_cpp_to_c(Handler::make<HandlerMethod<Obj>>(&obj, &Obj::go));
    else if (kind == 2) h = onion_handler_cpp_to_c(new Sub());
    else if (kind == 3) h = onion_handler_cpp_to_c(Handler::make<HandlerCFunction>(cfn));
    else if (kind == 4) { Handler k = onion_handler_c_to_cpp(onion_handler_cpp_to_c(new Sub())); h = onion_handler_cpp_to_c(std::move(k)); sym_reach("bridge"); }
    else { { Handler unused(new Sub()); Handler other = onion_handler_c_to_cpp(onion_handler_cpp_to_c(new Sub())); } h = onion_handler_cpp_to_c(Handler::make<HandlerFunction>(act)); }
    int before = alive; int n = sym_pick(0, 2, "calls");
    for (int i = 0; i < n; i++) { resp = redir = 0; RES = onion_response_new(REQ); onion_handler *ref = onion_handler_new(cfn, NULL, NULL); int c0 = calls; int want = onion_handler_handle(ref, REQ, RES); calls = c0; onion_handler_free(ref); onion_response_free(RES); RES = onion_response_new(REQ); int r = onion_handler_handle(h, REQ, RES); onion_response_free(RES); CHECK(calls == i + 1, "handler: called another number of times"); CHECK(alive == before, "handler: objects of the call are left or destroyed twice");
      if (what == 0) { CHECK(r == want && !resp && !redir, "handler: another status"); sym_reach("status"); }
      else if (what <= 4) { CHECK(resp == 1 && !redir && r == OCS_CLOSE_CONNECTION, "handler: the exception is not answered"); CHECK(same(*rtext, *msg), "handler: another text in the answer"); CHECK(rcode == (what == 1 ? code : what == 4 ? HTTP_NOT_FOUND : HTTP_INTERNAL_ERROR), "handler: another code in the answer"); sym_reach("http exception"); }
      else if (what == 5) { CHECK(redir == 1 && !resp && r == OCS_KEEP_ALIVE && same(*rtext, *msg), "handler: no redirection"); sym_reach("redirect"); }
      else { CHECK(r == OCS_INTERNAL_ERROR && !resp && !redir, "handler: an exception that is not an internal error"); sym_reach(what == 6 ? "exception" : "other exception"); } }
    onion_handler_free(h); CHECK(alive == 1, "handler: not destroyed once with the C handler"); }
  onion_request_free(REQ); t->clear(); t->shrink_to_fit(); CHECK(sym_heap_live() == l0, "handler: memory is not released"); delete t; delete u; sym_reach("done");
}
