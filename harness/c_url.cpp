// Onion::Url and the ready-made handlers: the rule that matches runs what was given for it, once, and everything is destroyed once
#include "cxx.h"
extern "C" {
#include "req.h"
}
#include "url.hpp"
#include "request.hpp"
#include "response.hpp"
#include "extrahandlers.hpp"
#include "shortcuts.hpp"
#include "dict.hpp"
using namespace Onion;
static onion_request *REQ; static onion_response *RES; static std::string *tx; static int alive, calls, who, code, sc;
#define SC(f, id) extern "C" onion_connection_status vf_onion_shortcut_##f(const char *t, onion_request *q, onion_response *s) { CHECK(q == REQ && s == RES, "url: another request"); *tx = t; sc = id; return (onion_connection_status)code; }
SC(response_file, 1) SC(internal_redirect, 2) SC(redirect, 3)
extern "C" onion_handler *vf_onion_handler_export_local_new(const char *p) { *tx = p; sc = 4; return onion_handler_new([](void *, onion_request *, onion_response *) -> onion_connection_status { who = 40; return (onion_connection_status)code; }, NULL, NULL); }
struct Probe { Probe() { alive++; } Probe(const Probe &) { alive++; } ~Probe() { alive--; } };
struct Obj { onion_connection_status go(Request &q, Response &s) { calls++; who = 10; CHECK(q.c_handler() == REQ && s.c_handler() == RES, "url: another request"); return (onion_connection_status)code; } };
struct Sub : public HandlerBase { Probe p; onion_connection_status operator()(Request &q, Response &s) { calls++; who = 11; return (onion_connection_status)code; } };
static onion_connection_status cfn(void *p, onion_request *q, onion_response *s) { CHECK(q == REQ && s == RES, "url: another request"); calls++; who = 12; return (onion_connection_status)code; }
extern "C" void harness(void) {
  std::string tt; tx = &tt; warm(); long l0 = sym_heap_live(); REQ = mkreq(); RES = onion_response_new(REQ); char pr[2] = "r", pw[2] = "w"; code = sym_pick(1, 3, "status"); if (code == 1) code = OCS_PROCESSED; else if (code == 2) code = OCS_KEEP_ALIVE; else code = OCS_CLOSE_CONNECTION;
  { Obj obj; std::string x = text(0, VN, "text"); int kind = sym_pick(0, 9, "kind"), pos = sym_pick(0, 1, "position"), moved = sym_pick(0, 2, "moved"); Url inner; inner.add("", cfn); Url *u = new Url();
    if (pos) { u->add("w", new Sub()); }
    switch (kind) { case 0: { Probe p; u->add("r", [p](Request &q, Response &s) { calls++; who = 13; return (onion_connection_status)code; }); break; } case 1: u->add("r", &obj, &Obj::go); break; case 2: u->add("r", Handler(new Sub())); break; case 3: u->add("r", cfn); break; case 4: u->add("r", onion_handler_new([](void *, onion_request *, onion_response *) -> onion_connection_status { calls++; who = 14; return (onion_connection_status)code; }, NULL, NULL)); break; case 5: u->add("r", StaticHandler(x)); break; case 6: u->add("r", InternalRedirectHandler(x)); break; case 7: u->add("r", RedirectHandler(x)); break; case 8: u->add("r", ExportLocal(x)); CHECK(sc == 4 && same(tt, x), "url: another folder"); break; case 9: { Handler h(std::move(inner)); u->add("r", std::move(h)); break; } }
    if (!pos) u->add("w", new Sub());
    Url *m = moved ? new Url(std::move(*u)) : 0; if (moved == 2) { delete u; u = 0; sym_reach("moved"); } Url &use = m ? *m : *u;
    REQ->path = REQ->fullpath = pr; int r; sc = 0; { Request q(REQ); Response s(RES); r = use(q, s); CHECK(r == code, "url: another status"); 
    static const int W[] = { 13, 10, 11, 12, 14, 0, 0, 0, 40, 12 }; CHECK(who == W[kind], "url: another handler ran"); if (kind >= 5 && kind <= 7) { CHECK(sc == kind - 4 && same(tt, x), "url: another shortcut"); sym_reach("shortcut"); } else { CHECK(sc == 0, "url: another shortcut"); sym_reach("rule"); }
    REQ->path = REQ->fullpath = pw; who = 0; r = use(q, s); CHECK(r == code && who == 11, "url: another handler ran"); if (kind != 9) { tt.clear(); CHECK((int)redirect(x, q, s) == code && sc == 3 && same(tt, x), "url: another redirection"); Dict ctx; ctx.add("k", x); onion_dict *seen = 0; CHECK(render_to_response([&seen](onion_dict *d, onion_response *rr) { seen = d; CHECK(rr == RES, "url: another response"); }, ctx, s) == OCS_PROCESSED && seen == ctx.c_handler(), "url: another context"); sym_reach("render"); } }
    if (sym_pick(0, 1, "order")) { delete m; delete u; } else { delete u; delete m; } CHECK(alive == 0, "url: a handler is not destroyed once"); }
  std::string().swap(tt); REQ->path = REQ->fullpath = NULL; onion_response_free(RES); onion_request_free(REQ); CHECK(sym_heap_live() == l0, "url: memory is not released"); sym_reach("done");
}
