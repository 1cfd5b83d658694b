// servers: set-up, listening, stopping and release
#include "net.h"
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/low.h>
#include <onion/dict.h>
#include <onion/listen_point.h>
#include <onion/handler.h>
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
#include <onion/types_internal.h>
#include <onion/request.h>
#include <onion/response.h>
static onion *o; static int hmade, hfreed, dmade, dfreed, called;
static char reqtext[] = "GET / HTTP/1.1\r\nConnection: close\r\n\r\n"; static int rpos[NFD], wrote[NFD], rfault; 
#if MODE == 4
static char sent[NFD][600];
#endif
ssize_t vf_read(int fd, void *b, size_t n) { CHECK(known(fd) && fdt[fd - FD0].conn, "server: reads from something that is not a connection"); int k = fd - FD0; if (rfault && sym_pick(0, 1, "read fails")) { errno = ECONNRESET; return sym_pick(-1, 0, "result"); } size_t l = sizeof reqtext - 1 - rpos[k]; if (l > n) l = n; memcpy(b, reqtext + rpos[k], l); rpos[k] += l; return l; }
ssize_t vf_write(int fd, const void *b, size_t n) { CHECK(known(fd) && fdt[fd - FD0].conn, "server: writes to something that is not a connection"); if (rfault && sym_pick(0, 1, "write fails")) { errno = EPIPE; return -1; } 
#if MODE == 4
  CHECK(wrote[fd - FD0] + n < 600, "server: more is sent than was written"); memcpy(sent[fd - FD0] + wrote[fd - FD0], b, n);
#endif
  wrote[fd - FD0] += n; return n; }
static int hand(void *d, onion_request *r, onion_response *p) { called++; onion_response_write0(p, "x"); return OCS_PROCESSED; }
static void hfree(void *d) { int *i = d; CHECK(*i == 1, "server: data of a handler released twice"); *i = 2; hfreed++; }
static int hd[8]; static onion_handler *mkh(void) { int *i = &hd[hmade++]; *i = 1; return onion_handler_new(hand, i, hfree); }
static int dd[8]; static void dfree(void *d) { int *i = d; CHECK(*i == 1, "server: client data released twice"); *i = 2; dfreed++; }
static int points, rounds; static int reg; static long base_live;
static int noinit(onion_request *r) { return 0; }
// what the library keeps for the whole program
static void warm(void) { static onion srv; static onion_listen_point lp; lp.server = &srv; lp.request_init = noinit; onion_request *r = onion_request_new(&lp); onion_response *res = onion_response_new(r); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(r); base_live = sym_heap_live(); }
#if MODE == 1
static void run_loop(void) { stopped = 0; CHECK(nlistening() > 0, "server: the loop runs without anything to listen to"); reg = 0; for (int i = 0; i < fdn; i++) if (fdt[i].open && fdt[i].listening && sl[i].in) reg++;
  for (int k = 0; k < EVENTS; k++) { int w = sym_pick(0, 2, "event"); if (w == 0) break; for (int i = 0; i < fdn; i++) if (fdt[i].open && (w == 1 ? fdt[i].listening : fdt[i].conn) && event(FD0 + i)) { sym_reach(w == 1 ? "connection" : "request"); break; } }
  if (sym_pick(0, 1, "stop")) { onion_listen_stop(o); CHECK(stopped, "server: stopping does not stop the loop"); CHECK(nlistening() == 0, "server: still listening after it was stopped"); for (int i = 0; i < fdn; i++) if (sl[i].in) CHECK(fdt[i].open, "server: a closed descriptor is left in the loop"); sym_reach("stopped"); } }
static void done(void) { onion_free(o); CHECK(hmade == hfreed, "server: handlers are not released"); CHECK(dmade == dfreed, "server: client data is not released"); CHECK(nopen() == 0, "server: descriptors left open"); CHECK(addrs == 0, "server: address list leaked"); CHECK(pollers == 0, "server: event loop not released"); CHECK(rnd >= 0, "server: generator released twice"); CHECK(sym_heap_live() == base_live, "server: memory leaked"); sym_reach("done"); }
void harness(void) { warm(); net_faults = NFAULTS; reuse_low = 1; rfault = RF; static const int fl[] = { O_POLL, O_ONE, O_ONE | O_NO_SIGTERM, O_POLL | O_NO_SIGPIPE }; int f = fl[sym_pick(0, FLAGS, "flags")];
  o = onion_new(f); if (!o) { CHECK(pollers == 0 && sym_heap_live() == base_live, "server: memory leaked when it can not be made"); sym_reach("not made"); return; }
  for (int k = 0; k < OPS; k++) switch (sym_pick(0, KINDS, "operation")) {
    case 0: { int named = sym_pick(0, 1, "named"); char h[4] = "::1", p[3] = "80"; onion_listen_point *lp = onion_http_new(); CHECK(onion_add_listen_point(o, named ? h : NULL, named ? p : NULL, lp) == 0, "server: a listen point is refused"); memset(h, 'x', 3); memset(p, 'x', 2); CHECK(onion_get_listen_point(o, points) == lp, "server: a listen point is not where it was added"); points++; break; }
    case 1: { onion_handler *h = mkh(), *old = onion_get_root_handler(o); onion_set_root_handler(o, h); if (old) onion_handler_free(old); CHECK(onion_get_root_handler(o) == h, "server: another root handler"); break; }
    case 2: { onion_handler *h = mkh(); onion_set_internal_error_handler(o, h); if (sym_pick(0, 1, "again")) onion_set_internal_error_handler(o, h); break; }
    case 3: { int *i = &dd[dmade++]; *i = 1; onion_set_client_data(o, i, dfree); CHECK(onion_client_data(o) == i, "server: other client data"); break; }
    case 4: onion_set_user(o, "nobody"); break;
    case 5: onion_set_session_backend(o, onion_sessions_mem_new()); break;
    case 6: CHECK(onion_add_listen_point(o, NULL, NULL, NULL) < 0, "server: no listen point is accepted"); break;
    case 7: { int r = onion_listen(o); CHECK(r != 0 || (points || (points = 1)), ""); if (r == 0) { sym_reach("listened"); } else sym_reach("could not listen"); if (!points) points = 1; 
        if (!(f & O_ONE)) CHECK(!(o->flags & O_LISTENING), "server: still marked as listening"); 
        if (r && net_faults == NFAULTS) CHECK(0, "server: can not listen without any fault"); onion_listen_stop(o); 
        for (onion_listen_point **l = o->listen_points; l && *l; l++) onion_listen_point_listen_stop(*l); break; } }
  for (int n = points; n <= points + 1; n++) CHECK(onion_get_listen_point(o, n) == NULL, "server: a listen point that was never added");
  done(); }
#elif MODE == 2
// what one listen point does with faults of the system
static void run_loop(void) { }
void harness(void) { warm(); net_faults = NFAULTS; o = onion_new(O_POLL); if (!o) return; onion_listen_point *lp = onion_http_new(); onion_add_listen_point(o, "h", "1", lp); int r = onion_listen_point_listen(lp);
  if (r == 0) { CHECK(known(lp->listenfd) && fdt[lp->listenfd - FD0].listening, "listen: success without listening"); CHECK(nopen() == 1, "listen: descriptors left open"); sym_reach("listens");
    for (int k = 0; k < 2; k++) { int before = nopen(), s = 0; int a = onion_listen_point_accept(lp); CHECK(a >= 0, "listen: an error of a connection closes the listen point"); for (int i = 0; i < NFD; i++) s += sl[i].in; CHECK(nopen() - 1 == s, "listen: a connection nobody attends is left open"); if (nopen() > before) { sym_reach("accepted"); for (int i = 0; i < NFD; i++) if (sl[i].in) CHECK(sl[i].timeout == o->timeout, "listen: connection without the timeout of the server"); } else sym_reach("refused"); } }
  else { CHECK(nopen() == 0, "listen: descriptors left open after an error"); sym_reach("error"); }
  CHECK(addrs == 0, "listen: address list leaked"); onion_free(o); CHECK(nopen() == 0, "listen: descriptors left open"); CHECK(sym_heap_live() == base_live, "listen: memory leaked"); sym_reach("done"); }
#elif MODE == 3
// threads: several in the loop, detached listening, stopping while a handler works
static int inloop, thr; typedef struct { void *(*f)(void *); void *a; int done, used, joined; } T; static T ts[8]; static int nts, tfail;
static void *tmain(void *a) { T *t = a; t->f(t->a); t->done = 1; sym_wake(); return NULL; }
int vf_pthread_create(unsigned long *id, const void *at, void *(*f)(void *), void *a) { if (tfail && sym_pick(0, 1, "no thread")) return EAGAIN; T *t = &ts[nts]; *id = nts++; t->f = f; t->a = a; t->used = 1; sym_thread(tmain, t); return 0; }
int vf_pthread_join(unsigned long id, void **r) { CHECK(id < nts && ts[id].used && !ts[id].joined, "server: joins a thread that is not there, or twice"); ts[id].joined = 1; while (!ts[id].done) sym_block(); return 0; }
static int handled;
static void run_loop(void) { inloop++; sym_wake(); if (!handled) { handled = 1; sym_yield(); onion_client_data(o); sym_yield(); } while (!stopped) sym_block(); inloop--; sym_wake(); }
static void *stopper(void *a) { while (!inloop || !(o->flags & O_LISTENING)) sym_block(); onion_listen_stop(o); CHECK(nlistening() == 0, "server: still listening after it was stopped"); thr--; sym_wake(); return NULL; }
void harness(void) { warm(); tfail = TFAIL; reuse_low = 1; o = onion_new(FLAGS); onion_set_max_threads(o, sym_pick(0, NT, "threads")); onion_add_listen_point(o, NULL, NULL, onion_http_new()); int *d = &dd[dmade++]; *d = 1; onion_set_client_data(o, d, dfree);
  for (int k = 0; k < ROUNDS; k++) { stopped = handled = 0;
    if (FLAGS & O_DETACH_LISTEN) { int r = onion_listen(o); if (r == 0) { while (!inloop) sym_block(); onion_listen_stop(o); CHECK(inloop == 0, "server: stopping does not wait for the loop"); sym_reach("stopped"); } else sym_reach("no thread"); }
    else { thr = 1; sym_thread(stopper, NULL); int r = onion_listen(o); CHECK(r == 0, "server: can not listen"); CHECK(inloop == 0, "server: threads are left in the loop"); while (thr) sym_block(); sym_reach("stopped"); } }
  for (int i = 0; i < nts; i++) CHECK(ts[i].joined, "server: a thread is never waited for");
  onion_free(o); CHECK(dfreed == dmade, "server: client data is not released"); CHECK(nopen() == 0, "server: descriptors left open"); CHECK(sym_heap_live() == base_live, "server: memory leaked"); sym_reach("done"); }
#elif MODE == 4
// handlers that yield: the request is kept for its owner, who answers and releases it later
static struct { onion_request *r; onion_response *p; int fd, state; } y[NFD]; static int ny;
static void run_loop(void) { }
static int part(void *d, onion_request *r, onion_response *p) { called++; onion_response_set_length(p, 5); onion_response_write(p, "he", 2); if (sym_pick(0, 1, "flush")) onion_response_flush(p); if (sym_pick(0, 1, "yield")) { y[ny].r = r; y[ny].p = p; y[ny].fd = r->connection.fd; y[ny++].state = 1; sym_reach("yields"); return OCS_YIELD; } onion_response_write(p, "llo", 3); return OCS_PROCESSED; }
static void whole(int fd) { char *b = sent[fd - FD0]; int n = wrote[fd - FD0]; CHECK(n > 9 && !memcmp(b, "HTTP/1.1 200", 12) && !memcmp(b + n - 9, "\r\n\r\nhello", 9), "server: the answer of a request that yielded is altered"); }
static void act(int i, int end) { CHECK(known(y[i].fd) && fdt[y[i].fd - FD0].open && !sl[y[i].fd - FD0].in, "server: a request that yielded is not left alone"); if (y[i].state == 1) { CHECK(onion_response_write(y[i].p, "llo", 3) >= 0, "server: a request that yielded can not be answered"); y[i].state = 2; if (!end) return; } if (sym_pick(0, 1, "flush")) onion_response_flush(y[i].p); onion_response_free(y[i].p); onion_request_free(y[i].r); CHECK(!fdt[y[i].fd - FD0].open, "server: the connection of a released request is left open"); whole(y[i].fd); y[i].state = 3; sym_reach("released"); }
void harness(void) { warm(); o = onion_new(O_POLL); onion_listen_point *lp = onion_http_new(); onion_add_listen_point(o, NULL, NULL, lp); onion_set_root_handler(o, onion_handler_new(part, NULL, NULL)); CHECK(onion_listen_point_listen(lp) == 0, "server: does not listen");
  for (int k = 0; k < EVENTS; k++) { int w = sym_pick(0, 3, "event"); if (w == 0) onion_listen_point_accept(lp); else if (w < 3) { int c = 0; for (int i = 0; i < fdn; i++) if (fdt[i].open && fdt[i].conn && sl[i].in && ++c == w) { int was = ny, n = called; event(FD0 + i); if (called > n) { if (ny == was) { CHECK(!fdt[i].open && !sl[i].in, "server: a finished connection is kept"); whole(FD0 + i); sym_reach("answered"); } else CHECK(fdt[i].open && !sl[i].in, "server: a request that yielded is closed, or still attended"); } break; } } else for (int i = 0; i < ny; i++) if (y[i].state < 3) { act(i, 0); break; } }
  if (sym_pick(0, 1, "stop")) { onion_listen_stop(o); sym_reach("stopped"); } for (int i = 0; i < ny; i++) if (y[i].state < 3) act(i, 1);
  onion_free(o); CHECK(nopen() == 0, "server: descriptors left open"); CHECK(pollers == 0 && sym_heap_live() == base_live, "server: memory leaked"); sym_reach("done"); }
#endif
