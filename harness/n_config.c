// what is set on a server is what it listens with: names, ports, certificates, limits, signals, the user it drops to
#define OWN_SIGNAL
#include "net.h"
#include <signal.h>
#include <pwd.h>
#include <grp.h>
#include <stdarg.h>
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/low.h>
#include <onion/dict.h>
#include <onion/listen_point.h>
#include <onion/handler.h>
#include <onion/url.h>
#include <onion/sessions.h>
#include <onion/types_internal.h>
#include <onion/request.h>
#include <onion/response.h>
static onion *o; static long base_live;
static int noinit(onion_request *r) { return 0; }
static void warm(void) { static onion srv; static onion_listen_point lp; lp.server = &srv; lp.request_init = noinit; onion_request *r = onion_request_new(&lp); onion_response *res = onion_response_new(r); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(r); base_live = sym_heap_live(); }
// signals
static void (*sigh[65])(int); static int nsig;
void *vf_signal(int s, void *h) { CHECK(s > 0 && s < 65, "server: no such signal"); void *old = sigh[s]; sigh[s] = h; nsig++; return old; }
// the user it runs as: every step is recorded
static int dropped, groups, gidset, uidset, drop_at, uid_now = 0, ruid_now = 0, gid_now = 0; static struct passwd pw;
struct passwd *vf_getpwnam(const char *n) { CHECK(!strcmp(n, "usr"), "user: another user is looked up"); if (fault("no such user")) { errno = 0; return NULL; } pw.pw_uid = 7; pw.pw_gid = 9; pw.pw_name = "usr"; return &pw; }
int vf_initgroups(const char *n, gid_t g) { CHECK(!strcmp(n, "usr") && g == 9 && uid_now == 0, "user: groups of another user, or too late"); if (fault("no groups")) { errno = EPERM; return -1; } groups = 1; return 0; }
int vf_setgroups(size_t n, const gid_t *l) { if (fault("no groups")) { errno = EPERM; return -1; } groups = 1; return 0; }
int vf_setgid(gid_t g) { CHECK(g == 9 && uid_now == 0, "user: another group, or too late"); if (fault("no gid")) { errno = EPERM; return -1; } gid_now = g; gidset = 1; return 0; }
int vf_setuid(uid_t u) { CHECK(u == 7, "user: another user"); if (fault("no uid")) { errno = EPERM; return -1; } uid_now = ruid_now = u; uidset = 1; return 0; }
uid_t vf_getuid(void) { return ruid_now; } uid_t vf_geteuid(void) { return uid_now; } gid_t vf_getgid(void) { return gid_now; } gid_t vf_getegid(void) { return gid_now; }
// secure listen points, as a stand-in
static int https_made, https_freed, cert_calls, cert_ok; static void *cert_op; static const char *cert_file, *cert_key; static int cert_type;
static void https_free(onion_listen_point *lp) { https_freed++; }
ssize_t vf_onion_https_write(onion_request *r, const char *d, size_t n) { return n; }
onion_listen_point *vf_onion_https_new(void) { if (fault("no https")) return NULL; onion_listen_point *lp = onion_listen_point_new(); lp->write = vf_onion_https_write; lp->secure = 1; lp->free_user_data = https_free; lp->request_init = noinit; https_made++; return lp; }
int vf_onion_https_set_certificate_argv(onion_listen_point *lp, onion_ssl_certificate_type t, const char *f, va_list va) { CHECK(lp && lp->write == vf_onion_https_write, "certificate: given to something that is not secure"); cert_calls++; cert_op = lp; cert_type = t; cert_file = f; cert_key = va_arg(va, const char *); return cert_ok; }
ssize_t vf_read(int fd, void *b, size_t n) { return 0; }
ssize_t vf_write(int fd, const void *b, size_t n) { return n; }
#ifndef MODE
#define MODE 1
#endif
static int same(const char *a, const char *b) { if (!a || !b) return a == b; return !strcmp(a, b); }
#if MODE == 1
static void run_loop(void) { }
static char txt[16][VN + 1]; static int ntxt; static char *text(int lo) { char *t = txt[ntxt++]; int l = sym_pick(lo, VN, "length"); sym_make(t, VN, "text"); for (int i = 0; i < l; i++) sym_assume(t[i] != 0); t[l] = 0; return t; }
static struct { int kind; char *h, *p; } ref[8]; static int nref;
static ssize_t other_write(onion_request *r, const char *d, size_t n) { return n; }
static int wantpost, wantfile, wanttime = 5000, wantthreads;
static void same_points(void) { for (int i = 0; i < nref; i++) { onion_listen_point *lp = onion_get_listen_point(o, i); CHECK(lp, "config: a listen point is lost"); CHECK(lp->server == o, "config: a listen point without its server"); CHECK(same(lp->hostname, ref[i].h), "config: listens at another host"); CHECK(same(lp->port, ref[i].p), "config: listens at another port"); CHECK(lp->secure == (ref[i].kind == 1), "config: another kind of listen point"); } CHECK(onion_get_listen_point(o, nref) == NULL, "config: listen points nobody added"); }
static void scratch(char *t, char *keep) { strcpy(keep, t); }
static char kept[16][VN + 1]; static int nk;
static char *use(char *t) { char *k = kept[nk++]; strcpy(k, t); return k; }
void harness(void) { warm(); reuse_low = 1; net_faults = NFAULTS; o = onion_new(O_POLL); if (!o) return; 
  for (int k = 0; k < OPS; k++) switch (sym_pick(0, 7, "operation")) {
    case 0: { char *t = text(0), *r = use(t); onion_set_port(o, t); memset(t, 'x', VN); if (!nref) ref[nref++].kind = 0; ref[0].p = r; break; }
    case 1: { char *t = text(0), *r = use(t); onion_set_hostname(o, t); memset(t, 'x', VN); if (!nref) ref[nref++].kind = 0; ref[0].h = r; break; }
    case 2: { cert_ok = sym_pick(-1, 0, "certificate"); int before = cert_calls, hm = https_made; char *f = text(0), *y = text(0); int t = sym_pick(0, 3, "type"); int r = onion_set_certificate(o, t, f, y, NULL);
        if (cert_calls == before) { CHECK(r != 0, "certificate: accepted without being loaded"); sym_reach("refused"); if (nref && ref[0].kind == 2) sym_reach("not promoted"); }
        else { CHECK(cert_calls == before + 1 && r == cert_ok, "certificate: result of another call"); if (!nref) nref = 1; CHECK(ref[0].kind != 2, "certificate: given to a listen point of another kind"); ref[0].kind = 1; CHECK(cert_op == onion_get_listen_point(o, 0), "certificate: given to another listen point"); CHECK(cert_type == t && cert_file == f && cert_key == y, "certificate: other files"); sym_reach("certificate"); }
        break; }
    case 3: { int kind = sym_pick(0, 2, "kind"); char *h = sym_pick(0, 1, "named") ? text(0) : NULL, *p = h ? text(0) : NULL; onion_listen_point *lp = kind == 1 ? vf_onion_https_new() : onion_http_new(); if (!lp) break; if (kind == 2) lp->write = other_write; char *rh = h ? use(h) : NULL, *rp = p ? use(p) : NULL; CHECK(onion_add_listen_point(o, h, p, lp) == 0, "config: a listen point is refused"); if (h) memset(h, 'x', VN); if (p) memset(p, 'x', VN); ref[nref].kind = kind; ref[nref].h = rh; ref[nref].p = rp; nref++; break; }
    case 4: { int v = sym_pick(-1, 3, "value"); onion_set_timeout(o, v * 1000); CHECK(o->timeout == v * 1000, "config: another timeout"); wanttime = v * 1000; break; }
    case 5: { size_t a, b; sym_make(&a, sizeof a, "post size"); sym_make(&b, sizeof b, "file size"); onion_set_max_post_size(o, a); onion_set_max_file_size(o, b); CHECK(o->max_post_size == a, "config: another limit of posts"); CHECK(o->max_file_size == b, "config: another limit of files"); break; }
    case 6: { onion_handler *h0 = onion_get_root_handler(o); onion_url *u = onion_root_url(o); CHECK(u && (!h0 || (void *)u == (void *)h0), "config: another url table at the root"); CHECK(onion_get_root_handler(o) == onion_url_to_handler(u), "config: the url table is not at the root"); CHECK(onion_root_url(o) == u, "config: the root url changes"); sym_reach("root"); break; }
    case 7: CHECK((onion_flags(o) & 0xff) == O_POLL && (onion_flags(o) & O_SSL_AVAILABLE), "config: other flags"); CHECK(onion_get_poller(o) == (onion_poller *)poller_obj, "config: another event loop"); break; }
  same_points(); onion_free(o); CHECK(https_made == https_freed, "config: a secure listen point is not released"); CHECK(sym_heap_live() == base_live, "config: memory leaked"); sym_reach("done"); }
#elif MODE == 3
// many listen points, names of any length
static void run_loop(void) { }
static char nm[MANY][1100], pt[MANY][1100];
void harness(void) { warm(); reuse_low = 1; net_faults = 0; o = onion_new(O_POLL); if (!o) return; static const int L[] = { 3, 40, 64, 255, 256, 1025 }; int at = sym_pick(0, 1, "where") ? MANY - 1 : 0, hl = L[sym_pick(0, 5, "host")], pl = L[sym_pick(0, 3, "port")], first = sym_pick(0, 1, "first");
  for (int i = 0; i < MANY; i++) { memset(nm[i], 'h', i == at ? hl : 3); memset(pt[i], 'p', i == at ? pl : 3); nm[i][i == at ? hl : 3] = 0; pt[i][i == at ? pl : 3] = 0; nm[i][0] = pt[i][1] = 'a' + i; if (i == at) { nm[i][hl - 1] = sym_u8("last"); sym_assume(nm[i][hl - 1] != 0); }
    char h[1100], q[1100]; strcpy(h, nm[i]); strcpy(q, pt[i]); if (i == 0 && first) { onion_set_hostname(o, h); onion_set_port(o, q); } else CHECK(onion_add_listen_point(o, h, q, onion_http_new()) == 0, "config: a listen point is refused"); memset(h, 'x', 1100); memset(q, 'x', 1100); }
  for (int i = 0; i < MANY; i++) { onion_listen_point *lp = onion_get_listen_point(o, i); CHECK(lp && lp->server == o, "config: a listen point is lost"); CHECK(same(lp->hostname, nm[i]), "config: listens at another host"); CHECK(same(lp->port, pt[i]), "config: listens at another port"); } CHECK(!onion_get_listen_point(o, MANY), "config: listen points nobody added");
  onion_free(o); CHECK(sym_heap_live() == base_live, "config: memory leaked"); sym_reach("done"); }
#elif MODE == 2
// listening, with a user to drop to, signals, listen points that listen by themselves
static int custom_listens, custom_stops, sig, attended; static void cl(onion_listen_point *lp) { custom_listens++; } static void cs_(onion_listen_point *lp) { custom_stops++; }
static int user, rounds;
static void run_loop(void) { stopped = 0; attended++; if (user) CHECK(uid_now == 7 && ruid_now == 7 && gid_now == 9 && groups, "user: attends connections with the privileges it had to drop"); else CHECK(!uidset && !gidset && !groups, "user: changes the user without being asked");
  if (sig) { int s = sig == 1 ? SIGINT : SIGTERM; CHECK(sigh[s] && sigh[s] != (void *)SIG_IGN, "signals: the server is not told"); sigh[s](s); CHECK(stopped, "signals: do not stop the loop"); CHECK(nlistening() == 0, "signals: still listening"); sym_reach("signal"); }
  else onion_listen_stop(o); }
void harness(void) { warm(); reuse_low = 1; net_faults = NFAULTS; static const int fl[] = { O_POLL, O_POLL | O_NO_SIGTERM, O_POLL | O_NO_SIGPIPE, O_POLL | O_NO_SIGTERM | O_NO_SIGPIPE }; int f = fl[sym_pick(0, 3, "flags")]; sigh[SIGPIPE] = sigh[SIGINT] = sigh[SIGTERM] = NULL; o = onion_new(f); if (!o) return;
  CHECK((sigh[SIGPIPE] == (void *)SIG_IGN) == !(f & O_NO_SIGPIPE), "signals: broken connections end the program, or a choice is not respected"); CHECK((sigh[SIGTERM] != NULL) == !(f & O_NO_SIGTERM) && (sigh[SIGINT] != NULL) == !(f & O_NO_SIGTERM), "signals: a choice is not respected");
  if (sym_pick(0, 1, "set-uid program")) ruid_now = 7; user = sym_pick(0, 1, "user"); if (user) { char u[4] = "usr"; onion_set_user(o, u); memset(u, 'x', 3); }
  int custom = sym_pick(0, 1, "custom"); onion_listen_point *lp = onion_http_new(); if (custom) { lp->listen = cl; lp->listen_stop = cs_; } onion_add_listen_point(o, NULL, NULL, lp);
  for (rounds = 0; rounds < 2; rounds++) { sig = (f & O_NO_SIGTERM) ? 0 : sym_pick(0, 2, "signal"); int was = attended, cl0 = custom_listens; int r = onion_listen(o); 
    if (r == 0) { CHECK(attended == was + 1, "server: returns without listening"); sym_reach("listened"); if (custom) { CHECK(custom_listens == cl0 + 1 && custom_stops >= rounds + 1, "server: a listen point with its own way to listen is not used"); sym_reach("custom"); } if (user) sym_reach("dropped"); }
    else { CHECK(attended == was, "server: an error after listening"); if (net_faults == NFAULTS) CHECK(0, "server: can not listen without any fault"); sym_reach("error"); if (user && uid_now == 0 && !custom) sym_reach("not dropped"); }
    CHECK(!(onion_flags(o) & O_LISTENING), "server: still marked as listening"); CHECK(nlistening() == 0, "server: still listening"); }
  onion_free(o); CHECK(nopen() == 0, "server: descriptors left open"); CHECK(addrs == 0, "server: address list leaked"); if (!(f & O_NO_SIGTERM)) CHECK(sigh[SIGTERM] == (void *)SIG_DFL && sigh[SIGINT] == (void *)SIG_DFL, "signals: a released server is still told"); else CHECK(!sigh[SIGTERM] && !sigh[SIGINT], "signals: a choice is not respected"); CHECK(sym_heap_live() == base_live, "server: memory leaked"); sym_reach("done"); }
#endif
