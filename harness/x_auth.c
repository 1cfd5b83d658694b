// basic authentication: who gets behind it
#include "req.h"
#include "util.h"
#include "client.h"
#include <security/pam_appl.h>
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
#include <onion/codecs.h>
#include <onion/handlers/auth_pam.h>
static int rnd; void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; } static int rseq; void vf_onion_random_generate(void *d, size_t n) { memset(d, 0, n); ((char *)d)[0] = ++rseq; }
static int inside, starts, ends, accepted, step; static char svc[300]; static char user[5000], pass[5000]; static int got_pass; static struct pam_conv cv; static char handle;
int vf_pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **h) { CHECK(!strcmp(s, "svc"), "auth: another service"); starts++; accepted = 0; CHECK(strlen(u) < 5000, "auth: long name"); strcpy(user, u); cv = *c; got_pass = 0; step = sym_pick(0, 3, "pam"); if (step == 0) { *h = NULL; return PAM_SYSTEM_ERR; } *h = (pam_handle_t *)&handle; return PAM_SUCCESS; }
int vf_pam_authenticate(pam_handle_t *h, int f) { CHECK((char *)h == &handle, "auth: bad handle"); struct pam_message m = { PAM_PROMPT_ECHO_OFF, "Password: " }; const struct pam_message *mp = &m; struct pam_response *r = NULL; int k = cv.conv(1, &mp, &r, cv.appdata_ptr); CHECK(k == PAM_SUCCESS && r && r->resp, "auth: no password given to the service"); CHECK(strlen(r->resp) < 5000, "auth: long password"); strcpy(pass, r->resp); got_pass = 1; free(r->resp); free(r); return step == 1 ? PAM_AUTH_ERR : PAM_SUCCESS; }
int vf_pam_acct_mgmt(pam_handle_t *h, int f) { CHECK(got_pass && step >= 2, "auth: account checked before the password"); if (step == 2) return PAM_ACCT_EXPIRED; accepted = 1; return PAM_SUCCESS; }
int vf_pam_end(pam_handle_t *h, int s) { if (h) { CHECK((char *)h == &handle, "auth: bad handle"); } ends++; return PAM_SUCCESS; }
static char seen[5000];
static onion_connection_status in_h(void *p, onion_request *r, onion_response *res) { inside++; const char *who = onion_request_get_session(r, "username"); CHECK(who && strlen(who) < sizeof seen, "auth: the handler can not tell who the user is"); strcpy(seen, who); onion_response_write(res, "secret", 6); return OCS_PROCESSED; }
static char realm[400]; static char sid[40];
// returns 1 if the protected content was given
static int ask(onion_handler *h, const char *auth, const char *cookie) { onion_request *r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = onion_low_strdup("/"); r->GET = onion_dict_new(); onion_request_polish(r); if (auth) onion_dict_add(r->headers, "Authorization", auth, OD_DUP_ALL); char c[80]; if (cookie) { strcpy(c, "sessionid="); strcat(c, cookie); onion_dict_add(r->headers, "Cookie", c, OD_DUP_ALL); }
  inside = starts = ends = accepted = 0; out_len = 0; onion_response *res = onion_response_new(r); onion_connection_status s = onion_handler_handle(h, r, res); CHECK(s == OCS_PROCESSED, "auth: not answered"); sid[0] = 0; onion_response_free(res); if (r->session_id) { CHECK(strlen(r->session_id) < 40, "auth: session id"); strcpy(sid, r->session_id); } onion_request_free(r);
  answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len, "auth: unreadable answer"); CHECK(starts == ends, "auth: service left open"); int k = inside; CHECK(k <= 1, "auth: handled twice");
  if (k) { CHECK(!memcmp(out_buf + 9, "200", 3) && a.blen == 6 && !memcmp(a.body, "secret", 6), "auth: other content"); } else { CHECK(!memcmp(out_buf + 9, "401", 3), "auth: refused without asking for credentials"); char w[440]; strcpy(w, "\r\nWWW-Authenticate: Basic realm=\""); strcat(w, realm); strcat(w, "\"\r\n"); size_t wl = strlen(w); int f = 0; for (size_t i = 0; i + wl <= a.head; i++) if (!memcmp(out_buf + i, w, wl)) f++; CHECK(f == 1, "auth: no challenge"); CHECK(a.blen == 28 && !memcmp(a.body, "<h1>Unauthorized access</h1>", 28), "auth: other content than the refusal"); }
  return k; }
void harness(void) {
  warm(); onion_sessions *ss = onion_sessions_mem_new(); the_server.sessions = ss; int rl = 5;
#if MODE == 3
  static const int L[] = { 0, 200, 241, 242, 243, 255, 256, 390 }; rl = L[sym_pick(0, 7, "realm")];
#endif
  memset(realm, 'r', rl); onion_handler *h = onion_handler_auth_pam(realm, "svc", onion_handler_new(in_h, NULL, NULL)); char *auth = NULL;
#if MODE == 1 || MODE == 3   // any header
  int n = sym_pick(-1, N, "len"); if (n >= 0) { auth = malloc(n + sizeof PRE); memcpy(auth, PRE, sizeof PRE - 1); if (n) { char t[N + 1]; sym_make(t, n, "authorization"); for (int i = 0; i < n; i++) sym_assume(t[i] != 0); memcpy(auth + sizeof PRE - 1, t, n); } auth[n + sizeof PRE - 1] = 0; }
  int k = ask(h, auth, NULL); CHECK(k == accepted, k ? "auth: let in without being accepted" : "auth: accepted but not let in"); if (!auth || strncmp(auth, "Basic", 5)) CHECK(!k, "auth: let in without credentials"); sym_reach(k ? "in" : "out");
#else   // proper credentials, then the same or another session without them
#ifdef LONG
  int un = longlen(), pn = longlen(); char u[UN + 1], p[UN + 1], b[2 * UN + 4]; longfill(u, un); longfill(p, pn); sym_make(u + un - 1, 1, "user"); sym_make(p + pn - 1, 1, "password");
#else
  int un = sym_pick(0, UN, "userlen"), pn = sym_pick(0, UN, "passlen"); char u[UN + 1], p[UN + 1], b[2 * UN + 4]; if (un) sym_make(u, un, "user"); if (pn) sym_make(p, pn, "password");
#endif
  for (int i = 0; i < un; i++) sym_assume(u[i] != 0 && u[i] != ':'); for (int i = 0; i < pn; i++) sym_assume(p[i] != 0); memcpy(b, u, un); b[un] = ':'; memcpy(b + un + 1, p, pn); 
  char *e = onion_base64_encode(b, un + 1 + pn); size_t l = strlen(e); while (l && (e[l - 1] == '\n' || e[l - 1] == '\r')) e[--l] = 0; auth = malloc(l + 7); strcpy(auth, "Basic "); strcat(auth, e); onion_low_free(e);
  int k = ask(h, auth, NULL); CHECK(starts == 1, "auth: the service was not asked"); CHECK(strlen(user) == (size_t)un && eqn(user, u, un), "auth: another user name given to the service"); if (got_pass) CHECK(strlen(pass) == (size_t)pn && eqn(pass, p, pn), "auth: another password given to the service"); CHECK(k == accepted, k ? "auth: let in without being accepted" : "auth: accepted but not let in");
  if (k) CHECK(strlen(seen) == (size_t)un && eqn(seen, u, un), "auth: the handler is told about another user"); seen[0] = 0; char first[40]; strcpy(first, sid); if (k) CHECK(sid[0], "auth: no session"); int k2 = ask(h, NULL, first[0] ? first : "other"); CHECK(k2 == k, k2 ? "auth: a refused session is let in later" : "auth: a logged in session is asked again"); CHECK(!starts, "auth: service asked without credentials"); if (k2) CHECK(strlen(seen) == (size_t)un && eqn(seen, u, un), "auth: the handler is told about another user"); int k3 = ask(h, NULL, "another"); CHECK(!k3, "auth: another session is let in"); sym_reach(k ? "in" : "out");
#endif
  free(auth); onion_handler_free(h); onion_sessions_free(ss); the_server.sessions = NULL; CHECK(rnd == 0, "auth: generator not released"); CHECK(sym_heap_live() == base_live, "auth: memory leaked"); sym_reach("done");
}
