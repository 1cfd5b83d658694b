// secure connections: the TLS library is a stand-in that records the state of each session
#include "net.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <gnutls/gnutls.h>
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/https.h>
#include <onion/low.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/listen_point.h>
#include <onion/handler.h>
#include <onion/shortcuts.h>
#include <onion/types_internal.h>
#include <onion/request.h>
#include <onion/response.h>
typedef struct { int fd, live, est, dead, prio, cred, bye; } S;
static int inits, creds, dhs, prios, sess; static char cred_o[4], dh_o[4], prio_o[4]; static S *cur; static int dhset, tls_faults;
static int faulted, all_faults;
static int tf(const char *n, int e) { if (tls_faults <= 0 || !sym_pick(0, 1, n)) return 0; tls_faults--; faulted = 1; return e; }
int vf_gcry_control(int c, ...) { return 0; }
int vf_gnutls_global_init(void) { int e = tf("init", -1); if (e) return e; inits++; return 0; }
void vf_gnutls_global_deinit(void) { CHECK(inits > 0, "tls: library released twice"); CHECK(!creds && !sess, "tls: library released before its objects"); inits--; }
int vf_gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t *c) { int e = tf("credentials", -25); if (e) return e; creds++; *c = (void *)cred_o; return 0; }
void vf_gnutls_certificate_free_credentials(gnutls_certificate_credentials_t c) { CHECK((void *)c == cred_o && creds > 0, "tls: credentials released twice"); creds--; }
unsigned vf_gnutls_sec_param_to_pk_bits(int a, int b) { return 1024; }
int vf_gnutls_dh_params_init(gnutls_dh_params_t *d) { int e = tf("dh", -25); if (e) return e; dhs++; *d = (void *)dh_o; return 0; }
int vf_gnutls_dh_params_generate2(gnutls_dh_params_t d, unsigned b) { CHECK((void *)d == dh_o && dhs > 0, "tls: parameters used after release"); return tf("dh generate", -25); }
void vf_gnutls_dh_params_deinit(gnutls_dh_params_t d) { CHECK((void *)d == dh_o && dhs > 0, "tls: parameters released twice"); dhs--; }
int vf_gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e) { int r = tf("priority", -50); if (r) return r; prios++; *p = (void *)prio_o; return 0; }
void vf_gnutls_priority_deinit(gnutls_priority_t p) { CHECK((void *)p == prio_o && prios > 0, "tls: priorities released twice"); prios--; }
void vf_gnutls_certificate_set_dh_params(gnutls_certificate_credentials_t c, gnutls_dh_params_t d) { CHECK((void *)c == cred_o && creds > 0 && dhs > 0, "tls: credentials used after release"); dhset = 1; }
const char *vf_gnutls_strerror(int e) { return "error"; }
int vf_gnutls_error_is_fatal(int e) { return !(e == GNUTLS_E_AGAIN || e == GNUTLS_E_INTERRUPTED || e == GNUTLS_E_WARNING_ALERT_RECEIVED || e == GNUTLS_E_REHANDSHAKE || e == GNUTLS_E_GOT_APPLICATION_DATA) && e < 0; }
int vf_gnutls_init(gnutls_session_t *s, unsigned f) { int e = tf("session", -25); if (e) return e; CHECK(f & GNUTLS_SERVER, "tls: the session is not one of a server"); S *n = malloc(sizeof(S)); memset(n, 0, sizeof *n); n->live = 1; n->fd = -1; sess++; *s = (void *)n; cur = n; return 0; }
#define SS(s) S *p = (void *)(s); CHECK(p && p->live, "tls: session used after its release, or none at all")
void vf_gnutls_deinit(gnutls_session_t s) { SS(s); if (p->est && !p->dead && !faulted && tls_faults == all_faults) CHECK(p->bye, "tls: a session ends without telling the client, who can not tell it from a cut"); p->live = 0; sess--; if (cur == p) cur = NULL; free(p); }
int vf_gnutls_priority_set(gnutls_session_t s, gnutls_priority_t q) { SS(s); CHECK((void *)q == prio_o && prios > 0, "tls: priorities used after release"); p->prio = 1; return 0; }
int vf_gnutls_credentials_set(gnutls_session_t s, gnutls_credentials_type_t t, void *c) { SS(s); CHECK(t == GNUTLS_CRD_CERTIFICATE && c == cred_o && creds > 0, "tls: other credentials"); p->cred = 1; return 0; }
void vf_gnutls_session_enable_compatibility_mode(gnutls_session_t s) { SS(s); }
void vf_gnutls_certificate_server_set_request(gnutls_session_t s, int r) { SS(s); }
void vf_gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t f) { SS(s); p->fd = (int)(long)f; CHECK(known(p->fd) && fdt[p->fd - FD0].conn, "tls: the session is on something that is not a connection"); }
void vf_gnutls_transport_set_int2(gnutls_session_t s, int r, int w) { vf_gnutls_transport_set_ptr(s, (void *)(long)r); }
static int hs_silent, hs_tries;
int vf_gnutls_handshake(gnutls_session_t s) { SS(s); CHECK(p->fd >= 0 && known(p->fd) && p->cred && p->prio, "tls: handshake of a session that is not set up"); CHECK(++hs_tries < 8, "tls: a client that never says anything keeps the server busy for ever"); if (hs_silent) return GNUTLS_E_AGAIN;
  if (tls_faults > 0) switch (sym_pick(0, 5, "handshake")) { case 1: tls_faults--; return GNUTLS_E_FATAL_ALERT_RECEIVED; case 2: tls_faults--; hs_silent = 1; return GNUTLS_E_AGAIN; case 3: tls_faults--; return GNUTLS_E_INTERRUPTED; case 4: tls_faults--; return GNUTLS_E_WARNING_ALERT_RECEIVED; case 5: tls_faults--; return GNUTLS_E_PREMATURE_TERMINATION; }
  p->est = 1; return 0; }
int vf_gnutls_bye(gnutls_session_t s, int how) { SS(s); if (p->fd >= 0) CHECK(known(p->fd), "tls: says good bye on a closed socket"); p->bye = 1; return tf("bye", GNUTLS_E_PUSH_ERROR); }
// plain text in both directions
#ifndef BODY
#define BODY 1
#endif
static char text[BODY + 256]; static int tlen, pos, rec_end, records; static char out[2048]; static int nout, senderr; static int rcalls;
ssize_t vf_gnutls_record_recv(gnutls_session_t s, void *d, size_t n) { SS(s); CHECK(p->est && !p->dead && known(p->fd), "tls: data is read without an established session"); CHECK(n > 0 && n <= 65536, "tls: size of a read"); rcalls++;
#if MODE == 4
  if (pos >= tlen) return 0;
#endif
  if (rec_end <= pos) switch (tls_faults > 0 ? sym_pick(0, 3, "receive") : 0) { case 1: tls_faults--; p->dead = 1; return GNUTLS_E_DECRYPTION_FAILED; case 2: tls_faults--; return 0; case 3: tls_faults--; return GNUTLS_E_AGAIN; }
  if (rec_end <= pos) { CHECK(pos < tlen, "tls: reads again when there is nothing to read"); int k = pos; rec_end = RECS > records + 1 ? pos + 1 + sym_pick(0, tlen - pos - 1 < CUT ? tlen - pos - 1 : CUT, "record") : tlen; records++; if (RECS > records && sym_pick(0, 1, "rest")) rec_end = tlen;
    if (BODY > 1 && pos + (int)n + 1 < tlen && sym_pick(0, 1, "one more")) { rec_end = pos + n + 1; sym_reach("one more"); } }
  size_t l = rec_end - pos; if (l > n) l = n; memcpy(d, text + pos, l); pos += l; return l; }
size_t vf_gnutls_record_check_pending(gnutls_session_t s) { SS(s); return rec_end > pos ? rec_end - pos : 0; }
ssize_t vf_gnutls_record_send(gnutls_session_t s, const void *d, size_t n) { SS(s); CHECK(p->est && known(p->fd), "tls: data is sent without an established session"); if (p->dead) return GNUTLS_E_INVALID_SESSION; if (n == 0) return 0;
  size_t w = n; if (tls_faults > 0) switch (sym_pick(0, 3, "send")) { case 1: tls_faults--; w = (n + 1) / 2; break; case 2: tls_faults--; senderr = 1; return GNUTLS_E_AGAIN; case 3: tls_faults--; senderr = 1; p->dead = 1; return GNUTLS_E_PUSH_ERROR; }
  CHECK(nout + w <= sizeof out, "tls: more data than the response has"); if (!senderr) { memcpy(out + nout, d, w); nout += w; } return w; }
// anything beside the session would be in the clear
static int FILE_FD = -1, fopen_n, fpos; void *vf_fopen(const char *n, const char *m) { return NULL; } static const char content[] = "file-content";
ssize_t vf_read(int fd, void *b, size_t n) { CHECK(fd == FILE_FD && known(fd), "tls: reads from the socket outside of the session"); size_t l = sizeof content - 1 - fpos; if (l > n) l = n; memcpy(b, content + fpos, l); fpos += l; return l; }
ssize_t vf_write(int fd, const void *b, size_t n) { CHECK(0, "tls: writes outside of the session"); return n; }
ssize_t vf_send(int fd, const void *b, size_t n, int f) { CHECK(0, "tls: writes outside of the session"); return n; }
ssize_t vf_recv(int fd, void *b, size_t n, int f) { CHECK(0, "tls: reads outside of the session"); return n; }
ssize_t vf_writev(int fd, const void *b, int n) { CHECK(0, "tls: writes outside of the session"); return n; }
ssize_t vf_sendfile(int o, int i, off_t *p, size_t n) { CHECK(0, "tls: a file is sent outside of the session"); return n; }
int vf_open(const char *f, int fl, ...) { fopen_n++; fpos = 0; return FILE_FD = newfd(); }
static void st_fill(struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = sizeof content - 1; s->st_mtime = 1000000000; }
int vf_stat(const char *f, struct stat *s) { st_fill(s); return 0; } int vf_fstat(int fd, struct stat *s) { st_fill(s); return 0; }
char *vf_getenv(const char *n) { return NULL; }
static onion *o; static int called, bodysum, secure_seen; static long base_live;
static int hand(void *d, onion_request *r, onion_response *p) { called++; secure_seen = onion_request_is_secure(r);
#ifdef SENDS_FILE
  return onion_shortcut_response_file("/f.txt", r, p);
#else
  const onion_block *b = onion_request_get_data(r); if (b) bodysum = onion_block_size(b); onion_response_set_length(p, 5); onion_response_write(p, "hello", 5); return OCS_PROCESSED;
#endif
}
static int noinit(onion_request *r) { return 0; }
static void warm(void) { static onion srv; static onion_listen_point lp; lp.server = &srv; lp.request_init = noinit; onion_request *r = onion_request_new(&lp); onion_response *res = onion_response_new(r); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(r); base_live = sym_heap_live(); }
static void clean(void) { CHECK(sess == 0, "tls: a session is never released"); CHECK(nopen() == 0, "tls: descriptors left open"); CHECK(inits == 0 && creds == 0 && dhs == 0 && prios == 0, "tls: objects of the library are never released"); CHECK(sym_heap_live() == base_live, "tls: memory leaked"); }
#if MODE == 1
static void run_loop(void) { }
void harness(void) { warm(); tls_faults = FAULTS; onion_listen_point *lp = onion_https_new(); if (!lp) { CHECK(tls_faults < FAULTS, "tls: can not be made"); clean(); sym_reach("not made"); return; } CHECK(tls_faults == FAULTS && inits && creds && dhs && prios && dhset, "tls: made in spite of an error"); onion_listen_point_free(lp); clean(); sym_reach("made"); }
#elif MODE == 2
static void run_loop(void) { }
// a connection: handshake, request in records, response
void harness(void) { warm(); o = onion_new(O_POLL); onion_listen_point *lp = onion_https_new(); CHECK(lp && lp->secure, "tls: not marked as secure"); CHECK(onion_add_listen_point(o, NULL, "443", lp) == 0, "tls: refused"); onion_set_root_handler(o, onion_handler_new(hand, NULL, NULL)); CHECK(onion_listen_point_listen(lp) == 0, "tls: does not listen");
  strcpy(text, BODY > 1 ? "POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: " : "GET / HTTP/1.1\r\n"); tlen = strlen(text); if (BODY > 1) { char t[12]; int n = BODY, i = 11; t[i] = 0; while (n) { t[--i] = '0' + n % 10; n /= 10; } strcpy(text + tlen, t + i); strcat(text, "\r\n"); } strcat(text, "\r\n"); tlen = strlen(text); if (BODY > 1) { memset(text + tlen, 'b', BODY); tlen += BODY; }
  all_faults = tls_faults = FAULTS; net_faults = NFAULTS; int a = onion_listen_point_accept(lp); CHECK(a >= 0, "tls: an error of a connection closes the listen point");
  int fd = -1; for (int i = 0; i < NFD; i++) if (sl[i].in) fd = FD0 + i;
  if (fd < 0) { CHECK(nopen() == 1 && sess == 0, "tls: a failed connection is left open"); CHECK(tls_faults < FAULTS || net_faults < NFAULTS, "tls: a good connection is refused"); sym_reach("refused"); }
  else { CHECK(cur && cur->est && sess == 1 && cur->fd == fd, "tls: a request without an established session"); CHECK(sl[fd - FD0].timeout == o->timeout, "tls: connection without timeout"); sym_reach("connected"); S *mine = cur; int closed = 0;
    while (pos < tlen) { rcalls = 0; if (!event(fd)) break; if (!sl[fd - FD0].in) { closed = 1; break; } CHECK(rcalls > 0, "tls: data is not read"); CHECK(rec_end <= pos, "tls: data that was received waits in the session for data that may never come"); }
    if (!closed) CHECK(cur == mine && sess == 1 && known(fd), "tls: the session is gone, but not the connection"); else CHECK(sess == 0 && !known(fd), "tls: a closed connection keeps its session or its socket");
    if (pos == tlen && !senderr && tls_faults == FAULTS) { CHECK(called == 1 && !closed, "tls: a request is not attended"); if (BODY > 1) CHECK(bodysum == BODY, "tls: data of the request is lost"); CHECK(secure_seen, "tls: the request is not secure for the handler"); sym_reach("attended"); }
    if (called && !senderr && cur) { CHECK(nout > 12 && memcmp(out, "HTTP/1.1 200", 12) == 0, "tls: response is altered");
#ifdef SENDS_FILE
      CHECK(nout > sizeof content - 1 + 4 && memcmp(out + nout - (sizeof content - 1) - 4, "\r\n\r\n", 4) == 0 && memcmp(out + nout - (sizeof content - 1), content, sizeof content - 1) == 0, "tls: content of the file is altered");
#else
      CHECK(nout > 9 && memcmp(out + nout - 9, "\r\n\r\nhello", 9) == 0, "tls: content of the response is altered");
#endif
      sym_reach("answered"); }
    if (senderr || (closed)) sym_reach("closed"); }
  if (tls_faults != FAULTS) faulted = 1; all_faults = tls_faults = 0; net_faults = 0; onion_free(o); clean(); sym_reach("done"); }
#elif MODE == 3
static void run_loop(void) { }
static int setc, settype; static char pth[8], ky[8];
static void rec(const char *f, const char *k, int t, int kind) { setc++; settype = kind * 16 + t; strncpy(pth, f, 7); if (k) strncpy(ky, k, 7); }
int vf_gnutls_certificate_set_x509_crl_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t) { CHECK((void *)c == cred_o && creds > 0, "tls: other credentials"); int e = tf("file", -64); if (e) return e; rec(f, NULL, t, 1); return 1; }
int vf_gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t c, const char *f, const char *k, gnutls_x509_crt_fmt_t t) { CHECK((void *)c == cred_o && creds > 0, "tls: other credentials"); int e = tf("file", -64); if (e) return e; rec(f, k, t, 2); return 0; }
int vf_gnutls_certificate_set_x509_trust_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t) { CHECK((void *)c == cred_o && creds > 0, "tls: other credentials"); int e = tf("file", -64); if (e) return e; rec(f, NULL, t, 3); return 2; }
int vf_gnutls_certificate_set_x509_simple_pkcs12_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t, const char *pw) { CHECK((void *)c == cred_o && creds > 0, "tls: other credentials"); int e = tf("file", -64); if (e) return e; rec(f, pw, t, 4); return 0; }
// certificates: each kind goes to the call that loads it, and only on secure listen points
void harness(void) { warm(); int plain = sym_pick(0, 1, "plain"); onion_listen_point *lp = plain ? onion_http_new() : onion_https_new(); static const int ty[] = { O_SSL_CERTIFICATE_CRL, O_SSL_CERTIFICATE_KEY, O_SSL_CERTIFICATE_TRUST, O_SSL_CERTIFICATE_PKCS12, 77 }; int t = sym_pick(0, 4, "type"), der = sym_pick(0, 1, "der"); tls_faults = 1;
  int r = onion_https_set_certificate(lp, ty[t] | (der ? O_SSL_DER : 0), "cert", "key"); int ok = !plain && t < 4 && tls_faults == 1; CHECK((r >= 0) == ok, "tls: a certificate is accepted or refused wrongly"); CHECK(setc == ok, "tls: a certificate is loaded when it should not, or not loaded");
  if (ok) { CHECK(settype == (t + 1) * 16 + (der ? GNUTLS_X509_FMT_DER : GNUTLS_X509_FMT_PEM), "tls: a certificate is loaded as something else"); CHECK(!strcmp(pth, "cert") && (t == 0 || t == 2 || !strcmp(ky, "key")), "tls: another certificate file"); sym_reach("loaded"); } else sym_reach("refused");
  tls_faults = 0; onion_listen_point_free(lp); clean(); sym_reach("done"); }
#elif MODE == 4
static void run_loop(void) { }
#include <poll.h>
#include <onion/websocket.h>
// a websocket in a secure connection: frames in any records, the callback is told as soon as each has come
int vf_gnutls_hash_fast(int alg, const void *d, size_t n, void *x) { memset(x, 7, 20); return 0; }
static int polls, ended, reqlen; static unsigned char want[16]; static int nwant, ngot; static unsigned char got[16];
int vf_poll(struct pollfd *p, nfds_t n, int t) { CHECK(n == 1 && known(p->fd), "tls: waits for something else"); CHECK(t == 0 || rec_end <= pos, "tls: a frame that was received waits in the session for data that may never come"); p->revents = POLLIN; polls++; return 1; }
static onion_connection_status wscb(void *d, onion_websocket *ws, ssize_t left) { char t[8]; if (left < 0) { ended++; if (sym_pick(0, 1, "last words")) { CHECK(onion_websocket_write(ws, "bye", 3) < 0, "tls: written after the end"); CHECK(onion_websocket_read(ws, t, 1) <= 0, "tls: read after the end"); sym_reach("last words"); } return OCS_CLOSE_CONNECTION; } int r = onion_websocket_read(ws, t, left < 8 ? left : 8); if (r < 0) return OCS_CLOSE_CONNECTION; CHECK(ngot + r <= nwant, "tls: more data than the client sent"); memcpy(got + ngot, t, r); ngot += r; return OCS_NEED_MORE_DATA; }
static int wshand(void *d, onion_request *r, onion_response *p) { called++; onion_websocket *ws = onion_websocket_new(r, p); CHECK(ws, "tls: no websocket"); onion_websocket_set_callback(ws, wscb); return OCS_WEBSOCKET; }
void harness(void) { warm(); o = onion_new(O_POLL); onion_listen_point *lp = onion_https_new(); CHECK(onion_add_listen_point(o, NULL, "443", lp) == 0, "tls: refused"); onion_set_root_handler(o, onion_handler_new(wshand, NULL, NULL)); CHECK(onion_listen_point_listen(lp) == 0, "tls: does not listen");
  strcpy(text, "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAA\r\n\r\n"); reqlen = tlen = strlen(text); rec_end = reqlen; // the request in its own record: the client waits for the answer
  int nf = sym_pick(1, FRAMES, "frames"); for (int i = 0; i < nf; i++) { int l = sym_pick(0, 3, "payload"); unsigned char m[4], b[3]; sym_make(m, 4, "mask"); if (l) sym_make(b, l, "data"); text[tlen++] = 0x82; text[tlen++] = 0x80 | l; memcpy(text + tlen, m, 4); tlen += 4; for (int k = 0; k < l; k++) { text[tlen++] = b[k] ^ m[k]; want[nwant++] = b[k]; } }
  int a = onion_listen_point_accept(lp); CHECK(a >= 0, "tls: an error of a connection closes the listen point"); int fd = -1; for (int i = 0; i < NFD; i++) if (sl[i].in) fd = FD0 + i; CHECK(fd >= 0, "tls: a good connection is refused");
  event(fd); CHECK(called == 1, "tls: a request is not attended"); CHECK(pos == tlen, "tls: frames are left unread"); CHECK(ngot == nwant && memcmp(got, want, nwant) == 0, "tls: data of the frames is altered"); CHECK(!sl[fd - FD0].in && sess == 0 && !known(fd), "tls: a closed connection keeps its session or its socket"); CHECK(ended <= 1, "tls: the end is told twice"); if (polls > 1) sym_reach("waited"); if (polls <= nf) sym_reach("together");
  onion_free(o); clean(); sym_reach("done"); }
#endif
