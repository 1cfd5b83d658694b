// which session a request joins, and what its requests see
#include "req.h"
#include "util.h"
#include <onion/low.h>
#include "client.h"
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
char *onion_sessions_generate_id(void);
static int rnd; void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; }
static unsigned char *rsrc; static int rseq; static size_t rgot;
void vf_onion_random_generate(void *d, size_t n) { if (rsrc) { CHECK(n <= 64, "session id: random bytes"); memcpy(d, rsrc, n); rgot = n; } else { memset(d, 0, n); ((char *)d)[0] = ++rseq; } }
#if MODE == 1
void harness(void) { unsigned char a[64], b[64]; sym_make(a, 32, "random"); memset(a + 32, 0, 32); memcpy(b, a, 64);
  int i = sym_pick(0, 31, "position"); unsigned char c; sym_make(&c, 1, "other byte"); b[i] = c;
  rsrc = a; char *x = onion_sessions_generate_id(); CHECK(rgot >= 32, "session id: made from less than 32 random bytes"); rsrc = b; char *y = onion_sessions_generate_id();
  unsigned bad = 0; for (int k = 0; k < 32; k++) bad |= !ALNUM(x[k]); CHECK(!bad && x[32] == 0, "session id: not 32 letters and digits");
  // another random byte in one position gives another identifier, unless the two bytes are equal modulo the alphabet
  unsigned diff = 0; for (int k = 0; k < 32; k++) diff |= (x[k] != y[k]);
  sym_assume((c % 62) != (a[i] % 62)); sym_assume(((signed char)c - (signed char)a[i]) % 62 != 0); sym_assume(((size_t)(signed char)c % 62) != ((size_t)(signed char)a[i] % 62));
  CHECK(diff, "session id: does not depend on all the random bytes"); sym_reach("done"); onion_low_free(x); onion_low_free(y); CHECK(sym_heap_live() == 0, "session id: memory leaked"); }
#elif MODE == 2
#ifndef XFILL
#define XFILL 0
#endif
static char *in; static int il;
static int refjoin(void) { int i = 0; for (;;) { while (i < il && (in[i] == ' ' || in[i] == '\t')) i++; int j = i; while (j < il && in[j] != ';') j++;
    if (j - i >= 10 && !memcmp(in + i, "sessionid=", 10)) { if (j - i == 11 && (in[i + 10] == 'a' || in[i + 10] == 'b')) return in[i + 10]; }
    if (j >= il) return 0; i = j + 1; } }
void harness(void) { warm();
  onion_sessions *s = onion_sessions_mem_new(); the_server.sessions = s; onion_dict *d = onion_dict_new(); onion_dict_add(d, "who", "a", 0); onion_sessions_save(s, "a", d); onion_dict_free(d); d = onion_dict_new(); onion_dict_add(d, "who", "b", 0); onion_sessions_save(s, "b", d); onion_dict_free(d);
  onion_request *r = mkreq(); int has = sym_pick(0, 1, "cookie");
  if (has) { char *x = symstr(0, XN, "before"), *y = symstr(0, YN, "between"), *z = symstr(0, ZN, "after"); int two = sym_pick(0, 1, "two");
    in = malloc(64 + XFILL); in[0] = 0;
    if (XFILL) { int l = 0; static const int ls[] = { 40, 200, 300, 600, 1100, 2100, 4200 }; int L = ls[sym_pick(0, 6, "filler")]; while (l < L) { memcpy(in + l, "other=v; ", 9); l += 9; } in[l] = 0; }
    strcat(in, x); strcat(in, "sessionid="); strcat(in, y); if (two) { strcat(in, "sessionid="); strcat(in, z); } il = strlen(in); onion_dict_add(r->headers, "Cookie", in, OD_DUP_VALUE); free(x); free(y); free(z); }
  int want = has ? refjoin() : 0; onion_dict *g = onion_request_get_session_dict(r); CHECK(g != NULL, "session: none"); const char *w = onion_dict_get(g, "who");
  if (want) { CHECK(w && w[0] == want && !w[1], "session: the stored session named by the cookie is not joined"); CHECK(r->session_id && r->session_id[0] == want && !r->session_id[1], "session: wrong identifier"); sym_reach("joined"); }
  else { CHECK(!w, "session: joins a session its cookie does not name"); CHECK(onion_dict_count(g) == 0, "session: a new session is not empty"); CHECK(r->session_id && strlen(r->session_id) == 32, "session: bad identifier of the new session"); sym_reach("new"); }
  free(in); onion_request_free(r); onion_sessions_free(s); the_server.sessions = NULL; CHECK(rnd == 0, "session: generator not released"); CHECK(sym_heap_live() == base_live, "session: memory leaked"); sym_reach("done"); }
#elif MODE == 5
// a store that fails: nothing found, nothing kept
static int fget, fsave, gets_, saves; static onion_dict *kept; static char kid[40];
static onion_dict *bget(onion_sessions *s, const char *id) { gets_++; if (fget && sym_pick(0, 1, "get fails")) return NULL; return kept && !strcmp(id, kid) ? onion_dict_dup(kept) : NULL; }
static void bsave(onion_sessions *s, const char *id, onion_dict *d) { saves++; if (fsave && sym_pick(0, 1, "save fails")) return; if (kept && (d == NULL || d != kept)) { if (!strcmp(id, kid)) { onion_dict_free(kept); kept = NULL; } } if (d && !kept) { kept = onion_dict_dup(d); strcpy(kid, id); } }
static void bfree(onion_sessions *s) { if (kept) onion_dict_free(kept); free(s); }
void harness(void) { warm(); onion_sessions *s = NULL; int none = sym_pick(0, 1, "no store"); if (!none) { s = malloc(sizeof *s); memset(s, 0, sizeof *s); s->get = bget; s->save = bsave; s->free = bfree; rnd = 1; fget = sym_pick(0, 1, "gets"); fsave = sym_pick(0, 1, "saves"); } the_server.sessions = s; char id[40] = "";
  for (int q = 0; q < 3; q++) { onion_request *r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = strdup("/"); r->path = r->fullpath; r->GET = onion_dict_new(); if (id[0]) { char h[80]; strcpy(h, "sessionid="); strcat(h, id); onion_dict_add(r->headers, "Cookie", h, OD_DUP_VALUE); }
    onion_dict *g = onion_request_get_session_dict(r); CHECK(g != NULL, "session: none when the store fails"); CHECK(onion_request_get_session_dict(r) == g, "session: another one within the request"); const char *v = onion_dict_get(g, "k"); CHECK(!v || !strcmp(v, "v"), "session: other content"); if (!none && !fget && !fsave && q) CHECK(v != NULL && !strcmp(r->session_id, id), "session: not found again"); if (v) sym_reach("found"); else { onion_dict_add(g, "k", "v", OD_DUP_ALL); CHECK(onion_dict_get(g, "k") && onion_request_get_session(r, "k"), "session: does not take values"); sym_reach("fresh"); } if (r->session_id) strcpy(id, r->session_id);
    out_len = 0; onion_response *res = onion_response_new(r); onion_response_set_length(res, 1); onion_response_write(res, "x", 1); onion_response_free(res); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.blen == 1, "session: the answer suffers from the store"); onion_request_free(r); }
  if (s) { onion_sessions_free(s); CHECK(rnd == 0, "session: generator not released"); } the_server.sessions = NULL; CHECK(sym_heap_live() == base_live, "session: memory leaked"); sym_reach("done"); }
#elif MODE == 4
// many values in one session, through several requests, among many other sessions
static void kn(char *k, int i) { k[0] = 'k'; k[1] = 'a' + i / 26; k[2] = 'a' + i % 26; k[3] = 0; }
void harness(void) { warm(); onion_sessions *s = onion_sessions_mem_new(); the_server.sessions = s; char id[40] = "", k[4]; int ln = longlen(), at = sym_pick(0, 1, "where") ? MANY - 1 : 0; char *lv = malloc(ln + 1); longfill(lv, ln); lv[ln] = 0; lv[ln - 1] = sym_u8("last"); sym_assume(lv[ln - 1] != 0); int others = sym_pick(0, 1, "others") ? 12 : 0;
  for (int i = 0; i < others; i++) { char n[3] = { 'o', 'a' + i, 0 }; onion_dict *d = onion_dict_new(); onion_dict_add(d, "w", n, OD_DUP_ALL); onion_sessions_save(s, n, d); onion_dict_free(d); }
  for (int q = 0; q < 3; q++) { onion_request *r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = strdup("/"); r->path = r->fullpath; r->GET = onion_dict_new(); if (q) { char h[80]; strcpy(h, "sessionid="); strcat(h, id); onion_dict_add(r->headers, "Cookie", h, OD_DUP_VALUE); } onion_dict *g = onion_request_get_session_dict(r); CHECK(g != NULL, "session: none");
    if (q) CHECK(r->session_id && !strcmp(r->session_id, id), "session: another identifier"); else { CHECK(r->session_id && strlen(r->session_id) == 32, "session: bad identifier"); strcpy(id, r->session_id); }
    int have = q * MANY / 2; CHECK(onion_dict_count(g) == have, "session: values lost or invented"); for (int i = 0; i < have; i++) { kn(k, i); const char *v = onion_dict_get(g, k); CHECK(v && !strcmp(v, i == at ? lv : k), "session: another value than stored with this identifier"); }
    if (q < 2) for (int i = have; i < (q + 1) * MANY / 2; i++) { kn(k, i); onion_dict_add(g, k, i == at ? lv : k, OD_DUP_ALL); }
    out_len = 0; onion_response *res = onion_response_new(r); onion_response_set_length(res, 1); onion_response_write(res, "x", 1); onion_response_free(res); onion_request_free(r); }
  for (int i = 0; i < others; i++) { char n[3] = { 'o', 'a' + i, 0 }; onion_dict *d = onion_sessions_get(s, n); CHECK(d && onion_dict_count(d) == 1 && !strcmp(onion_dict_get(d, "w"), n), "session: another session lost or changed"); onion_dict_free(d); }
  free(lv); onion_sessions_free(s); the_server.sessions = NULL; CHECK(rnd == 0, "session: generator not released"); CHECK(sym_heap_live() == base_live, "session: memory leaked"); sym_reach("done"); }
#else
// histories of requests: each presents no cookie, an identifier given before, or another one; reads or writes its session; ends
static char ids[REQS][40]; static int nid; static int alive[REQS]; static char val[REQS], val2[REQS];   // reference store: slot -> contents (0: not there)
static int known(const char *id) { for (int i = 0; i < nid; i++) if (!strcmp(ids[i], id)) return i; return -1; }
void harness(void) { warm();
  onion_sessions *s = onion_sessions_mem_new(); the_server.sessions = s; onion_request *r = NULL;
  for (int q = 0; q < REQS; q++) { if (!r) r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = strdup("/"); r->path = r->fullpath; r->GET = onion_dict_new();
    int ck = sym_pick(-2, nid - 1, "cookie"); char h[80]; if (ck >= 0) { strcpy(h, "x=1; sessionid="); strcat(h, ids[ck]); onion_dict_add(r->headers, "Cookie", h, OD_DUP_VALUE); } else if (ck == -2) onion_dict_add(r->headers, "Cookie", "sessionid=nobody", 0);
    int op = sym_pick(0, 6, "op"); int slot = ck >= 0 && alive[ck] ? ck : -1; int isnew = 0; char cur = slot >= 0 ? val[slot] : 0, cur2 = slot >= 0 ? val2[slot] : 0;
    if (op) { onion_dict *g; 
      if (op != 5) { g = onion_request_get_session_dict(r); CHECK(g != NULL, "session: none"); const char *v = onion_dict_get(g, "k"), *v2 = onion_dict_get(g, "j");
        CHECK(cur ? v && v[0] == cur && !v[1] : !v, "session: another value than stored with this identifier"); CHECK(cur2 ? v2 && v2[0] == cur2 : !v2, "session: another value than stored with this identifier");
        if (slot < 0) { CHECK(known(r->session_id) < 0, "session: identifier given twice"); CHECK(strlen(r->session_id) == 32, "session: bad identifier"); slot = nid++; strcpy(ids[slot], r->session_id); isnew = 1; } else CHECK(!strcmp(r->session_id, ids[slot]), "session: another identifier"); }
      char nv[2] = { 'A' + q, 0 };
      if (op == 2) { onion_dict_add(g, "k", nv, OD_DUP_ALL | OD_REPLACE); cur = nv[0]; }
      else if (op == 6) { onion_dict_add(g, "j", nv, OD_DUP_ALL | OD_REPLACE); cur2 = nv[0]; }
      else if (op == 3) { onion_dict_remove(g, "k"); cur = 0; }
      else if (op == 4) { onion_dict_add(g, "k", nv, OD_DUP_ALL | OD_REPLACE); onion_request_session_free(r); cur = cur2 = 0; }
      else if (op == 5) { onion_request_session_free(r); cur = cur2 = 0; }
      if (slot >= 0) { val[slot] = cur; val2[slot] = cur2; alive[slot] = cur || cur2; } }
    out_len = 0; onion_response *res = onion_response_new(r); onion_response_set_length(res, 1); onion_response_write(res, "x", 1); onion_response_free(res); int told = 0, other = 0;
    { answer a = client(out_buf, out_len, 0); CHECK(a.ok, "session: the response can not be read"); for (size_t i = 0; i + 22 < a.head; i++) if (out_buf[i] == '\n' && ci_pre(out_buf + i + 1, a.head - i - 1, "set-cookie: sessionid=")) { const char *t = out_buf + i + 23; if (slot >= 0 && strncmp(t, ids[slot], 32) == 0 && t[32] == ';') told++; else other++; } }
    CHECK(!other, "session: the response names another session"); CHECK(told <= 1, "session: announced more than once"); if (isnew && alive[slot]) { CHECK(told == 1, "session: new session not announced"); sym_reach("announced"); } if (!op || (slot >= 0 && !alive[slot]) || slot < 0) CHECK(!told, "session: announced without one");
    if (slot >= 0 && !alive[slot]) sym_reach("forgotten");
    if (sym_pick(0, 1, "keep")) { onion_request_clean(r); } else { onion_request_free(r); r = NULL; }
    for (int i = 0; i < nid; i++) { onion_dict *d = onion_sessions_get(s, ids[i]); CHECK(!!d == alive[i], alive[i] ? "session: lost" : "session: an emptied session is kept"); onion_dict_free(d); } }
  if (r) onion_request_free(r); onion_sessions_free(s); the_server.sessions = NULL; CHECK(rnd == 0, "session: generator not released"); CHECK(sym_heap_live() == base_live, "session: memory leaked"); sym_reach("done"); }
#endif
