// session stores against a plain map
#include "req.h"
#include "util.h"
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
static int rnd; void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; } static int rseq; void vf_onion_random_generate(void *d, size_t n) { memset(d, ++rseq, n); }
#ifdef PRE   // sessions that are there before
#define STORE_ROWS (PRE + 4)
#endif
#if BACK == 1
#include "sql.h"
onion_sessions *onion_sessions_sqlite3_new(const char *);
#elif BACK == 2
#include "redis.h"
onion_sessions *onion_sessions_redis_new(const char *, int);
#endif
static char *ids[2], *vals[OPS + 1]; static char *ref[2]; static int has[2];
#ifndef MANY
#define MANY 0
#endif
static onion_dict *mkd(char *v) { onion_dict *d = onion_dict_new(); if (v) { onion_dict_add(d, "k", v, OD_DUP_ALL); onion_dict *n = onion_dict_new(); onion_dict_add(n, "x", "y", 0); onion_dict_add(d, "n", n, OD_DICT | OD_FREE_VALUE); for (int i = 0; i < MANY; i++) { char k[4] = { 'm', 'a' + i / 26, 'a' + i % 26, 0 }; static char lv[400]; memset(lv, 'l', 399); onion_dict_add(d, k, i == MANY / 2 ? lv : k, OD_DUP_ALL); } } return d; }
#ifdef PRE
static void pre_id(char *b, int i) { memset(b, 'p', 30); b[30] = 'a' + i / 26; b[31] = 'a' + i % 26; b[32] = 0; }
#endif
static void look(onion_sessions *s, int i, int fault) { onion_dict *d = onion_sessions_get(s, ids[i]);
  if (!fault) { CHECK(!!d == has[i], has[i] ? "store: a saved session is not found" : "store: a session that was removed or never saved is found"); }
  if (d) { if (!fault && has[i]) { const char *v = onion_dict_get(d, "k"); if (ref[i]) { CHECK(v && !strcmp(v, ref[i]), "store: another content"); CHECK(onion_dict_count(d) == 2 + MANY, "store: content lost or invented"); for (int i = 0; i < MANY; i++) { char k[4] = { 'm', 'a' + i / 26, 'a' + i % 26, 0 }; const char *g = onion_dict_get(d, k); CHECK(g && (i == MANY / 2 ? strlen(g) == 399 && g[0] == 'l' && g[398] == 'l' : !strcmp(g, k)), "store: one of many values lost or changed"); } const char *x = onion_dict_rget(d, "n", "x", NULL); CHECK(x && !strcmp(x, "y"), "store: nested content lost"); } else CHECK(onion_dict_count(d) == 0, "store: content in an empty session"); } onion_dict_free(d); } }
void harness(void) {
#if BACK == 1
#ifdef FAULTS
  sql_fail = sym_pick(0, FAULTS, "fault");
#endif
  onion_sessions *s = onion_sessions_sqlite3_new("db");
#elif BACK == 2
#ifdef FAULTS
  red_fail = sym_pick(0, FAULTS, "fault"); red_kind = sym_pick(0, 1, "fault kind");
#endif
  onion_sessions *s = onion_sessions_redis_new("ip", 1);
#else
  onion_sessions *s = onion_sessions_mem_new();
#endif
#ifdef FAULTS
  int fault = 1; if (!s) { CHECK(rnd == 0, "store: a failed store keeps the random generator"); 
#if BACK == 1
    sql_drop();
#elif BACK == 2
    red_drop();
#endif
    sym_reach("no store"); CHECK(sym_heap_live() == 0, "store: memory leaked"); return; }
#else
  int fault = 0; CHECK(s != NULL, "store: not created"); if (!s) return;
#endif
  
#if MANY
  ids[0] = strdup("0123456789abcdefghijklmnopqrstuv"); ids[1] = strdup("0123456789abcdefghijklmnopqrstuV"); ids[0][31] = sym_u8("id"); sym_assume(ids[0][31] != 0);
#else
  ids[0] = symstr(1, IDN, "id"); ids[1] = symstr(1, IDN, "other");
#endif
  sym_assume(strcmp(ids[0], ids[1]) != 0);
#ifdef PRE
  for (int i = 0; i < PRE; i++) { char b[33]; pre_id(b, i); onion_dict *d = onion_dict_new(); onion_dict_add(d, "w", b + 30, OD_DUP_ALL); onion_sessions_save(s, b, d); onion_dict_free(d); }
#endif
  for (int o = 0; o < OPS; o++) { int i = sym_pick(0, 1, "which"), op = sym_pick(0, 2, "op");
    if (op == 0) { vals[o] = sym_pick(0, 1, "empty") == 0 ? NULL : symstrn(1, "value"); if (vals[o]) { sym_assume((unsigned char)vals[o][0] < 128); if (o) sym_assume(vals[o][0] >= 'a' && vals[o][0] <= 'z'); } onion_dict *d = mkd(vals[o]); onion_sessions_save(s, ids[i], d); onion_dict_free(d); if (has[i]) sym_reach("replaced"); has[i] = 1; ref[i] = vals[o]; }
    else if (op == 1) { onion_sessions_remove(s, ids[i]); if (has[i]) sym_reach("removed"); has[i] = 0; }
    else look(s, i, fault); }
  if (sym_pick(0, 1, "create")) { char *n = onion_sessions_create(s); CHECK(n && strlen(n) == 32, "store: bad identifier of a new session"); onion_dict *d = onion_sessions_get(s, n); if (!fault) CHECK(d && onion_dict_count(d) == 0, "store: new session not found or not empty"); onion_dict_free(d); onion_low_free(n); sym_reach("created"); }
#ifdef PRE
  for (int i = 0; i < PRE; i++) { char b[33]; pre_id(b, i); onion_dict *d = onion_sessions_get(s, b); CHECK(d != NULL, "store: one of many sessions is lost"); const char *w = onion_dict_get(d, "w"); CHECK(w && !strcmp(w, b + 30) && onion_dict_count(d) == 1, "store: another content in one of many sessions"); onion_dict_free(d); }
#endif
  look(s, 0, fault); look(s, 1, fault); onion_sessions_free(s); CHECK(rnd == 0, "store: random generator released another number of times");
#if BACK == 1
  sql_drop();
#elif BACK == 2
  red_drop();
#endif
  free(ids[0]); free(ids[1]); for (int o = 0; o < OPS; o++) free(vals[o]);
  CHECK(sym_heap_live() == 0, "store: memory leaked"); sym_reach("done");
}
