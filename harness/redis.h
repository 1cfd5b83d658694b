// hiredis as the session backend uses it: the format is split at blanks, %b and %s arguments stay whole.
#ifndef RED_H
#define RED_H
#ifndef STORE_ROWS
#define STORE_ROWS 6
#endif
#include <hiredis/hiredis.h>
#include <stdarg.h>
typedef struct { char *k; size_t kl; char *v; size_t vl; } hrow;
static hrow hrows[STORE_ROWS]; static redisContext *the_ctx; static int red_live, red_calls, red_fail = -1, red_kind, red_ctx;
redisContext *vf_redisConnect(const char *ip, int port) { if (red_calls++ == red_fail) { if (red_kind == 0) return 0; redisContext *c = malloc(sizeof *c); memset(c, 0, sizeof *c); c->err = 1; red_ctx++; return c; } redisContext *c = malloc(sizeof *c); memset(c, 0, sizeof *c); the_ctx = c; red_ctx++; return c; }
void vf_redisFree(redisContext *c) { if (!c) return; red_ctx--; free(c); }
void vf_freeReplyObject(void *p) { redisReply *r = p; if (!r) return; if (r->str) free(r->str); free(r); red_live--; }
static char *slice(const char *p, size_t n) { char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
void *vf_redisCommand(redisContext *c, const char *f, ...) {
  CHECK(c && c == the_ctx, "store: command without a connection"); if (!c || c != the_ctx) return 0;
  if (red_calls++ == red_fail && red_kind == 0) return 0;
  char *tok[8]; size_t tl[8]; int n = 0; va_list ap; va_start(ap, f);
  while (*f) { while (*f == ' ') f++; if (!*f) break; if (n >= 8) sym_stop(); char buf[8192]; size_t l = 0;
    while (*f && *f != ' ') { if (*f == '%' && (f[1] == 'b' || f[1] == 's')) { const char *p = va_arg(ap, const char *); size_t pl = f[1] == 'b' ? va_arg(ap, size_t) : strlen(p); if (l + pl > 8192) sym_stop(); memcpy(buf + l, p, pl); l += pl; f += 2; } else { if (l >= 8192) sym_stop(); buf[l++] = *f++; } }
    tok[n] = slice(buf, l); tl[n++] = l; }
  va_end(ap);
  redisReply *r = malloc(sizeof *r); memset(r, 0, sizeof *r); red_live++; r->type = REDIS_REPLY_ERROR;
  int key = -1, cmd = 0; if (n >= 3 && tl[0] > 3 && !strcmp(tok[0], "HGET")) cmd = 1; if (n >= 3 && !strcmp(tok[0], "HEXISTS")) cmd = 2; if (n >= 3 && !strcmp(tok[0], "HDEL")) cmd = 3; if (n == 4 && !strcmp(tok[0], "HSET")) cmd = 4;
  if (!cmd && (n < 1 || (strcmp(tok[0], "HGET") && strcmp(tok[0], "HEXISTS") && strcmp(tok[0], "HDEL") && strcmp(tok[0], "HSET")))) sym_stop();
  if (cmd && cmd != 4 && n > 3) cmd = cmd == 3 ? 3 : 0; // further fields
  if (red_calls - 1 == red_fail) cmd = 0;
  if (cmd) for (int i = 0; i < STORE_ROWS; i++) if (hrows[i].k && hrows[i].kl == tl[2] && !memcmp(hrows[i].k, tok[2], tl[2])) key = i;
  if (cmd == 1) { if (key < 0) r->type = REDIS_REPLY_NIL; else { r->type = REDIS_REPLY_STRING; r->str = slice(hrows[key].v, hrows[key].vl); r->len = hrows[key].vl; } }
  if (cmd == 2) { r->type = REDIS_REPLY_INTEGER; r->integer = key >= 0; }
  if (cmd == 3) { CHECK(n == 3, "store: the identifier changed the command"); r->type = REDIS_REPLY_INTEGER; r->integer = key >= 0; if (key >= 0) { free(hrows[key].k); free(hrows[key].v); hrows[key].k = 0; } }
  if (cmd == 4) { r->type = REDIS_REPLY_INTEGER; r->integer = key < 0; if (key >= 0) free(hrows[key].v); else { for (int i = 0; i < STORE_ROWS && key < 0; i++) if (!hrows[i].k) key = i; if (key < 0) sym_stop(); hrows[key].k = slice(tok[2], tl[2]); hrows[key].kl = tl[2]; } hrows[key].v = slice(tok[3], tl[3]); hrows[key].vl = tl[3]; }
  for (int i = 0; i < n; i++) free(tok[i]); return r; }
static void red_drop(void) { for (int i = 0; i < STORE_ROWS; i++) if (hrows[i].k) { free(hrows[i].k); free(hrows[i].v); } CHECK(!red_live && !red_ctx, "store: replies or connections not released"); }
#endif
