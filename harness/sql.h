// sqlite3 as the session backend uses it: one table (id, data), prepared statements, bound texts read when stepped.
#ifndef SQL_H
#define SQL_H
#ifndef STORE_ROWS
#define STORE_ROWS 6
#endif
#include <sqlite3.h>
typedef struct { char *id, *data; } row;
struct sqlite3 { int open; }; typedef struct { int kind, np, order, live, stepped; const char *arg[3]; char *col; } stmt; // kind 1 select 2 replace 3 delete 4 insert
static struct sqlite3 the_db; static int db_opens, stmts_live; static row rows[STORE_ROWS]; static int sql_calls, sql_fail = -1;
static int sqlf(void) { return sql_calls++ == sql_fail; }
static int kw(const char **s, const char *w) { const char *p = *s; while (*p == ' ') p++; int i = 0; for (; w[i]; i++) { char c = p[i]; if (c >= 'a' && c <= 'z') c -= 32; if (c != w[i]) return 0; } *s = p + i; return 1; }
static const char *find(const char *s, const char *w) { for (; *s; s++) { const char *q = s; if (kw(&q, w) && *s != ' ') return s; } return 0; }
int vf_sqlite3_open(const char *f, sqlite3 **db) { *db = &the_db; db_opens++; return sqlf() ? SQLITE_CANTOPEN : SQLITE_OK; }
int vf_sqlite3_close(sqlite3 *db) { CHECK(db == &the_db && db_opens > 0, "store: database closed twice"); CHECK(!stmts_live, "store: database closed with statements open"); db_opens--; return 0; }
int vf_sqlite3_close_v2(sqlite3 *db) { return vf_sqlite3_close(db); }
const char *vf_sqlite3_errmsg(sqlite3 *db) { return "error"; }
int vf_sqlite3_exec(sqlite3 *db, const char *s, void *a, void *b, char **e) { if (!kw(&s, "CREATE") && !kw(&s, "PRAGMA") && !kw(&s, "BEGIN") && !kw(&s, "COMMIT")) sym_stop(); return 0; }
int vf_sqlite3_prepare_v2(sqlite3 *db, const char *s, int n, sqlite3_stmt **st, const char **tail) {
  if (sqlf()) { *st = 0; return SQLITE_ERROR; }
  stmt *t = malloc(sizeof *t); memset(t, 0, sizeof *t); const char *all = s; CHECK(n < 0 || (size_t)n >= strlen(s), "store: statement cut");
  if (kw(&s, "SELECT")) t->kind = 1; else if (kw(&s, "REPLACE")) t->kind = 2; else if (kw(&s, "DELETE")) t->kind = 3; else if (kw(&s, "INSERT")) t->kind = kw(&s, "OR REPLACE") ? 2 : 4; else sym_stop();
  for (const char *p = all; *p; p++) { if (*p == '?') t->np++; CHECK(*p != '\'' && *p != '"', "store: text from outside in a statement"); }
  if (!find(all, "SESSIONS")) sym_stop();
  if (t->kind == 1 || t->kind == 3) CHECK(t->np == 1 && find(all, "WHERE"), "store: statement not limited to one identifier"); else { CHECK(t->np == 2, "store: statement without its two values"); const char *a = find(all, "ID"), *b = find(all, "DATA"); if (a && b && b < a) t->order = 1; }
  stmts_live++; t->live = 1; *st = (void *)t; return SQLITE_OK; }
int vf_sqlite3_prepare(sqlite3 *db, const char *s, int n, sqlite3_stmt **st, const char **tail) { return vf_sqlite3_prepare_v2(db, s, n, st, tail); }
static void nocol(stmt *t) { if (t->col) { free(t->col); t->col = 0; } }
int vf_sqlite3_reset(sqlite3_stmt *st) { stmt *t = (void *)st; nocol(t); t->stepped = 0; return SQLITE_OK; }
int vf_sqlite3_clear_bindings(sqlite3_stmt *st) { stmt *t = (void *)st; t->arg[1] = t->arg[2] = 0; return SQLITE_OK; }
int vf_sqlite3_finalize(sqlite3_stmt *st) { stmt *t = (void *)st; if (!t) return 0; CHECK(t->live, "store: statement released twice"); nocol(t); stmts_live--; free(t); return 0; }
int vf_sqlite3_bind_text(sqlite3_stmt *st, int i, const char *v, int n, void (*d)(void *)) { stmt *t = (void *)st; if (sqlf()) return SQLITE_NOMEM; if (t->stepped) return SQLITE_MISUSE; if (i < 1 || i > t->np) return SQLITE_RANGE; if (!(n < 0 || (v && strlen(v) == (size_t)n))) sym_stop(); t->arg[i] = v; return SQLITE_OK; }
int vf_sqlite3_bind_null(sqlite3_stmt *st, int i) { stmt *t = (void *)st; if (t->stepped) return SQLITE_MISUSE; if (i < 1 || i > t->np) return SQLITE_RANGE; t->arg[i] = 0; return SQLITE_OK; }
int vf_sqlite3_step(sqlite3_stmt *st) { stmt *t = (void *)st; if (sqlf()) { t->stepped = 1; return SQLITE_BUSY; } nocol(t); t->stepped = 1; const char *id = t->arg[1 + t->order], *data = t->arg[2 - t->order]; int k = -1;
  if (id) for (int i = 0; i < STORE_ROWS; i++) if (rows[i].id && !strcmp(rows[i].id, id)) k = i;
  if (t->kind == 1) { if (k < 0) return SQLITE_DONE; t->col = rows[k].data ? strdup(rows[k].data) : 0; return SQLITE_ROW; }
  if (t->kind == 3) { if (k >= 0) { free(rows[k].id); free(rows[k].data); rows[k].id = rows[k].data = 0; } return SQLITE_DONE; }
  if (k >= 0) { if (t->kind == 4) return SQLITE_CONSTRAINT; free(rows[k].data); rows[k].data = data ? strdup(data) : 0; return SQLITE_DONE; }
  for (int i = 0; i < STORE_ROWS; i++) if (!rows[i].id) { rows[i].id = strdup(id ? id : ""); rows[i].data = data ? strdup(data) : 0; return SQLITE_DONE; } sym_stop(); return 0; }
const unsigned char *vf_sqlite3_column_text(sqlite3_stmt *st, int c) { return (void *)((stmt *)st)->col; }
static void sql_drop(void) { for (int i = 0; i < STORE_ROWS; i++) { free(rows[i].id); free(rows[i].data); } CHECK(!db_opens && !stmts_live, "store: database left open"); }
#endif
