// one log line
#include "util.h"
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include <onion/log.h>
void onion_log_stderr(onion_log_level level, const char *filename, int lineno, const char *fmt, ...);
void onion_log_syslog(onion_log_level level, const char *filename, int lineno, const char *fmt, ...);
static char out[1024]; static int ol, writes, sysn, syspri; static int oncedone; static char *envlog;
ssize_t vf_write(int fd, const void *b, size_t n) { CHECK(fd == 2 && n < sizeof out, "log: writes somewhere else, or too much"); CHECK(sym_readable(b, n), "log: writes bytes it does not have"); memcpy(out, b, n); ol = n; writes++; return n; }
int vf_pthread_once(int *o, void (*f)(void)) { if (!oncedone) { oncedone = 1; f(); } return 0; }
unsigned long vf_pthread_self(void) { return 0x7fffdeadbeefUL; }
char *vf_getenv(const char *n) { return !strcmp(n, "ONION_LOG") ? envlog : NULL; }
static int datefits = 1; size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *t) { static const char d[] = "2001-09-09 01:46:40"; if (!datefits) { memset(b, 'x', n); return 0; } CHECK(n >= sizeof d, "log: no space for the date"); strcpy(b, d); return sizeof d - 1; }
static char sysmsg[64]; void vf_vsyslog(int pri, const char *f, va_list ap) { sysn++; syspri = pri; vsnprintf(sysmsg, sizeof sysmsg, f, ap); }
static int find(const char *h, int hl, const char *n, int nl) { int any = 0; for (int i = 0; i + nl <= hl; i++) any |= eqn(h + i, n, nl); return any ? 1 : -1; }   // one question
#ifdef EDGE
#define EDGEN 1
#else
#define EDGEN 4
#endif
void harness(void) { static const char *envs[] = { NULL, "nocolor", "noinfo,nodebug", "noinfo nocolor", "" }; 
#ifdef EDGE
#define pick(a, b, n, v) (v)
#else
#define pick(a, b, n, v) sym_pick(a, b, n)
#endif
  int e = sym_pick(0, EDGEN, "environment"); envlog = (char *)envs[e];
  static const int fls[] = { 1, 20, 127, 128, 129, 200, 1000 }, mls[] = { 0, 1, 20 }; int fi = pick(0, 6, "file name length", 1); int fl = fls[fi]; datefits = pick(0, 1, "date", 1);
  int dir = pick(0, 1, "directory", 0); char *fn = malloc(fl + 8); strcpy(fn, dir ? "/a/b/" : ""); int o = strlen(fn); memset(fn + o, 'f', fl); fn[o + fl] = 0; char last; sym_make(&last, 1, "last byte of the name"); sym_assume(last != 0 && last != '/' && last != '\n'); fn[o + fl - 1] = last;
  int ml = sym_pick(0, ML, "message length") * MS; char *msg = malloc(ml + 1); memset(msg, 'm', ml); msg[ml] = 0; if (ml) { sym_make(msg + ml - 1, 1, "last byte of the message"); sym_assume(msg[ml - 1] != 0 && msg[ml - 1] != '\n'); }
  static const unsigned lv[] = { O_DEBUG0, O_DEBUG, O_INFO, O_WARNING, O_ERROR, 5, 6, 1000, 0xffffffffu }; int li = pick(0, 8, "level", 3); static const int lns[] = { 1, 99999, (int)0x80000000 }; int line = lns[pick(0, 2, "line", 0)];
  onion_log_stderr(lv[li], fn, line, "%s", msg);
  if ((e == 2 || e == 3) && li == 2) { CHECK(writes == 0, "log: information is written when it was disabled"); sym_reach("disabled"); }
  else if (e == 2 && li == 1) { CHECK(writes == 0, "log: debug is written when it was disabled"); }
  else { CHECK(writes == 1, "log: not written once"); CHECK(ol > 0 && ol <= 256 && out[ol - 1] == '\n', "log: not one bounded line"); int nl = 0, nul = 0; for (int i = 0; i < ol; i++) { nl += out[i] == '\n'; nul |= out[i] == 0; } CHECK(nl == 1, "log: more than one line"); CHECK(!nul, "log: NUL in the line");
    CHECK((e == 1 || e == 3) == (out[0] != '\033'), "log: colors");
    if (fl <= 100 && ml <= 60) { CHECK(find(out, ol, msg, ml) >= 0, "log: the message is not in the line"); CHECK(find(out, ol, fn + o, fl) >= 0, "log: the file name is not in the line"); sym_reach("whole"); }
    else { if (find(out, ol, msg, ml) < 0) { CHECK(find(out, ol, "...", 3) >= 0, "log: cut without a mark"); sym_reach("cut"); } } }
  for (int l = 0; l < 7; l++) { sysn = 0; onion_log_syslog(l, fn, line, "x%dy", 12); CHECK(sysn <= 1 && (l > 4 || (sysn == 1 && !strcmp(sysmsg, "x12y"))), "log: the message does not reach syslog"); }
  free(fn); free(msg); CHECK(sym_heap_live() == 0, "log: memory leaked"); sym_reach("done"); }
