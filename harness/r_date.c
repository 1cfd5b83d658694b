// the moments a response names: its date and the end of its cookies; alone, and in two threads at once
#define OUTMAX 16384
#include "req.h"
#include "util.h"
#include <time.h>
static time_t now;
time_t vf_time(time_t *t) { time_t n = now; if (t) *t = n; sym_yield(); return n; }
// a zone one hour east; the calendar by day counting from 2001-09-09
static void cal(time_t t, struct tm *tm) { memset(tm, 0, sizeof *tm); tm->tm_sec = t % 60; tm->tm_min = t / 60 % 60; tm->tm_hour = t / 3600 % 24; long d = t / 86400; tm->tm_wday = (d + 4) % 7; int y = 1970; for (;;) { int l = y % 4 == 0 ? 366 : 365; if (d < l) break; d -= l; y++; } tm->tm_year = y - 1900; tm->tm_yday = d; static const int M[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int m = 0; for (;; m++) { int l = M[m] + (m == 1 && y % 4 == 0); if (d < l) break; d -= l; } tm->tm_mon = m; tm->tm_mday = d + 1; }
static struct tm stat_tm;
struct tm *vf_localtime_r(const time_t *t, struct tm *tm) { cal(*t + 3600, tm); tm->tm_zone = "CET"; tm->tm_gmtoff = 3600; sym_yield(); return tm; }
struct tm *vf_gmtime_r(const time_t *t, struct tm *tm) { cal(*t, tm); tm->tm_zone = "GMT"; sym_yield(); return tm; }
struct tm *vf_localtime(const time_t *t) { return vf_localtime_r(t, &stat_tm); }
struct tm *vf_gmtime(const time_t *t) { return vf_gmtime_r(t, &stat_tm); }
static const char *WD[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }, *MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static int two(char *b, int v) { b[0] = '0' + v / 10; b[1] = '0' + v % 10; return 2; }
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *tm) { char o[200]; int l = 0; for (; *f; f++) { if (*f != '%') { o[l++] = *f; continue; } switch (*++f) { case 'a': memcpy(o + l, WD[tm->tm_wday], 3); l += 3; break; case 'b': memcpy(o + l, MN[tm->tm_mon], 3); l += 3; break; case 'd': l += two(o + l, tm->tm_mday); break; case 'm': l += two(o + l, tm->tm_mon + 1); break; case 'H': l += two(o + l, tm->tm_hour); break; case 'M': l += two(o + l, tm->tm_min); break; case 'S': l += two(o + l, tm->tm_sec); break; case 'Y': l += two(o + l, (tm->tm_year + 1900) / 100); l += two(o + l, tm->tm_year % 100); break; case 'T': l += two(o + l, tm->tm_hour); o[l++] = ':'; l += two(o + l, tm->tm_min); o[l++] = ':'; l += two(o + l, tm->tm_sec); break; case 'Z': { size_t z = strlen(tm->tm_zone); memcpy(o + l, tm->tm_zone, z); l += z; break; } default: sym_stop(); } } if ((size_t)l + 1 > n) return 0; memcpy(b, o, l); b[l] = 0; return l; }
static int num(const char *p, int n) { int v = 0; for (int i = 0; i < n; i++) { if (p[i] < '0' || p[i] > '9') return -1; v = v * 10 + p[i] - '0'; } return v; }
// reads "Sun, 09 Sep 2001 01:46:40 ZONE"; 0 when it is none, or its weekday is wrong
static time_t rd(const char *p) { int w = -1, m = -1; if (strlen(p) < 29) return 0; for (int i = 0; i < 7; i++) if (!strncmp(p, WD[i], 3)) w = i; for (int i = 0; i < 12; i++) if (!strncmp(p + 8, MN[i], 3)) m = i; if (w < 0 || m < 0 || p[3] != ',' || p[4] != ' ' || p[7] != ' ' || p[11] != ' ' || p[16] != ' ' || p[19] != ':' || p[22] != ':' || p[25] != ' ') return 0; int d = num(p + 5, 2), y = num(p + 12, 4), H = num(p + 17, 2), M = num(p + 20, 2), S = num(p + 23, 2); long days = 0; for (int i = 1970; i < y; i++) days += i % 4 == 0 ? 366 : 365; static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; for (int i = 0; i < m; i++) days += ML[i] + (i == 1 && y % 4 == 0); days += d - 1; if ((days + 4) % 7 != w) return 0; time_t t = days * 86400 + H * 3600 + M * 60 + S; if (!strncmp(p + 26, "CET", 3)) t -= 3600; else if (strncmp(p + 26, "GMT", 3) && strncmp(p + 26, "UTC", 3)) return 0; return t; }
static time_t date_of(onion_response *res) { const char *d = onion_dict_get(onion_response_get_headers(res), "Date"); CHECK(d != NULL, "date: none"); if (!d) return 0; CHECK(strlen(d) == 29, "date: not a date"); return rd(d); }
static time_t end_of(onion_response *res, const char *name) { const char *c = onion_dict_get(onion_response_get_headers(res), "Set-Cookie"); if (!c) return 0; CHECK(!strncmp(c, name, strlen(name)), "cookie: another"); const char *e = strstr(c, "; expires="); return e ? rd(e + 10) : 0; }
static void give(onion_response *res) { onion_dict_free(res->headers); onion_low_free(res); }
#if MODE == 1
void harness(void) { static const time_t T[] = { 1000000000, 951782399, 1709251199, 1735689599 }; now = T[sym_pick(0, 3, "time")]; onion_request *r = mkreq(); long l0 = 0;
  for (int i = 0; i < STEPS; i++) { if (i) { static const int D[] = { 0, 1, 60, 3600, 86400, -1 }; now += D[sym_pick(0, 5, "later")]; } onion_response *res = onion_response_new(r); time_t d = date_of(res); CHECK(d == now, "date: another moment than the present one");
    int v = sym_pick(0, 4, "lifetime"); static const int V[] = { -1, 0, 1, 7200, 31536000 }; if (sym_pick(0, 1, "tick")) now++; CHECK(onion_response_add_cookie(res, "n", "v", V[v], NULL, NULL, 0), "cookie: refused"); const char *c = onion_dict_get(onion_response_get_headers(res), "Set-Cookie"); if (V[v] < 0) CHECK(c && !strcmp(c, "n=v"), "cookie: ends without being told"); else { time_t e = end_of(res, "n=v"); CHECK(V[v] ? e == now + V[v] : c && strstr(c, "; expires=Thu, 01 Jan 1970") != NULL, "cookie: ends at another moment"); sym_reach("cookie"); }
    give(res); if (!i) l0 = sym_heap_live(); else CHECK(sym_heap_live() == l0, "date: memory leaked"); } onion_request_free(r); sym_reach("done"); }
#else
// two threads, the clock goes on while they work
static int running; static time_t seen[2]; static int life[2] = { 100, 90000 };
static void *th(void *a) { int t = (int)(intptr_t)a; onion_request *r = mkreq(); time_t before = now; onion_response *res = onion_response_new(r); time_t d = date_of(res); CHECK(d >= before - 1 && d <= now + 1, "date: neither of the present moment nor of the one before"); 
#ifdef COOKIES
  before = now; char n[3] = { 'n', '0' + t, 0 }; CHECK(onion_response_add_cookie(res, n, "v", life[t], NULL, NULL, 0), "cookie: refused"); time_t e = end_of(res, n); CHECK(e >= before + life[t] && e <= now + life[t], "cookie: ends at another moment");
#endif
  give(res); onion_request_free(r); running--; sym_wake(); return NULL; }
void harness(void) { now = 1000000000; if (sym_pick(0, 1, "warm")) warm(); running = 2; sym_thread(th, (void *)0); sym_thread(th, (void *)1); sym_yield(); now++; sym_yield(); while (running) sym_block(); sym_reach("done"); }
#endif
