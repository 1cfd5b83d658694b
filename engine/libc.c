// C library model used only inside the symbolic executor. Plain, bounds-checked by the executor.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include "sym.h"
typedef unsigned char uc;
void *malloc(size_t); void free(void *); void *realloc(void *, size_t); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
static int the_errno; int *__errno_location(void) { return &the_errno; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int strncmp(const char *a, const char *b, size_t n) { if (!n) return 0; while (--n && *a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned short ctab[384]; static const unsigned short *ctabp; 
const unsigned short **__ctype_b_loc(void) { if (!ctabp) { for (int c = 0; c < 256; c++) { unsigned short m = 0;
  // little endian glibc bit layout
  if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (isgraph(c)) m |= 1 << 15; if (isblank(c)) m |= 1 << 0; if (iscntrl(c)) m |= 1 << 1; if (ispunct(c)) m |= 1 << 2; if (isalnum(c)) m |= 1 << 3; ctab[128 + c] = m; } ctabp = ctab + 128; } return &ctabp; }
static int lowtab[384], uptab[384]; static const int *lowp, *upp;
const int **__ctype_tolower_loc(void) { if (!lowp) { for (int i = -128; i < 256; i++) lowtab[128 + i] = tolower(i); lowp = lowtab + 128; } return &lowp; }
const int **__ctype_toupper_loc(void) { if (!upp) { for (int i = -128; i < 256; i++) uptab[128 + i] = toupper(i); upp = uptab + 128; } return &upp; }
int strcasecmp(const char *a, const char *b) { while (*a && tolower((uc)*a) == tolower((uc)*b)) { a++; b++; } return tolower((uc)*a) - tolower((uc)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { if (!n) return 0; while (--n && *a && tolower((uc)*a) == tolower((uc)*b)) { a++; b++; } return tolower((uc)*a) - tolower((uc)*b); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char *)h; } return 0; }
char *strcasestr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { const char *a = h, *b = n; while (*b && tolower((uc)*a) == tolower((uc)*b)) { a++; b++; } if (!*b) return (char *)h; } return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *)s; return 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char *__strtok_r(char *s, const char *d, char **sv) { return strtok_r(s, d, sv); }
static char *tksv; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tksv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void *memchr(const void *p, int c, size_t n) { const uc *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (uc)c) return (void *)(s + i); return 0; }
void *rawmemchr(const void *p, int c) { const uc *s = p; while (*s != (uc)c) s++; return (void *)s; }
void *memrchr(const void *p, int c, size_t n) { const uc *s = p; while (n--) if (s[n] == (uc)c) return (void *)(s + n); return 0; }
int memcmp(const void *a, const void *b, size_t n) { const uc *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { if (!nl) return (void *)h; if (hl < nl) return 0; for (size_t i = 0; i + nl <= hl; i++) if (!memcmp((const char *)h + i, n, nl)) return (void *)((const char *)h + i); return 0; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void bzero(void *d, size_t n) { memset(d, 0, n); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) memcpy(r, s, n); return r; }
char *__strdup(const char *s) { return strdup(s); }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *strerror(int e) { return (char *)"error"; }
char *basename(char *p) { if (!p || !*p) return (char *)"."; size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') p[--n] = 0; char *s = strrchr(p, '/'); if (s && s[1]) return s + 1; return p; }
char *__xpg_basename(char *p) { return basename(p); }
char *dirname(char *p) { if (!p || !*p) return (char *)"."; size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') p[--n] = 0; while (n && p[n - 1] != '/') n--; if (!n) return (char *)"."; while (n > 1 && p[n - 1] == '/') n--; p[n] = 0; return p; }
unsigned long long strtoull(const char *s, char **e, int base) {
  const char *st = s; while (isspace((uc)*s)) s++; int neg = 0; if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((uc)s[2])) { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0, ov = 0; for (;; s++) { int d; uc c = *s; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any++; if (any < 12) v = v * base + d; else if (v > (ULLONG_MAX - d) / base) ov = 1; else v = v * base + d; }
  if (e) *e = (char *)(any ? s : st); if (ov) { the_errno = ERANGE; return ULLONG_MAX; } return neg ? -v : v; }
long long strtoll(const char *s, char **e, int base) {
  const char *q = s; while (isspace((uc)*q)) q++; int neg = *q == '-'; const char *st = s; (void)st;
  const char *p = q; if (*p == '-' || *p == '+') p++; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((uc)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0, ov = 0; unsigned long long lim = neg ? (unsigned long long)LLONG_MAX + 1 : LLONG_MAX;
  for (;; p++) { int d; uc c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any++; if (any < 12) v = v * base + d; else if (!ov) { if (v > lim / base) ov = 1; else { v = v * base; if (v > lim - d) ov = 1; else v += d; } } }
  if (e) *e = (char *)(any ? p : s); if (ov) { the_errno = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; } return neg ? (long long)(0 - v) : (long long)v; }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); }
long atol(const char *s) { return strtoll(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
double difftime(long a, long b) { return (double)(a - b); }
int abs(int x) { return x < 0 ? -x : x; }
// ---- printf family
static void outc(char *b, size_t n, size_t *p, char c) { if (*p + 1 < n) b[*p] = c; (*p)++; }
static int fmt(char *b, size_t n, const char *f, va_list ap) {
  size_t p = 0;
  for (; *f; f++) {
    if (*f != '%') { outc(b, n, &p, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, width = 0, prec = -1, l = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#' || *f == ' ') ; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit((uc)*f)) width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((uc)*f)) prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l' || *f == 'j' || *f == 'z' || *f == 't') l++; else if (*f == 'h') l--; else break; }
    char tmp[32]; int tl = 0; const char *s = tmp; 
    switch (*f) {
    case 'd': case 'i': { long long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int); if (l == -1) v = (short)v; if (l <= -2) v = (signed char)v; int neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; char r[24]; int k = 0; if (!u) r[k++] = '0'; while (u) { r[k++] = '0' + (char)(u % 10); u /= 10; } if (neg) tmp[tl++] = '-'; else if (plus) tmp[tl++] = '+'; while (k) tmp[tl++] = r[--k]; break; }
    case 'u': case 'x': case 'X': case 'o': { unsigned long long u = l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (l == -1) u = (unsigned short)u; if (l <= -2) u = (uc)u; int base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; char r[24]; int k = 0; if (!u) r[k++] = '0'; while (u) { int d = (int)(u % base); u /= base; r[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; } while (k < prec && k < 23) r[k++] = '0'; while (k) tmp[tl++] = r[--k]; break; }
    case 'p': { unsigned long u = va_arg(ap, unsigned long); (void)u; s = "0x1234"; tl = 6; break; }
    case 'c': tmp[tl++] = (char)va_arg(ap, int); zero = 0; break;
    case 's': { s = va_arg(ap, const char *); zero = 0; if (!s) s = "(null)"; if (prec >= 0) tl = (int)strnlen(s, prec); else tl = (int)strlen(s); break; }
    case '%': tmp[tl++] = '%'; break;
    case 'f': case 'g': case 'e': { double d = va_arg(ap, double); (void)d; s = "0.0"; tl = 3; break; }
    default: tmp[tl++] = '%'; tmp[tl++] = *f; break;
    }
    int pad = width > tl ? width - tl : 0;
    if (!left) { int i = 0; if (zero && tl && s[0] == '-') { outc(b, n, &p, '-'); i = 1; } for (; pad > 0; pad--) outc(b, n, &p, zero ? '0' : ' '); for (; i < tl; i++) outc(b, n, &p, s[i]); }
    else { for (int i = 0; i < tl; i++) outc(b, n, &p, s[i]); for (; pad > 0; pad--) outc(b, n, &p, ' '); }
    if (!*f) break;
  }
  if (n) b[p < n ? p : n - 1] = 0;
  return (int)p;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { return fmt(b, n, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return fmt(b, (size_t)1 << 30, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = fmt(0, 0, f, c); va_end(c); *o = malloc(n + 1); if (!*o) return -1; return fmt(*o, n + 1, f, ap); }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { return 0; }
int fprintf(void *F, const char *f, ...) { return 0; }
int vfprintf(void *F, const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, void *f) { return 0; }
int fputc(int c, void *f) { return c; }
size_t fwrite(const void *p, size_t s, size_t n, void *f) { return n; }
int fflush(void *f) { return 0; }
void perror(const char *s) { }
void *stderr, *stdout, *stdin;
unsigned long pthread_self(void) { return 100 + sym_self(); }
int pthread_equal(unsigned long a, unsigned long b) { return a == b; }
