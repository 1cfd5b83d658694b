// answering with files: ranges, validators, short reads and sends
#include "req.h"
#include "util.h"
#include "client.h"
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <onion/shortcuts.h>
#include <onion/mime.h>
#include <unistd.h>
extern int onion_use_sendfile; extern ssize_t onion_http_write(onion_request *req, const char *data, size_t len);
static size_t fsize, now_size; static off_t fpos; static int is_open, opens, fails_stat, kind, faults; static time_t mtime_ = 1234567;
static unsigned char content(size_t i) { return (unsigned char)(i * 7 + (i >> 8) * 13 + (i >> 32) + 'A'); }
const char *vf_onion_mime_get(const char *f) { return "text/x-test"; }
int vf_open(const char *n, int fl, ...) { CHECK(!strcmp(n, "/x/f.txt"), "file: another file opened"); CHECK((fl & O_ACCMODE) == O_RDONLY, "file: opened for writing"); opens++; if (kind == 0) { errno = EACCES; return -1; } is_open = 1; fpos = 0; return 50; }
static void fillst(struct stat *st) { memset(st, 0, sizeof *st); st->st_size = fsize; st->st_mtime = mtime_; st->st_mode = kind == 2 ? S_IFDIR | 0755 : S_IFREG | 0644; }
int vf_stat(const char *n, struct stat *st) { if (fails_stat) { errno = ENOENT; return -1; } fillst(st); return 0; }
int vf_fstat(int fd, struct stat *st) { if (fails_stat) { errno = EIO; return -1; } fillst(st); return 0; }
off_t vf_lseek(int fd, off_t o, int wh) { CHECK(fd == 50 && is_open, "file: seek on a closed file"); if (wh == SEEK_SET) fpos = o; else if (wh == SEEK_CUR) fpos += o; else fpos = fsize + o; return fpos; }
static ssize_t give(char *d, size_t n) { if ((size_t)fpos >= now_size) { static int eofs; CHECK(++eofs < 50, "file: read for ever at the end of the file"); return 0; } if (n > now_size - fpos) n = now_size - fpos; for (size_t i = 0; i < n; i++) d[i] = content(fpos + i); fpos += n; return n; }
static size_t part(size_t n) { if (!faults || n < 2) return n; int k = sym_pick(0, 2, "part"); return k == 0 ? n : k == 1 ? 1 : n - 1; }
static int failed;
ssize_t vf_read(int fd, void *d, size_t n) { CHECK(fd == 50 && is_open, "file: read of a closed file"); if (faults) { faults--; int k = sym_pick(0, 2, "read"); if (k == 1) { errno = EINTR; return -1; } if (k == 2) { failed = 1; errno = EIO; return -1; } n = part(n); } return give(d, n); }
ssize_t vf_pread(int fd, void *d, size_t n, off_t o) { off_t s = fpos; fpos = o; ssize_t r = vf_read(fd, d, n); fpos = s; return r; }
static int env_; ssize_t vf_sendfile(int o, int i, off_t *of, size_t n) { CHECK(env_ != 1, "file: sendfile is used though disabled"); CHECK(SENDF, "file: content sent around the connection's own way of writing"); CHECK(o == 9 && i == 50 && is_open, "file: sendfile on other descriptors"); off_t sv = fpos; if (of) fpos = *of;
  if (faults) { faults--; int k = sym_pick(0, 2, "sendfile"); if (k == 1) { errno = EINTR; return -1; } if (k == 2) { failed = 1; errno = EPIPE; return -1; } n = part(n); }
  if (out_len + n > OUTMAX) n = OUTMAX - out_len; ssize_t r = give(out_buf + out_len, n); if (r > 0) out_len += r; if (of) { *of = fpos; fpos = sv; } return r; }
ssize_t vf_write(int fd, const void *d, size_t n) { CHECK(fd == 9, "file: write elsewhere"); return rec_write(NULL, d, n); }
int vf_close(int fd) { CHECK(fd == 50 && is_open, "file: closed twice or another file"); is_open = 0; return 0; }
char *vf_getenv(const char *n) { return env_ && !strcmp(n, "ONION_SENDFILE") ? env_ == 1 ? "0" : "1" : NULL; }
static int has_start, has_end; static size_t S, E;
// 1: bytes S..E of the file; 0: not a range; -1: no such bytes
static int ref(const char *r, size_t len) { if (!r || strncmp(r, "bytes=", 6)) return 0; r += 6; size_t a = 0, b = 0; has_start = has_end = 0;
  while (*r >= '0' && *r <= '9') { a = a * 10 + *r++ - '0'; has_start = 1; } if (*r++ != '-') return 0; while (*r >= '0' && *r <= '9') { b = b * 10 + *r++ - '0'; has_end = 1; } if (*r || !(has_start | has_end)) return 0;
  if (!has_start) { if (!b || !len) return -1; S = b < len ? len - b : 0; E = len - 1; return 1; }
  if (!has_end || b >= len) { if (has_end && a > b) return -1; b = len - 1; } if (!len || a > b || a >= len) return -1; S = a; E = b; return 1; }
static int header(const char *name, char *out, size_t max) { size_t i = 0, nl = strlen(name), c = 0; for (;;) { size_t j = i; while (j < out_len && out_buf[j] != '\r') j++; if (j == i || j >= out_len) break; if (j - i > nl + 2 && !memcmp(out_buf + i, name, nl) && out_buf[i + nl] == ':') { size_t l = j - i - nl - 2; if (l >= max) l = max - 1; memcpy(out, out_buf + i + nl + 2, l); out[l] = 0; c++; } i = j + 2; } return c; }
static onion_request *rqn(int method, const char *range, const char *inm) { onion_request *r = mkreq(); if (SENDF) { the_lp.write = onion_http_write; } r->connection.fd = 9; r->flags |= method | OR_HTTP11; r->fullpath = onion_low_strdup("/f"); r->GET = onion_dict_new(); onion_request_polish(r);
  if (range) onion_dict_add(r->headers, "Range", range, OD_DUP_ALL); if (inm) onion_dict_add(r->headers, "If-None-Match", inm, OD_DUP_ALL); out_len = 0; opens = 0; return r; }
static onion_connection_status st_, fr_;
static answer run(int method, const char *range, const char *inm) { onion_request *r = rqn(method, range, inm); onion_response *res = onion_response_new(r); st_ = onion_shortcut_response_file("/x/f.txt", r, res); answer a; memset(&a, 0, sizeof a);
  if (st_ == OCS_NOT_PROCESSED) { CHECK(out_len == 0, "file: bytes sent for a file that is not served"); onion_dict_free(res->headers); onion_low_free(res); } else { fr_ = onion_response_free(res); a = client(out_buf, out_len, method == OR_HEAD); }
  onion_request_free(r); CHECK(!is_open, "file: left open"); the_lp.write = rec_write; return a; }
static int code(void) { return (out_buf[9] - '0') * 100 + (out_buf[10] - '0') * 10 + out_buf[11] - '0'; }
static void body_is(const answer *a, size_t s, size_t n) { CHECK(a->blen == n, "file: another number of bytes than asked for"); unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= (unsigned char)a->body[i] ^ content(s + i); CHECK(d == 0, "file: other bytes than those of the file"); }
static void judge(const answer *a, const char *range, int head) { char h[128], w[128]; int c = code(), v = ref(range, fsize); CHECK(a->ok, "file: the answer can not be read"); CHECK(a->used == out_len, "file: bytes after the answer");
  int n = header("Content-Range", h, sizeof h); CHECK(n <= 1, "file: two content ranges");
  if (c == 206) { CHECK(v == 1, "file: partial content for something that is no range of the file"); CHECK(n == 1, "file: partial content without its range"); snprintf(w, sizeof w, "bytes %lu-%lu/%lu", (unsigned long)S, (unsigned long)E, (unsigned long)fsize); CHECK(!strcmp(w, h), "file: wrong content range"); CHECK(a->has_len && a->len == E - S + 1, "file: wrong length"); if (!head) body_is(a, S, E - S + 1); sym_reach("range"); }
  else if (c == 200) { CHECK(v != 1, "file: a valid range was not honoured"); CHECK(!n, "file: content range in a full answer"); CHECK(a->has_len && a->len == fsize, "file: wrong length"); if (!head) body_is(a, 0, fsize); sym_reach("full"); }
  else { CHECK(c == 416 && v != 1, "file: unexpected status"); CHECK(a->blen == 0, "file: content with an error"); sym_reach("unsatisfiable"); CHECK(n == 1, "file: an error of range without the size of the file"); { snprintf(w, sizeof w, "bytes */%lu", (unsigned long)fsize); CHECK(!strcmp(w, h), "file: wrong size in the error"); } } }
void harness(void) {
  warm(); kind = 1; onion_use_sendfile = 1; fsize = now_size = 5;
#if MODE == 1   // any range text after a prefix
  static const size_t sizes[] = SIZES; fsize = now_size = sizes[sym_pick(0, sizeof sizes / sizeof *sizes - 1, "size")];
  int n = sym_pick(0, N, "len"); char *r = malloc(sizeof PRE + n); memcpy(r, PRE, sizeof PRE - 1); char t[N + 1]; if (n) sym_make(t, n, "range"); for (int i = 0; i < n; i++) sym_assume(t[i] != 0); memcpy(r + sizeof PRE - 1, t, n); r[sizeof PRE - 1 + n] = 0;
  for (int i = 0; i < n; i++) sym_assume(t[i] != '\r' && t[i] != '\n');
#ifdef DIGITS
  for (int i = 0; i < n; i++) sym_assume(INR(t[i], '0', '9') | (t[i] == '-'));
#endif
  if (sizeof PRE > 1) for (int i = 0; i < n; i++) if (INR(t[i], '-', '9')) { char *q = r + sizeof PRE - 1 + i; *q = '-' + conc(t[i] - '-', 12); }
  int v = ref(r, fsize); if (v != 1 && fsize > OUTMAX) sym_stop(); if (v == 1 && E - S > 40) sym_stop();
  answer a = run(OR_GET, r, NULL); judge(&a, r, 0); free(r);
#elif MODE == 2   // long ranges, any method, validators, files that are not there
  int what = sym_pick(0, 5, "what");
  if (what == 0) { kind = sym_pick(0, 2, "kind"); fails_stat = sym_pick(0, 1, "stat"); if (kind == 1) fails_stat = 1; run(OR_GET, NULL, NULL); CHECK(st_ == OCS_NOT_PROCESSED, "file: a file that is not there was served"); }
  else if (what == 1) { int m = sym_pick(0, 11, "method"); answer a = run(m, NULL, NULL); judge(&a, NULL, m == OR_HEAD); if (m == OR_HEAD) CHECK(a.used == out_len, "file: content for HEAD"); else CHECK(fr_ == OCS_KEEP_ALIVE, "file: connection lost after a complete answer"); sym_reach("method"); }
  else if (what == 2) { static const int lens[] = { 30, 45, 46, 47, 48, 60, 200, 1015, 1040, 2000 }; int l = lens[sym_pick(0, 9, "len")]; char *r = malloc(l + 7); memcpy(r, "bytes=", 6); char c = "19-x, "[sym_pick(0, 5, "c")]; memset(r + 6, c, l); r[l + 6] = 0; answer a = run(OR_GET, r, NULL); judge(&a, r, 0); free(r); sym_reach("long"); }
  else if (what == 3) { char e[128]; int rg = sym_pick(0, 1, "range"); const char *r = rg ? "bytes=1-2" : NULL; answer a = run(OR_GET, r, NULL); CHECK(a.ok && header("Etag", e, sizeof e) == 1, "file: no validator"); a = run(sym_pick(0, 1, "head") ? OR_HEAD : OR_GET, r, e); CHECK(code() == 304, "file: unchanged file sent again"); CHECK(a.ok && a.used == out_len && a.blen == 0, "file: content in a not modified answer"); CHECK(fr_ == OCS_KEEP_ALIVE, "file: connection lost after not modified"); sym_reach("unchanged"); }
  else if (what == 4) { char e[128]; answer a = run(OR_GET, NULL, NULL); header("Etag", e, sizeof e); if (sym_pick(0, 1, "change")) mtime_++; else fsize = now_size = 6; a = run(OR_GET, NULL, e); judge(&a, NULL, 0); CHECK(code() == 200, "file: changed file reported as unchanged"); sym_reach("changed"); }
  else { char *e = symstr(0, 3, "etag"); for (int i = 0; e[i]; i++) sym_assume(e[i] != '\r' && e[i] != '\n'); answer a = run(OR_GET, NULL, e); judge(&a, NULL, 0); CHECK(code() == 200, "file: unknown validator taken as current"); free(e); }
#else   // long files, with short and failed reads and sends, and files that shrink or grow meanwhile
  static const size_t sizes[] = SIZES; fsize = sizes[sym_pick(0, sizeof sizes / sizeof *sizes - 1, "size")]; now_size = fsize; int ch = sym_pick(0, 2, "change"); if (ch == 1) now_size = fsize - 1; else if (ch == 2) now_size = fsize + 10; faults = FAULTS; env_ = sym_pick(0, 2, "env"); onion_use_sendfile = -1;
  const char *r = sym_pick(0, 1, "range") ? "bytes=1-" : NULL; size_t s = r ? 1 : 0; answer a = run(OR_GET, r, NULL);
  if (failed || ch == 1) { CHECK(st_ == OCS_CLOSE_CONNECTION || fr_ == OCS_CLOSE_CONNECTION || st_ == OCS_INTERNAL_ERROR, "file: connection goes on after an incomplete answer"); CHECK(!a.ok, "file: incomplete answer looks complete"); unsigned char d = 0; size_t hd = 0; while (hd + 4 <= out_len && memcmp(out_buf + hd, "\r\n\r\n", 4)) hd++; hd += 4; for (size_t i = hd; i < out_len; i++) d |= (unsigned char)out_buf[i] ^ content(s + i - hd); CHECK(d == 0 && out_len - hd < fsize, "file: other bytes than those of the file"); sym_reach("cut"); }
  else { judge(&a, r, 0); CHECK(fr_ == OCS_KEEP_ALIVE, "file: connection lost after a complete answer"); sym_reach("whole"); }
#endif
  CHECK(sym_heap_live() == base_live, "file: memory leaked"); sym_reach("done");
}
