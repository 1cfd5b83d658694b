// moving files between file systems, dates, redirects
#include "req.h"
#include "util.h"
#include "client.h"
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <onion/shortcuts.h>
static int faults, bad, o_open, d_open, o_exists = 1, d_exists, renamed, moved_errno; static size_t fsize, opos, dlen; static char dest[9000];
static unsigned char content(size_t i) { return (unsigned char)(i * 7 + (i >> 8) * 13 + 'A'); }
int vf_rename(const char *a, const char *b) { CHECK(!strcmp(a, "/t/o") && !strcmp(b, "/u/d"), "move: other names"); int k = sym_pick(0, 2, "rename"); if (k == 0) { renamed = 1; o_exists = 0; return 0; } moved_errno = errno = k == 1 ? EXDEV : EACCES; return -1; }
static int flt(int n) { if (!faults) return 0; int k = sym_pick(0, n, "fault"); if (k) faults--; return k; }
int vf_open(const char *n, int fl, ...) { int w = (fl & O_ACCMODE) != O_RDONLY; CHECK(!strcmp(n, w ? "/u/d" : "/t/o"), "move: another file opened"); if (flt(1)) { bad = 1; errno = EACCES; return -1; } if (w) { d_exists = d_open = 1; dlen = 0; return 61; } o_open = 1; opos = 0; return 60; }
ssize_t vf_read(int fd, void *d, size_t n) { CHECK(fd == 60 && o_open, "move: read elsewhere"); int k = flt(3); if (k == 1) { errno = EINTR; return -1; } if (k == 2) { bad = 1; errno = EIO; return -1; } if (k == 3 && n > 1) n = 1; if (n > fsize - opos) n = fsize - opos; for (size_t i = 0; i < n; i++) ((char *)d)[i] = content(opos + i); opos += n; return n; }
ssize_t vf_write(int fd, const void *d, size_t n) { CHECK(fd == 61 && d_open, "move: write elsewhere"); int k = flt(3); if (k == 1) { errno = EINTR; return -1; } if (k == 2) { bad = 1; errno = ENOSPC; return -1; } if (k == 3 && n > 1) n = n - 1; if (dlen + n > sizeof dest) { CHECK(0, "move: more bytes than the original"); return -1; } memcpy(dest + dlen, d, n); dlen += n; return n; }
int vf_close(int fd) { CHECK((fd == 60 && o_open) || (fd == 61 && d_open), "move: close elsewhere"); if (fd == 60) o_open = 0; else { d_open = 0; if (flt(1)) { bad = 1; errno = EIO; return -1; } } return 0; }
int vf_unlink(const char *n) { if (!strcmp(n, "/t/o")) o_exists = 0; else { CHECK(!strcmp(n, "/u/d"), "move: another file removed"); d_exists = 0; } return 0; }
int vf_fsync(int fd) { return 0; }
int vf_rnd;
#if MODE == 2
static int fmt_n; struct tm *vf_gmtime_r(const time_t *t, struct tm *tm) { memset(tm, 0, sizeof *tm); return tm; }
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *tm) { size_t l = fmt_n, w = l < n ? l : n; for (size_t i = 0; i < w; i++) b[i] = 'd'; if (l >= n) return 0; b[l] = 0; return l; }
#endif
#if MODE == 3
static int called; static char seen[16];
static onion_connection_status hh(void *h, onion_request *r, onion_response *res) { called++; const char *p = onion_request_get_path(r), *f = onion_request_get_fullpath(r); CHECK(p && f && strlen(p) < sizeof seen && !strcmp(p, f), "redirect: wrong path"); strcpy(seen, p); return OCS_PROCESSED; }
#endif
void harness(void) {
#if MODE == 1
  static const size_t sizes[] = { 0, 1, 4096, 4099 }; fsize = sizes[sym_pick(0, 3, "size")]; faults = FAULTS; int r = onion_shortcut_rename("/t/o", "/u/d");
  CHECK(!o_open && !d_open, "move: file left open");
  if (r == 0) { CHECK(!o_exists, "move: the original is still there"); CHECK(!bad, "move: an error was not reported"); if (!renamed) { CHECK(d_exists && dlen == fsize, "move: not all of the file arrived"); unsigned char d = 0; for (size_t i = 0; i < fsize && i < dlen; i++) d |= (unsigned char)dest[i] ^ content(i); CHECK(d == 0, "move: other bytes arrived"); sym_reach("copied"); } else sym_reach("renamed"); }
  else { CHECK(o_exists, "move: the original was removed though the copy failed"); CHECK(bad || moved_errno == EACCES, "move: failed without reason"); sym_reach("failed"); }
#elif MODE == 2
  time_t t; sym_make(&t, sizeof t, "time"); fmt_n = sym_pick(0, 40, "n"); int iso = sym_pick(0, 1, "iso"); size_t max = iso ? 21 : 32; char *b = malloc(max); memset(b, 'x', max); if (iso) onion_shortcut_date_string_iso(t, b); else onion_shortcut_date_string(t, b);
  size_t l = strnlen(b, max); CHECK(l < max, "date: not terminated"); if ((size_t)fmt_n < max) CHECK(l == (size_t)fmt_n, "date: lost"); free(b);
#else
  warm(); int what = sym_pick(0, 3, "what"); onion_request *r = mkreq(); r->flags |= OR_GET | OR_HTTP11; r->fullpath = onion_low_strdup("/ab/cd"); r->GET = onion_dict_new(); onion_request_polish(r); onion_response *res = onion_response_new(r); out_len = 0;
  if (what == 0) { int o = sym_pick(0, 6, "off"); const char *n = "/ab/cd" + o; onion_handler *root = onion_handler_new(hh, NULL, NULL); the_server.root_handler = root; onion_connection_status s = onion_shortcut_internal_redirect(r->fullpath + o, r, res); CHECK(s == OCS_PROCESSED && called == 1 && !strcmp(seen, n), "redirect: wrong path"); onion_response_free(res); onion_handler_free(root); sym_reach("internal"); }
  else if (what == 1) { char *u = TSTR(0, 3, "url"); size_t n = strlen(u); for (size_t i = 0; i < n; i++) sym_assume(u[i] != '\r' && u[i] != '\n'); onion_shortcut_redirect(u, r, res); onion_response_free(res); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len && a.blen > 0, "redirect: unreadable answer"); CHECK(!memcmp(out_buf + 9, "302", 3), "redirect: wrong status"); static char w[64 + TMAX]; memcpy(w, "\r\nLocation: ", 12); memcpy(w + 12, u, n); memcpy(w + 12 + n, "\r\n", 2); int f = 0; for (size_t i = 0; i + 14 + n <= a.head && !f; i++) if (!memcmp(out_buf + i, w, 12)) f = eqn(out_buf + i, w, 14 + n); CHECK(f, "redirect: wrong location"); free(u); sym_reach("redirect"); }
  else if (what == 3) { static const int codes[] = { 200, 201, 404, 418, 500 }; char *t = TSTR(0, 3, "text"); size_t n = strlen(t); int code = codes[sym_pick(0, 4, "code")], ex = sym_pick(0, 2, "extra"), head = sym_pick(0, 1, "head"); if (head) r->flags = (r->flags & ~OR_METHODS) | OR_HEAD; onion_connection_status s = ex == 0 ? onion_shortcut_response(t, code, r, res) : ex == 1 ? onion_shortcut_response_extra_headers(t, code, r, res, "X-A", "1", NULL) : onion_shortcut_response_extra_headers(t, code, r, res, "X-A", "1", "X-B", "2", NULL); CHECK(s == OCS_PROCESSED, "text answer: not processed"); onion_response_free(res);
    answer a = client(out_buf, out_len, head); CHECK(a.ok && a.used == out_len && a.has_len == 1 && a.len == n, "text answer: unreadable, or another length"); CHECK(out_buf[9] == '0' + code / 100 && out_buf[10] == '0' + code / 10 % 10 && out_buf[11] == '0' + code % 10, "text answer: another status"); if (!head) CHECK(a.blen == n && eqn(a.body, t, n), "text answer: another text");
    int xa = 0, xb = 0; for (size_t i = 0; i + 10 <= a.head; i++) { xa += !memcmp(out_buf + i, "\r\nX-A: 1\r\n", 10); xb += !memcmp(out_buf + i, "\r\nX-B: 2\r\n", 10); } CHECK(xa == (ex > 0) && xb == (ex > 1), "text answer: extra headers missing"); free(t); sym_reach("text"); }
  else { onion_dict *d = onion_dict_new(); char *v = TSTR(0, 2, "value"); onion_dict_add(d, "k", v, OD_DUP_ALL); onion_block *b = onion_dict_to_json(d); static char want[64 + 6 * TMAX]; size_t n = onion_block_size(b); CHECK(n < sizeof want, "json: too long"); memcpy(want, onion_block_data(b), n); onion_block_free(b); onion_shortcut_response_json(d, r, res); onion_response_free(res); answer a = client(out_buf, out_len, 0); CHECK(a.ok && a.used == out_len && a.has_len == 1, "json: unreadable answer"); CHECK(a.blen == n && eqn(a.body, want, n), "json: other content"); { static const char CT[] = "\r\nContent-Type: application/json"; int f = 0; for (size_t i = 0; i + sizeof CT - 1 < a.head; i++) f |= !memcmp(out_buf + i, CT, sizeof CT - 1); CHECK(f, "json: not announced as such"); } free(v); sym_reach("json"); }
  onion_request_free(r); CHECK(sym_heap_live() == base_live, "redirect: memory leaked");
#endif
  sym_reach("done");
}
