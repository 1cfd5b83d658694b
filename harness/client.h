// A reference HTTP client: reads one response from the recorded bytes.
#ifndef CLIENT_H
#define CLIENT_H
typedef struct { int ok; const char *why; size_t head; int lines; int chunked, has_len, close, keep, upgrade; unsigned long len; char *body; size_t blen; size_t used; } answer;
static char cl_body[OUTMAX];
static int ci_pre(const char *a, size_t n, const char *b) { size_t i = 0; for (; b[i]; i++) { if (i >= n) return 0; char x = a[i], y = b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; } return 1; }
// o[0..n): the bytes of one response; head_only: answer to a HEAD request
static answer client(const char *o, size_t n, int head_only) {
  answer a; memset(&a, 0, sizeof a); a.body = cl_body; size_t i = 0; int first = 1;
  for (;;) { size_t j = i; while (j < n && o[j] != '\n') j++; if (j >= n) { a.why = "the head does not end"; return a; } if (j == i || o[j - 1] != '\r') { a.why = "a head line does not end in CR LF"; return a; }
    size_t l = j - 1 - i; const char *s = o + i; i = j + 1; if (l == 0) { if (first) { a.why = "no status line"; return a; } break; }
    if (first) { if (l < 12 || !ci_pre(s, l, "HTTP/1.")) { a.why = "bad status line"; return a; } first = 0; continue; }
    a.lines++; if (s[0] == ' ' || s[0] == '\t') { a.why = "continuation line in the head"; return a; }
    if (ci_pre(s, l, "transfer-encoding: chunked") && l == 26) a.chunked++;
    else if (ci_pre(s, l, "content-length: ")) { a.has_len++; a.len = 0; if (l == 16) { a.why = "empty length"; return a; } for (size_t k = 16; k < l; k++) { if (s[k] < '0' || s[k] > '9') { a.why = "bad length"; return a; } a.len = a.len * 10 + (s[k] - '0'); } }
    else if (ci_pre(s, l, "connection: close") && l == 17) a.close++; else if (ci_pre(s, l, "connection: keep-alive") && l == 22) a.keep++; else if (ci_pre(s, l, "connection: upgrade") && l == 19) a.upgrade++; }
  a.head = i;
  if (a.chunked > 1 || a.has_len > 1 || (a.chunked && a.has_len)) { a.why = "ambiguous framing"; return a; }
  if (head_only) { a.used = i; a.ok = 1; return a; }
  if (a.chunked) { for (;;) { unsigned long c = 0; int d = 0; while (i < n && o[i] != '\r') { char x = o[i++]; int v = x >= '0' && x <= '9' ? x - '0' : x >= 'A' && x <= 'F' ? x - 'A' + 10 : x >= 'a' && x <= 'f' ? x - 'a' + 10 : -1; if (v < 0) { a.why = "bad chunk size"; return a; } c = c * 16 + v; d++; }
      if (!d || i + 2 > n || o[i] != '\r' || o[i + 1] != '\n') { a.why = "bad chunk header"; return a; } i += 2;
      if (i + c + 2 > n) { a.why = "chunk cut short"; return a; } memcpy(cl_body + a.blen, o + i, c); a.blen += c; i += c; if (o[i] != '\r' || o[i + 1] != '\n') { a.why = "chunk without end"; return a; } i += 2; if (!c) break; } }
  else if (a.has_len) { if (i + a.len > n) { a.why = "fewer bytes than announced"; return a; } memcpy(cl_body, o + i, a.len); a.blen = a.len; i += a.len; }
  else { memcpy(cl_body, o + i, n - i); a.blen = n - i; i = n; }
  a.used = i; a.ok = 1; return a; }
#endif
