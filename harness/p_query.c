// query strings and urlencoded forms against a reference splitter and decoder
#include "req.h"
#include "util.h"
static int seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); if (strlen(b) != n) return 0; return eqn(a, b, n); }
static char *dec(const char *s, int n) { char *r = malloc(n + 1); int o = 0; for (int i = 0; i < n; i++) { if (s[i] == '%') { if (i + 2 < n && (HEXD(s[i + 1]) & HEXD(s[i + 2]))) { int x = hexv(s[i + 1]) * 16 + hexv(s[i + 2]); sym_assume(x != 0); r[o++] = x; i += 2; } else sym_stop(); } else r[o++] = s[i] == '+' ? ' ' : s[i]; } r[o] = 0; return r; }
static const char *gk[N + 2], *gv[N + 2]; static int gn; static void coll(void *d, const char *k, const void *v, int f) { CHECK(gn < N + 2, "query: too many pairs"); if (gn < N + 2) { gk[gn] = k; gv[gn++] = v; } }
void harness(void) {
  int n = sym_pick(0, N, "len"); char q[N + 1]; if (n) sym_make(q, n, "query"); q[n] = 0; for (int i = 0; i < n; i++) {
#ifdef ALPHA
    int ok = 0; for (int k = 0; k < sizeof(ALPHA) - 1; k++) ok |= q[i] == (ALPHA)[k]; sym_assume(ok);
#else
    sym_assume(INR(q[i], 33, 255));
#endif
  }
  // '%' must start a valid escape (malformed escapes have no meaning to compare with; P01 and P08 cover their safety)
  onion_request *r = mkreq(); char st[160]; int l;
#ifdef FORM
  strcpy(st, "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: "); l = strlen(st); st[l++] = '0' + n / 10; st[l++] = '0' + n % 10; st[l++] = '\r'; st[l++] = '\n'; st[l++] = '\r'; st[l++] = '\n'; memcpy(st + l, q, n); l += n;
#else
  strcpy(st, "GET /p?"); l = 7; memcpy(st + l, q, n); l += n; strcpy(st + l, " HTTP/1.1\r\n\r\n"); l += 13;
#endif
  char *b = heapcopy(st, l); int v = onion_request_write(r, b, l); free(b); CHECK(v == OCS_REQUEST_READY, "query: well-formed request not accepted");
#ifdef FORM
  onion_dict *d = r->POST; if (!n) { CHECK(!d || onion_dict_count(d) == 0, "query: pairs without data"); goto out; }
#else
  onion_dict *d = r->GET; CHECK(seq(r->fullpath, "/p"), "query: path changed by the query");
#endif
  CHECK(d != NULL, "query: no dictionary"); if (!d) return; onion_dict_preorder(d, coll, NULL);
  int e = 0, i = 0; char used[N + 2]; memset(used, 0, sizeof used);
  while (i <= n) { int j = i; while (j < n && q[j] != '&') j++; int k = i; while (k < j && q[k] != '=') k++;
    if (j > i) { char *key = dec(q + i, k - i), *val = k < j ? dec(q + k + 1, j - k - 1) : dec("", 0); e++; int hit = -1; for (int m = 0; m < gn; m++) if (!used[m] && hit < 0 && seq(gk[m], key) && seq(gv[m], val)) hit = m; CHECK(hit >= 0, "query: a pair that was sent is missing or changed"); if (hit >= 0) used[hit] = 1; free(key); free(val); }
    i = j + 1; }
  CHECK(gn == e, "query: pairs lost or invented"); sym_reach("done"); if (e > 1) sym_reach("several");
 out:
  onion_request_free(r); CHECK(sym_heap_live() == 0, "query: memory leaked");
}
