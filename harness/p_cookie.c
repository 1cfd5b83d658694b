// cookies against a reference splitter
#include "req.h"
#include "util.h"
static const char *gk[N + 2], *gv[N + 2]; static int gn; static void coll(void *d, const char *k, const void *v, int f) { CHECK(gn < N + 2, "cookies: too many"); if (gn < N + 2) { gk[gn] = k; gv[gn++] = v; } }
static int seqn(const char *a, const char *b, int n) { return strlen(a) == n && eqn(a, b, n); }
void harness(void) {
  int n = sym_pick(0, N, "len"); char q[N + 1]; if (n) sym_make(q, n, "cookies"); q[n] = 0; for (int i = 0; i < n; i++) {
#ifdef ALPHA
    int ok = 0; for (int k = 0; k < sizeof(ALPHA) - 1; k++) ok |= q[i] == (ALPHA)[k]; sym_assume(ok);
#else
    sym_assume((q[i] != 0) & (q[i] != '\r') & (q[i] != '\n') & (q[i] != '\t'));
#endif
  }
  onion_request *r = mkreq(); char st[64 + N]; strcpy(st, "GET / HTTP/1.1\r\nCookie: "); int l = strlen(st); memcpy(st + l, q, n); l += n; strcpy(st + l, "\r\n\r\n"); l += 4;
  char *b = heapcopy(st, l); int v = onion_request_write(r, b, l); free(b); CHECK(v == OCS_REQUEST_READY, "cookies: well-formed request not accepted");
  onion_dict *d = onion_request_get_cookies_dict(r); CHECK(d != NULL, "cookies: no dictionary"); if (!d) return; onion_dict_preorder(d, coll, NULL);
  CHECK(onion_request_get_cookies_dict(r) == d, "cookies: asked twice gives another dictionary");
  int e = 0, i = 0; char used[N + 2]; memset(used, 0, sizeof used);
  while (i <= n) { int j = i; while (j < n && q[j] != ';') j++; while (i < j && q[i] == ' ') i++; int k = i; while (k < j && q[k] != '=') k++;
    if (k < j && k > i) { e++; int hit = -1; for (int m = 0; m < gn; m++) if (!used[m] && hit < 0 && seqn(gk[m], q + i, k - i) && seqn(gv[m], q + k + 1, j - k - 1)) hit = m; CHECK(hit >= 0, "cookies: one that was sent is missing or changed"); if (hit >= 0) used[hit] = 1;
      char *nm = dupn(q + i, k - i); const char *g = onion_request_get_cookie(r, nm); int any = 0; for (int m = 0; m < gn; m++) any |= g == gv[m] && seqn(gk[m], q + i, k - i); CHECK(any, "cookies: lookup by name fails"); free(nm); }
    i = j + 1; }
  CHECK(gn == e, "cookies: lost or invented"); sym_reach("done"); if (e > 1) sym_reach("several");
  CHECK(onion_request_get_cookie(r, "nosuchcookie") == NULL, "cookies: one that was not sent");
  onion_request_free(r); CHECK(sym_heap_live() == 0, "cookies: memory leaked");
}
