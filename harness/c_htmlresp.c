#include "req.h"
#include "util.h"
#include <onion/codecs.h>
extern void onion_response_set_length(onion_response *, size_t);
// text written through the html-safe writer of a response decodes to the original
void harness(void) {
  warm();
  char *s = TSTR(0, N, "s"); int n = strlen(s);
  onion_request *req = mkreq(); req->flags = OR_GET | OR_HTTP11;
  onion_response *res = onion_response_new(req); onion_response_set_length(res, 6 * TMAX + 1000); onion_response_write_headers(res); onion_response_flush(res);
  size_t h = out_len; ssize_t wr = onion_response_write_html_safe(res, s); onion_response_flush(res); CHECK(wr == (ssize_t)(out_len - h), "html writer: another number of bytes returned");
  char *q = out_buf + h; char *end = out_buf + out_len; int i = 0;
  while (q < end) { char c; size_t k = end - q;
    if (*q == '&') { if (k >= 4 && !memcmp(q, "&lt;", 4)) { c = '<'; q += 4; } else if (k >= 4 && !memcmp(q, "&gt;", 4)) { c = '>'; q += 4; } else if (k >= 5 && !memcmp(q, "&amp;", 5)) { c = '&'; q += 5; } else if (k >= 6 && !memcmp(q, "&quot;", 6)) { c = '"'; q += 6; } else if (k >= 5 && !memcmp(q, "&#39;", 5)) { c = '\''; q += 5; } else { CHECK(0, "html writer: bare '&' sent"); return; } }
    else { c = *q++; CHECK(c != '<' && c != '>' && c != '"' && c != '\'', "html writer: special character sent unquoted"); }
    CHECK(i < n && s[i] == c, "html writer: text sent does not decode to the original"); i++; }
  CHECK(i == n, "html writer: text lost"); sym_reach("done");
  onion_response_free(res); onion_request_free(req); free(s); CHECK(sym_heap_live() == base_live, "html writer: memory leaked");
}
