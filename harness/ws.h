// an upgraded connection, made by the library itself; SHA1 is replaced by a recording stand-in
#ifndef WS_H
#define WS_H
#include <onion/websocket.h>
static int rnd; void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; } void vf_onion_random_generate(void *d, size_t n) { memset(d, 7, n); }
static char sha_in[256]; static size_t sha_len; static int sha_calls; static unsigned char sha_out[20];
int vf_gnutls_hash_fast(int alg, const void *d, size_t n, void *out) { sha_calls++; sha_len = n; if (n <= sizeof sha_in) memcpy(sha_in, d, n); memcpy(out, sha_out, 20); return 0; }
static onion_request *wreq; static onion_response *wres;
static onion_websocket *mkws(void) { warm(); wreq = mkreq(); wreq->flags |= OR_GET | OR_HTTP11; wreq->fullpath = onion_low_strdup("/"); wreq->path = wreq->fullpath; wreq->GET = onion_dict_new();
  onion_dict_add(wreq->headers, "Upgrade", "websocket", 0); onion_dict_add(wreq->headers, "Connection", "Upgrade", 0); onion_dict_add(wreq->headers, "Sec-Websocket-Version", "13", 0); onion_dict_add(wreq->headers, "Sec-Websocket-Key", "dGhlIHNhbXBsZQ==", 0);
  wres = onion_response_new(wreq); onion_websocket *ws = onion_websocket_new(wreq, wres); CHECK(ws != NULL, "websocket: not created for a valid request"); return ws; }
static void endws(void) { onion_response_free(wres); onion_request_free(wreq); CHECK(rnd == 0, "websocket: random generator not released"); CHECK(sym_heap_live() == base_live, "websocket: memory leaked"); }
#endif
