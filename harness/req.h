// Shared scaffolding: a server with one listen point whose connection is an in-memory recorder.
#ifndef REQ_H
#define REQ_H
#include "sym.h"
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <onion/types.h>
#include <onion/types_internal.h>
#include <onion/onion.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/low.h>
#ifndef OUTMAX
#define OUTMAX 8192
#endif
extern onion_connection_status onion_request_write(onion_request *req, const char *data, size_t size);
extern void onion_request_polish(onion_request *req);
extern onion_connection_status onion_request_process(onion_request *req);
static onion the_server; static onion_listen_point the_lp;
static char out_buf[OUTMAX]; static size_t out_len; static int out_closed;
static ssize_t rec_write(onion_request *r, const char *d, size_t n) { if (out_len + n > OUTMAX) sym_stop(); memcpy(out_buf + out_len, d, n); out_len += n; return n; }
static ssize_t rec_read(onion_request *r, char *d, size_t n) { return 0; }
static void rec_close(onion_request *r) { out_closed++; }
static int rec_init(onion_request *r) { return 0; }
static onion_request *mkreq(void) {
  the_server.max_post_size = 1024 * 1024; the_server.max_file_size = 1024 * 1024 * 1024; the_server.timeout = 5000;
  the_lp.server = &the_server; the_lp.request_init = rec_init; the_lp.write = rec_write; the_lp.read = rec_read; the_lp.close = rec_close;
  return onion_request_new(&the_lp);
}
// the date header text of the last response is kept by the library: make it now and count memory from there
static long base_live;
static void warm(void) { onion_request *r = mkreq(); onion_response *res = onion_response_new(r); onion_dict_free(res->headers); onion_low_free(res); onion_request_free(r); base_live = sym_heap_live(); }
// exact-size copy on the heap so that any over-read is seen
static char *heapcopy(const char *s, size_t n) { char *p = (char *)malloc(n ? n : 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
#endif
