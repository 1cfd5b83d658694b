// a server with one in-memory connection
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <onion/types.h>
#include <onion/types_internal.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/low.h>
#include <onion/codecs.h>
extern onion_connection_status onion_request_write(onion_request *req, const char *data, size_t size);
static char out[1 << 20]; static size_t outn; static size_t part; // part: most bytes taken by a write
static ssize_t w_(onion_request *r, const char *d, size_t n) { if (part && n > part) n = part; memcpy(out + outn, d, n); outn += n; return n; }
static ssize_t r_(onion_request *r, char *d, size_t n) { return 0; }
static void c_(onion_request *r) {}
static int i_(onion_request *r) { return 0; }
static onion *S; static onion_listen_point lp;
static onion_request *mk(void) {
  if (!S) { S = onion_new(O_ONE); setenv("ONION_LOG", "noinfo nodebug", 1); }
  lp.server = S; lp.request_init = i_; lp.write = w_; lp.read = r_; lp.close = c_; return onion_request_new(&lp); }
static int feed(onion_request *r, const char *s, size_t n) { return onion_request_write(r, s, n); }
#define FAIL(m) do { fprintf(stderr, "demo: %s\n", m); return 1; } while (0)
