BUGS = []
def bug(id, p, edits, needs, breaks, demo=None, **k):
    d = dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **k)
    if demo is not None: d["demo"] = demo
    BUGS.append(d)
O = "src/onion/"
H = '#include "demo.h"\n'
bug("split-newline", "P02", [(O+"request_parser.c", """    res = OCS_INTERNAL_ERROR;
  }

  return res;
}

static char token_peek_next_char""", """    res = OCS_INTERNAL_ERROR;
  } else
    token->pos = 0;

  return res;
}

static char token_peek_next_char"""), (O+"request_parser.c", "  int res = OCS_NEED_MORE_DATA;\n  if (token->pos == 2) {", "  int res = OCS_NEED_MORE_DATA;\n  if (token->pos >= 2) {")] if False else [(O+"request_parser.c", """  while (token->pos < 2 && (data->size - data->pos) > 0) {
    token->str[token->pos++] = data->data[data->pos++];
    if (token->pos == 1 && token->str[0] == '\\n') {
      token->pos = 0;
      return NEW_LINE;
    }
  }
  //ONION_DEBUG("pos %d, %d %d (%c %c)",token->pos, token->str[0], token->str[1], token->str[0], token->str[1]);
  int res = OCS_NEED_MORE_DATA;""", """  token->pos = 0;
  while (token->pos < 2 && (data->size - data->pos) > 0) {
    token->str[token->pos++] = data->data[data->pos++];
    if (token->pos == 1 && token->str[0] == '\\n') {
      token->pos = 0;
      return NEW_LINE;
    }
  }
  //ONION_DEBUG("pos %d, %d %d (%c %c)",token->pos, token->str[0], token->str[1], token->str[0], token->str[1]);
  int res = OCS_NEED_MORE_DATA;""")],
 "a packet that ends in the middle of the line ending of the request line", "the pending half of the line ending is forgotten: bytes after a CR are accepted or refused depending on the packets",
 H + r'''
int main(void) { const char *q = "GET / HTTP/1.1 \rX\nA: b\r\n\r\n"; int n = strlen(q); onion_request *a = mk(); int va = feed(a, q, n), v = OCS_NEED_MORE_DATA;
  onion_request *b = mk(); for (int i = 0; i < n && v == OCS_NEED_MORE_DATA; i++) v = feed(b, q + i, 1); if (v != va) FAIL("another verdict when the request comes byte by byte"); return 0; }
''')
bug("query-decode-early", "P04", [(O+"request_parser.c", """      if (*p == '=') {
        *p = '\\0';
        value = p + 1;
        state = 1;""", """      if (*p == '=') {
        *p = '\\0';
        value = p + 1;
        while (*value == '=')
          value++;
        state = 1;""")],
 "a value that begins with '='", "leading '=' signs of a value are dropped",
 H + r'''
int main(void) { const char *q = "GET /?a==b HTTP/1.1\r\n\r\n"; onion_request *r = mk(); if (feed(r, q, strlen(q)) != OCS_REQUEST_READY) FAIL("not accepted"); const char *v = onion_request_get_query(r, "a"); if (!v || strcmp(v, "=b")) FAIL("another value"); return 0; }
''')
bug("partial-write-offset", "P17", [(O+"response.c", """    pos += w;
    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);""", """    pos = w;
    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);""")],
 "a connection that accepts the buffer in three or more pieces", "after the second partial write the wrong bytes are sent",
 H + r'''
int main(void) { part = 7; onion_request *r = mk(); const char *q = "GET / HTTP/1.1\r\n\r\n"; feed(r, q, strlen(q)); onion_response *res = onion_response_new(r); const char *t = "abcdefghijklmnopqrstuvwxyz0123456789"; onion_response_write0(res, t); onion_response_free(res); out[outn] = 0; if (!strstr(out, "\r\n\r\nabcdefghijklmnopqrstuvwxyz0123456789")) FAIL("another body"); return 0; }
''')
bug("keepalive-short-body", "P18", [(O+"response.c", "        && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes", "        && (res->flags & OR_SKIP_CONTENT || res->flags & OR_LENGTH_SET")],
 "a handler that announces a length and writes fewer bytes", "the connection is kept although the client still waits for the rest of the body",
 H + r'''
int main(void) { onion_request *r = mk(); const char *q = "GET / HTTP/1.1\r\n\r\n"; feed(r, q, strlen(q)); onion_response *res = onion_response_new(r); onion_response_set_length(res, 10); onion_response_write(res, "abc", 3); onion_response_write(res, "", 0); if (onion_response_free(res) == OCS_KEEP_ALIVE) FAIL("kept open"); return 0; }
''')
bug("dict-remove-repeated", "P13", [(O+"dict.c", """      while (t->right)
        t = t->right;

      memcpy""", """      while (t->right && d->cmp(t->data.key, t->right->data.key) != 0)
        t = t->right;

      memcpy""")],
 "a key added several times just before the removed key in the tree", "the wrong one of the repeated pairs is moved: one is lost and its memory freed wrongly",
 H + """
int main(void) { unsigned s = 1; for (int round = 0; round < 3000; round++) { onion_dict *d = onion_dict_new(); int in[6] = {0}, cnt = 0; char k[8];
  for (int i = 0; i < 40; i++) { s = s * 1103515245 + 12345; int x = (s >> 16) % 6; sprintf(k, "%02d", x); if ((s >> 8) & 1) { onion_dict_add(d, k, "v", OD_DUP_KEY); in[x]++; } else if (in[x]) { onion_dict_remove(d, k); in[x]--; }
    for (int q = 0; q < 6; q++) { sprintf(k, "%02d", q); if (!onion_dict_get(d, k) != !in[q]) FAIL("pairs mixed up"); } } onion_dict_free(d); } return 0; }
""", sources=["src/onion/dict.c", "src/onion/codecs.c", "src/onion/block.c", "src/onion/low.c", "src/onion/log.c"])
bug("hard-dup-shares", "P14", [(O+"dict.c", """  if (flags & OD_DICT)
    onion_dict_add(dict, key, value, OD_DUP_ALL | OD_DICT);""", """  if (flags & OD_DICT)
    onion_dict_add(dict, key, onion_dict_dup((onion_dict *) value), OD_DUP_KEY | OD_FREE_VALUE | OD_DICT);""")],
 "changing a nested dictionary after a hard copy", "the copy shares the nested dictionaries",
 H + r'''
int main(void) { onion_dict *a = onion_dict_new(), *n = onion_dict_new(); onion_dict_add(n, "x", "1", 0); onion_dict_add(a, "n", n, OD_DICT | OD_FREE_VALUE); onion_dict *c = onion_dict_hard_dup(a); onion_dict_add(n, "x", "2", OD_REPLACE); const char *v = onion_dict_rget(c, "n", "x", NULL); if (!v || strcmp(v, "1")) FAIL("the copy changed"); return 0; }
''')
bug("block-exact-fit", "P15", [(O+"block.c", """    int grow = l;
    if (grow < ONION_BLOCK_GROW_MIN_BLOCK)
      grow = ONION_BLOCK_GROW_MIN_BLOCK;
    bl->maxsize = bl->size + grow;""", """    size_t grow = bl->size / 2;
    if (grow < ONION_BLOCK_GROW_MIN_BLOCK)
      grow = ONION_BLOCK_GROW_MIN_BLOCK;
    while (bl->size + l > bl->maxsize + 1)
      bl->maxsize += grow;""")],
 "appending a piece that ends exactly one byte past the reserved space", "one byte is written past the block",
 H + r'''
int main(void) { for (int a = 1; a < 60; a++) for (int b = 1; b < 60; b++) { onion_block *bl = onion_block_new(); char t[64]; memset(t, 'x', 64); onion_block_add_data(bl, t, a); onion_block_add_data(bl, t, b); if (onion_block_size(bl) != a + b) FAIL("size"); onion_block_free(bl); } return 0; }
''', sources=["src/onion/block.c", "src/onion/low.c", "src/onion/log.c"])

bug("clean-keeps-cookies", "P43", [(O+"request.c", """    req->connection.cli_info = NULL;
  }
  if (req->cookies) {
    onion_dict_free(req->cookies);
    req->cookies = NULL;
  }
""", """    req->connection.cli_info = NULL;
  }
  if (req->cookies && onion_dict_count(req->cookies) == 0) {    // Nothing to keep
    onion_dict_free(req->cookies);
    req->cookies = NULL;
  }
""")],
 "a second request without cookies on a connection whose first request had its cookies read", "the second request sees the cookies of the first",
 H + r"""
int main(void) { onion_request *r = mk(); const char *a = "GET / HTTP/1.1\r\nCookie: c=1\r\n\r\n", *b = "GET / HTTP/1.1\r\n\r\n"; if (feed(r, a, strlen(a)) != OCS_REQUEST_READY) FAIL("not accepted"); const char *c = onion_request_get_cookie(r, "c"); if (!c || strcmp(c, "1")) FAIL("no cookie"); onion_request_clean(r);
  if (feed(r, b, strlen(b)) != OCS_REQUEST_READY) FAIL("not accepted"); if (onion_dict_count(onion_request_get_cookies_dict(r)) != 0) FAIL("a cookie of another request"); onion_request_free(r); return 0; }
""")
bug("mime-first-dot", "P33", [(O+"mime.c", """  for (i = l; i--;) {
    if (extension[i] == '.') {""", """  for (i = 0; i < l; i++) {
    if (extension[i] == '.') {""")],
 "a file name with more than one dot", "the extension is taken from the first dot and the default type is given",
 H + r"""
#include <onion/mime.h>
int main(void) { onion_dict *d = onion_dict_new(); onion_dict_add(d, "png", "image/png", 0); onion_mime_set(d); if (strcmp(onion_mime_get("a.png"), "image/png")) FAIL("another type"); if (strcmp(onion_mime_get("a.min.png"), "image/png")) FAIL("another type for a name with two dots"); return 0; }
""")
bug("etag-prefix", "P30", [(O+"shortcuts.c", "  if (prev_etag && (strcmp(prev_etag, etag) == 0)) {", "  if (prev_etag && (strncmp(prev_etag, etag, strlen(prev_etag)) == 0)) {")],
 "a range request that presents the mark of the whole file", "the client is told that nothing changed although it never had that range",
 H + r"""
#include <onion/shortcuts.h>
#include <sys/stat.h>
#include <fcntl.h>
static char etag[128]; static int ask(const char *head) { char q[512]; sprintf(q, "GET / HTTP/1.1\r\n%s\r\n", head); onion_request *r = mk(); feed(r, q, strlen(q)); onion_response *res = onion_response_new(r); outn = 0; onion_shortcut_response_file("file.bin", r, res); onion_response_free(res); out[outn] = 0; char *e = strstr(out, "Etag: "); etag[0] = 0; if (e) sscanf(e + 6, "%127[^\r]", etag); int code = atoi(out + 9); onion_request_free(r); return code; }
int main(void) { int fd = open("file.bin", O_CREAT | O_WRONLY | O_TRUNC, 0600); write(fd, "0123456789", 10); close(fd); setenv("ONION_SENDFILE", "0", 1); if (ask("") != 200 || !etag[0]) FAIL("no file"); char whole[128], h[400]; strcpy(whole, etag); sprintf(h, "If-None-Match: %s\r\n", whole); if (ask(h) != 304) FAIL("sent again"); sprintf(h, "Range: bytes=2-4\r\nIf-None-Match: %s\r\n", whole); if (ask(h) != 206) FAIL("the part of the file is not sent"); return 0; }
""")
bug("printf-last-char", "P17", [(O+"response.c", "    vsnprintf(buf, l + 1, fmt, args);", "    vsnprintf(buf, l, fmt, args);")],
 "formatted text longer than the internal buffer of the formatter", "the last character is sent as NUL",
 H + r"""
int main(void) { char t[3000]; memset(t, 'x', sizeof t); t[2998] = 'y'; t[2999] = 0; onion_request *r = mk(); const char *q = "GET / HTTP/1.1\r\n\r\n"; feed(r, q, strlen(q)); onion_response *res = onion_response_new(r); onion_response_printf(res, "%s", t); onion_response_free(res); int n = 0; for (size_t i = 0; i < outn; i++) n += out[i] == 'y'; char *e = memmem(out, outn, "xxy", 3); if (!e) FAIL("the last character is lost"); return 0; }
""")
bug("dict-free-unlocked", "P36", [(O+"dict.c", """  int remove = (dict->refcount == 0);
#ifdef HAVE_PTHREADS
  pthread_mutex_unlock(&dict->refmutex);
#endif
  if (remove) {""", """#ifdef HAVE_PTHREADS
  pthread_mutex_unlock(&dict->refmutex);
#endif
  int remove = (dict->refcount == 0);
  if (remove) {""")],
 "two threads that give back their references at the same time", "both threads see the count at zero, and the dictionary is freed twice",
 H + r"""
#include <pthread.h>
#include <dlfcn.h>
static __thread int slow; int pthread_mutex_unlock(pthread_mutex_t *m) { static int (*real)(pthread_mutex_t *); if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = real(m); if (slow) usleep(50000); return r; }
static void *th(void *p) { slow = 1; onion_dict_free(p); return NULL; }
int main(void) { for (int i = 0; i < 20; i++) { onion_dict *d = onion_dict_new(); onion_dict_add(d, "a", "b", OD_DUP_ALL); onion_dict_dup(d); pthread_t a, b; pthread_create(&a, NULL, th, d); pthread_create(&b, NULL, th, d); pthread_join(a, NULL); pthread_join(b, NULL); } return 0; }
""", sources=["src/onion/dict.c", "src/onion/codecs.c", "src/onion/block.c", "src/onion/low.c", "src/onion/log.c"])
bug("url-regex-advance", "P27", [(O+"url.c", "      onion_request_advance_path(request, match[0].rm_eo);", "      onion_request_advance_path(request, match[0].rm_eo - match[0].rm_so);")],
 "a regular expression with an alternative that matches in the middle of the path", "the inner handler gets a path that still has a piece of what was matched",
 H + r"""
#include <onion/url.h>
static char got[64]; static int h(void *p, onion_request *r, onion_response *res) { strncpy(got, onion_request_get_path(r), 63); return OCS_PROCESSED; }
int main(void) { mk(); onion_url *u = onion_root_url(S); onion_url_add(u, "^none/|[0-9]+/", (void *)h); const char *q = "GET /item12/rest HTTP/1.1\r\n\r\n"; onion_request *r = mk(); if (feed(r, q, strlen(q)) != OCS_REQUEST_READY) FAIL("not accepted"); onion_request_process(r); if (strcmp(got, "rest")) FAIL("another path"); return 0; }
""")
bug("ws-key-fixed-buffer", "P25", [(O+"websocket.c", """  int length = strlen(ws_key);
  char *tmp = alloca(length + websocket_magic_13_length + 1);
  strcpy(tmp, ws_key);
  strcat(tmp, websocket_magic_13);
  tmp[length + websocket_magic_13_length] = 0;
""", """  char tmp[64];
  int length =
      snprintf(tmp, sizeof(tmp), "%.*s%s",
               (int)sizeof(tmp) - websocket_magic_13_length - 1, ws_key,
               websocket_magic_13) - websocket_magic_13_length;
""")],
 "a client key longer than the usual 24 characters", "the answer to the handshake is computed from a part of the key",
 H + r"""
#include <onion/websocket.h>
int main(void) { const char *key = "abcdefghijklmnopqrstuvwxyz0123456789abcd"; char q[512]; sprintf(q, "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: %s\r\n\r\n", key); onion_request *r = mk(); if (feed(r, q, strlen(q)) != OCS_REQUEST_READY) FAIL("not accepted"); onion_response *res = onion_response_new(r); onion_websocket *ws = onion_websocket_new(r, res); if (!ws) FAIL("no websocket"); out[outn] = 0;
  char t[256], sha[20]; sprintf(t, "%s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key); onion_sha1(t, strlen(t), sha); char *b = onion_base64_encode(sha, 20); char *n = strchr(b, '\n'); if (n) *n = 0; if (!strstr(out, b)) FAIL("another answer"); return 0; }
""")
bug("poller-rearm-limit", "P32", [(O+"poller.c", """          el->timeout_limit = onion_time() + el->timeout;
          onion_poller_timer_check(p, el->timeout_limit);
""", """          el->timeout_limit = onion_time() + el->timeout;
""")],
 "two polling threads, and the timer that fires while the callback of the slot runs in the other one", "the timer is set for much later and the slot never expires",
 H + r"""
#include <onion/poller.h>
#include <pthread.h>
#include <sys/socket.h>
static int sv[2]; static volatile int closed, calls; static int ready(void *p) { char c; int n = recv(sv[0], &c, 1, MSG_DONTWAIT); if (n == 0) return -1; calls++; usleep(2200000); return 1; } static void gone(void *p) { closed = 1; } static void *th(void *p) { onion_poller_poll(p); return NULL; }
int main(void) { mk(); socketpair(AF_UNIX, SOCK_STREAM, 0, sv); onion_poller *p = onion_poller_new(10); onion_poller_slot *s = onion_poller_slot_new(sv[0], (void *)ready, NULL); onion_poller_slot_set_timeout(s, 1000); onion_poller_slot_set_shutdown(s, (void *)gone, NULL); onion_poller_add(p, s); pthread_t a, b; pthread_create(&a, NULL, th, p); pthread_create(&b, NULL, th, p); write(sv[1], "x", 1); for (int i = 0; i < 80 && !closed; i++) usleep(100000); if (calls != 1) FAIL("not called"); if (!closed) FAIL("it never expires"); return 0; }
""")
bug("ws-mask-fragments", "P24", [(O+"websocket.c", "    ws->mask_pos = 0;\n  }\n", "    if (ws->opcode != 0)        // a new message\n      ws->mask_pos = 0;\n  }\n")],
 "a message in several frames, the first one of a length that is not a multiple of four", "the mask of a continuation frame is applied from the wrong position, so its payload is altered",
 H + r"""
#include <onion/websocket.h>
static unsigned char in[64]; static int inn, inp; static ssize_t rd(onion_request *r, char *d, size_t n) { if ((int)n > inn - inp) n = inn - inp; memcpy(d, in + inp, n); inp += n; return n; }
static void frame(int op, const char *t) { int n = strlen(t); static unsigned char m[4] = { 1, 2, 3, 4 }; in[inn++] = op; in[inn++] = 0x80 | n; memcpy(in + inn, m, 4); inn += 4; for (int i = 0; i < n; i++) in[inn++] = t[i] ^ m[i & 3]; }
int main(void) { const char *q = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: AAAA\r\n\r\n"; onion_request *r = mk(); if (feed(r, q, strlen(q)) != OCS_REQUEST_READY) FAIL("not accepted"); onion_response *res = onion_response_new(r); onion_websocket *ws = onion_websocket_new(r, res); if (!ws) FAIL("no websocket");
  lp.read = rd; frame(1, "abcde"); frame(0x80, "fghij"); char b[11] = { 0 }; int n = 0; while (n < 10) { int k = onion_websocket_read(ws, b + n, 10 - n); if (k <= 0) break; n += k; } if (n != 10 || memcmp(b, "abcdefghij", 10)) FAIL("another message"); return 0; }
""")
DAV = '#!/bin/bash\n# builds the demonstration with the WebDAV handler of the tree in the current directory and runs it in a scratch folder\nD=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ngcc -w -g -D_GNU_SOURCE -DHAVE_PTHREADS -I"$R/src" -I"$R/_build/src" -I"$D" $(pkg-config --cflags libxml-2.0 2>/dev/null || echo -I/usr/include/libxml2) "$D/demo.c" "$R/src/onion/handlers/webdav.c" -o "$T/demo" -L"$R/_build/src/onion" -lonion -lxml2 -lpthread -Wl,-rpath,"$R/_build/src/onion" || exit 0\nmkdir "$T/w" && cd "$T/w" && timeout 60 "$T/demo"\n'
bug("dav-executable-owner", "P45", [(O+"handlers/webdav.c", "    if (st.st_mode & 0111)\n", "    if (st.st_mode & S_IXUSR)\n")],
 "a file that only its group or others may execute", "WebDAV reports the file as not executable",
 H + r"""
#include <onion/handlers/webdav.h>
#include <sys/stat.h>
int main(void) { FILE *f = fopen("tool", "w"); fputs("x", f); fclose(f); chmod("tool", 0654); const char *b = "<?xml version=\"1.0\"?><D:propfind xmlns:D=\"DAV:\" xmlns:a=\"http://apache.org/dav/props/\"><D:prop><a:executable/></D:prop></D:propfind>"; char q[1024]; sprintf(q, "PROPFIND /tool HTTP/1.1\r\nDepth: 0\r\nContent-Type: text/xml\r\nContent-Length: %d\r\n\r\n%s", (int)strlen(b), b);
  onion_request *r = mk(); if (feed(r, q, strlen(q)) != OCS_REQUEST_READY) FAIL("not accepted"); onion_request_polish(r); onion_response *res = onion_response_new(r); onion_handler *h = onion_handler_webdav(".", NULL); onion_handler_handle(h, r, res); onion_response_free(res); out[outn] = 0; if (!strstr(out, "207")) FAIL("no listing"); if (!strstr(out, "executable>true<")) FAIL("not executable"); return 0; }
""", sh=DAV)
CPP = '#!/bin/bash\n# builds the demonstration against the C++ library of the tree in the current directory and runs it in a scratch folder\nD=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -w -g -std=c++11 -I"$R/src" -I"$R/src/bindings/cpp" -I"$R/_build/src" -I"$D" "$D/demo.cpp" -o "$T/demo" -L"$R/_build/src/bindings/cpp" -L"$R/_build/src/onion" -lonioncpp -lonion -lpthread -Wl,-rpath,"$R/_build/src/bindings/cpp:$R/_build/src/onion" || exit 0\ncd "$T" && timeout 60 ./demo\n'
bug("cpp-has-empty", "P40", [("src/bindings/cpp/dict.cpp", "  return onion_dict_get(ptr.get(), k.c_str()) != nullptr;\n", "  const char *v = onion_dict_get(ptr.get(), k.c_str());\n  return v && *v;\n")],
 "a key whose value is the empty text", "has() is false although the key is in the dictionary", sh=CPP, files={"demo.cpp": r"""#include <dict.hpp>
#include <cstdio>
int main() { Onion::Dict d; d.add("a", ""); d.add("b", "x"); if (!d.has("b") || d.has("c")) return 2; if (!d.has("a")) { fprintf(stderr, "demo: a key is missing\n"); return 1; } return 0; }
"""})
