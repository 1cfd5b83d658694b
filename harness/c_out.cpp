// Onion::Response: every call reaches the C library with the same values, and the stream writes exactly its bytes
#include "cxx.h"
#include "response.hpp"
using namespace Onion;
#ifdef LONG
#define OUTB 40000
#define LMAX 10000
#else
#define OUTB 64
#define LMAX 16
#endif
static onion_response *RES = (onion_response *)0x2000; static char out[OUTB]; static int n; static int last; static std::string *A, *B; static uint64_t num; static bool np, nd; static std::string *C, *D; static time_t tm_; static int fl; static int full;
extern "C" ssize_t vf_onion_response_write(onion_response *r, const char *d, size_t l) { CHECK(r == RES && l <= LMAX && n + l < OUTB, "response: another write"); memcpy(out + n, d, l); n += l; return l; }
extern "C" void vf_onion_response_set_header(onion_response *r, const char *k, const char *v) { CHECK(r == RES, "response: another one"); last = 1; *A = k; *B = v; }
extern "C" void vf_onion_response_set_length(onion_response *r, size_t l) { CHECK(r == RES, "response: another one"); last = 2; num = l; }
extern "C" void vf_onion_response_set_code(onion_response *r, int c) { CHECK(r == RES, "response: another one"); last = 3; num = c; }
extern "C" int vf_onion_response_write_headers(onion_response *r) { CHECK(r == RES, "response: another one"); last = 4; return 0; }
extern "C" bool vf_onion_response_add_cookie(onion_response *r, const char *k, const char *v, time_t t, const char *p, const char *d, int f) { CHECK(r == RES, "response: another one"); last = 5; *A = k; *B = v; tm_ = t; np = !p; nd = !d; if (p) *C = p; if (d) *D = d; fl = f; return true; }
extern "C" void harness(void) {
  std::string a, b, c, d; A = &a; B = &b; C = &c; D = &d; long l0 = sym_heap_live();
  { Response r(RES); CHECK(r.c_handler() == RES, "response: another one"); static char exp[OUTB]; int e = 0; int ops = OPS;
    for (int o = 0; o < ops; o++) { last = 0; int op = sym_pick(0, 10, "op"); std::string x = text(0, VN, "text"), y = op == 4 || op == 8 ? text(0, VN, "text2") : std::string();
      if (op == 0) { r << x; CHECK(r.good(), "response: the stream failed"); memcpy(exp + e, x.data(), x.size()); e += x.size(); sym_reach("stream"); }
      else if (op == 1) { r << x.c_str(); memcpy(exp + e, x.data(), x.size()); e += x.size(); }
      else if (op == 2) { int k = r.write(x.data(), x.size()); CHECK(k == (int)x.size(), "response: another result"); memcpy(exp + e, x.data(), x.size()); e += x.size(); }
      else if (op == 3) { char ch = sym_u8("char"); r.put(ch); exp[e++] = ch; CHECK(r.good(), "response: the stream failed"); sym_reach("put"); }
      else if (op == 4) { r.setHeader(x, y); CHECK(last == 1 && same(a, x) && same(b, y), "response: another header"); }
      else if (op == 5) { uint64_t v = sym_u64("length"); r.setLength(v); CHECK(last == 2 && num == v, "response: another length"); }
      else if (op == 6) { int v = sym_u32("code"); r.setCode(v); CHECK(last == 3 && (int)num == v, "response: another code"); }
      else if (op == 7) { r.writeHeaders(); CHECK(last == 4, "response: headers not written"); }
      else if (op == 8) { std::string p = text(0, 1, "path"), q = text(0, 1, "domain"); time_t t = sym_u64("valid"); int f = sym_u32("flags"); r.addCookie(x, y, t, p, q, f); CHECK(last == 5 && same(a, x) && same(b, y) && tm_ == t && fl == f, "response: another cookie"); CHECK(np == p.empty() && nd == q.empty() && (np || same(c, p)) && (nd || same(d, q)), "response: another path or domain"); sym_reach("cookie"); }
      else if (op == 9) { r.flush(); CHECK(r.good(), "response: the stream failed"); }
      else { int k = r.rdbuf()->pubsync(); CHECK(k == 0, "response: the stream failed"); struct P : std::streambuf { static void go(std::streambuf *s) { (s->*(&P::overflow))(std::char_traits<char>::eof()); } }; P::go(r.rdbuf()); sym_reach("sync"); }
      CHECK(n == e && eqn(out, exp, e), "response: other bytes were written"); } }
  std::string().swap(a); std::string().swap(b); std::string().swap(c); std::string().swap(d); CHECK(sym_heap_live() == l0, "response: memory is not released"); sym_reach("done");
}
