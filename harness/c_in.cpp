// Onion::Request: every accessor gives what the C library gives, the default where it gives nothing
#include "cxx.h"
#include "request.hpp"
using namespace Onion;
static onion_request *REQ = (onion_request *)0x1000; static const char *askk; static std::string *val; static int absent, ask; static onion_dict *dd[8]; static int fl, secure, sfree;
#define ACC(f, id) extern "C" const char *vf_onion_request_get_##f(onion_request *r, const char *k) { CHECK(r == REQ, "request: another one"); ask = id; { char *q = (char *)malloc(strlen(k) + 1); strcpy(q, k); askk = q; }; return absent ? NULL : val->c_str(); }
ACC(post, 1) ACC(query, 2) ACC(session, 3) ACC(cookie, 4)
#define DIC(f, id, T) extern "C" T *vf_onion_request_get_##f##_dict(onion_request *r) { CHECK(r == REQ, "request: another one"); return dd[id]; }
DIC(header, 0, const onion_dict) DIC(post, 1, const onion_dict) DIC(query, 2, const onion_dict) DIC(session, 3, onion_dict) DIC(cookies, 4, onion_dict) DIC(file, 5, const onion_dict)
extern "C" const char *vf_onion_request_get_path(onion_request *r) { CHECK(r == REQ, "request: another one"); return val->c_str(); }
extern "C" const char *vf_onion_request_get_fullpath(onion_request *r) { CHECK(r == REQ, "request: another one"); return "full"; }
extern "C" const char *vf_onion_request_get_client_description(onion_request *r) { CHECK(r == REQ, "request: another one"); return "cli"; }
extern "C" onion_request_flags vf_onion_request_get_flags(onion_request *r) { CHECK(r == REQ, "request: another one"); return (onion_request_flags)fl; }
extern "C" const char *vf_onion_request_get_language_code(onion_request *r) { CHECK(r == REQ, "request: another one"); char *s = (char *)malloc(val->size() + 1); memcpy(s, val->c_str(), val->size() + 1); return s; }
extern "C" bool vf_onion_request_is_secure(onion_request *r) { CHECK(r == REQ, "request: another one"); return secure; }
extern "C" const char *vf_onion_request_get_method_name(onion_request *r) { CHECK(r == REQ, "request: another one"); return "METH"; }
extern "C" void vf_onion_request_session_free(onion_request *r) { CHECK(r == REQ, "request: another one"); sfree++; }
static void isdict(const Dict &d, int id) { if (!dd[id]) { CHECK(d.count() == 0 && !d.has("k"), "request: values out of nothing"); sym_reach("empty"); } else { CHECK(d.c_handler() == dd[id], "request: another dictionary"); char w[2] = { (char)('0' + id), 0 }; CHECK(same(d.get("k"), w), "request: another value"); sym_reach("dict"); } }
extern "C" void harness(void) {
  std::string v = text(0, VN, "value"), def = text(0, VN, "default"), key = text(0, VN, "key"); val = &v; absent = sym_pick(0, 1, "absent"); fl = sym_u16("flags"); secure = sym_pick(0, 1, "secure"); int id = sym_pick(0, 5, "what"); bool have = sym_pick(0, 1, "have"); if (id == 0 || id == 2 || id == 4) sym_assume(have);
  if (have) { dd[id] = onion_dict_new(); char w[2] = { (char)('0' + id), 0 }; onion_dict_add(dd[id], "k", w, OD_DUP_ALL); }
  long l0 = sym_heap_live();
  { Request r(REQ); CHECK(r.c_handler() == REQ, "request: another one"); 
    if (id == 0) { isdict(r.headers(), 0); CHECK(same(r["k"], "0"), "request: another header"); bool th = false; try { r["zz"]; } catch (const Dict::key_not_found &) { th = true; } CHECK(th, "request: no exception for a missing header"); }
    if (id == 1) isdict(r.post(), 1); if (id == 2) isdict(r.query(), 2); if (id == 3) isdict(r.session(), 3); if (id == 4) isdict(r.cookies(), 4); if (id == 5) { isdict(r.files(), 5); CHECK(r.hasFiles() == have, "request: has files or not"); }
    if (id >= 1 && id <= 4) { bool withdef = sym_pick(0, 1, "default given"); std::string got; 
      if (id == 1) got = withdef ? r.post(key, def) : r.post(key); if (id == 2) got = withdef ? r.query(key, def) : r.query(key); if (id == 3) got = withdef ? r.session(key, def) : r.session(key); if (id == 4) got = withdef ? r.cookies(key, def) : r.cookies(key);
      CHECK(ask == id && samez(askk, key), "request: another value was asked for"); CHECK(same(got, absent ? withdef ? def : std::string() : v), "request: another value"); free((void *)askk); sym_reach(absent ? "default" : "value"); }
    if (id == 0) { CHECK(same(r.path(), v) && same(r.fullpath(), "full") && same(r.clientDescription(), "cli") && same(r.languageCode(), v) && samez(r.methodName(), "METH"), "request: another text"); CHECK(r.flags() == (onion_request_flags)fl && r.isSecure() == !!secure, "request: other flags"); r.removeSession(); CHECK(sfree == 1, "request: the session is not removed"); sym_reach("texts"); } }
  CHECK(sym_heap_live() == l0, "request: memory is not released"); sym_reach("done");
}
