#include "util.h"
#include <onion/dict.h>
#include <onion/low.h>
#ifdef PADS
#define V(s) s PADS PADS PADS PADS PADS PADS PADS PADS
#else
#define V(s) s
#endif
// nested dictionaries: ownership, copies, recursive lookup
static int is(const char *a, const char *b) { return a && !strcmp(a, b); }
void harness(void) {
  onion_dict *d = onion_dict_new(), *s = onion_dict_new(); onion_dict_add(s, V("a"), V("1"), sym_bool("dup") ? OD_DUP_ALL : 0);
  onion_dict *s2 = onion_dict_new(); onion_dict_add(s2, V("b"), V("2"), OD_DUP_VALUE); onion_dict_add(s, V("in"), s2, OD_DICT | OD_FREE_VALUE);
  int m = sym_pick(0, 2, "mode"); onion_dict_add(d, V("sub"), s, OD_DICT | (m == 0 ? 0 : m == 1 ? OD_FREE_VALUE : OD_DUP_VALUE)); onion_dict_add(d, V("x"), V("y"), 0);
  if (m == 2) { CHECK(onion_dict_get_dict(d, V("sub")) != s, "nested: copied dictionary is shared"); onion_dict_add(s, V("a"), V("changed"), OD_REPLACE); CHECK(is(onion_dict_get(onion_dict_get_dict(d, V("sub")), V("a")), V("1")), "nested: copied dictionary changed with the original"); onion_dict_free(s); }
  CHECK(onion_dict_get(d, V("sub")) == NULL && onion_dict_get_dict(d, V("x")) == NULL && onion_dict_get_dict(d, "none") == NULL, "nested: wrong kind returned");
  CHECK(is(onion_dict_rget(d, V("sub"), V("in"), V("b"), NULL), V("2")) && is(onion_dict_rget(d, V("x"), NULL), V("y")) && onion_dict_rget(d, V("sub"), "no", V("b"), NULL) == NULL && onion_dict_rget(d, V("x"), V("b"), NULL) == NULL && onion_dict_rget(d, V("sub"), NULL) == NULL, "nested: recursive lookup wrong");
  CHECK(onion_dict_rget_dict(d, V("sub"), V("in"), NULL) != NULL && is(onion_dict_get(onion_dict_rget_dict(d, V("sub"), V("in"), NULL), V("b")), V("2")) && onion_dict_rget_dict(d, V("sub"), V("a"), NULL) == NULL, "nested: recursive dictionary lookup wrong");
  if (sym_bool("copy")) { onion_dict *h = onion_dict_hard_dup(d); onion_dict_add(onion_dict_get_dict(h, V("sub")), V("a"), V("9"), OD_REPLACE); onion_dict_remove(onion_dict_rget_dict(h, V("sub"), V("in"), NULL), V("b"));
    CHECK(is(onion_dict_rget(d, V("sub"), V("a"), NULL), V("1")) && is(onion_dict_rget(d, V("sub"), V("in"), V("b"), NULL), V("2")), "nested: a change in a hard copy is seen in the original"); CHECK(is(onion_dict_rget(h, V("sub"), V("a"), NULL), V("9")) && is(onion_dict_get(h, V("x")), V("y")) && onion_dict_count(h) == 2, "nested: hard copy wrong"); onion_dict_free(h); sym_reach("copied"); }
  if (sym_bool("rm")) { onion_dict_remove(d, V("sub")); CHECK(onion_dict_get_dict(d, V("sub")) == NULL && onion_dict_count(d) == 1, "nested: not removed"); }
  onion_dict_free(d); if (m == 0) onion_dict_free(s);
  CHECK(sym_heap_live() == 0, "nested: memory leaked");
}
