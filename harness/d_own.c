#include "util.h"
#include <onion/dict.h>
#include <onion/low.h>
#ifdef PADS
#define V(s) s PADS PADS PADS PADS PADS PADS PADS PADS
#define K(s) V(s)
#else
#define V(s) s
#define K(s) s
#endif
// every combination of copied, borrowed and adopted keys and values; copies; nested dictionaries
static const int KF[3] = { 0, OD_DUP_KEY, OD_FREE_KEY }, VF[3] = { 0, OD_DUP_VALUE, OD_FREE_VALUE };
static char *mine[16]; static int nmine;
static char *mkstr(const char *s) { int n = strlen(s); char *r = onion_low_malloc(n + 1); memcpy(r, s, n + 1); return r; }
static void add(onion_dict *d, const char *k, const char *v, int kf, int vf, int rep) {
  char *kk = mkstr(k), *vv = mkstr(v); onion_dict_add(d, kk, vv, KF[kf] | VF[vf] | (rep ? OD_REPLACE : 0));
  if (kf == 0) mine[nmine++] = kk; if (vf == 0) mine[nmine++] = vv;   // borrowed: released by us after the dictionary
  if (kf == 1) { kk[0] = '#'; onion_low_free(kk); } if (vf == 1) { vv[0] = '#'; onion_low_free(vv); }   // copied: ours may change and go at once
}
static int is(const char *a, const char *b) { return a && !strcmp(a, b); }
void harness(void) {
  onion_dict *d = onion_dict_new(); if (sym_bool("icase")) onion_dict_set_flags(d, OD_ICASE);
  int ic = onion_dict_get(d, "x") == NULL; (void)ic;
  add(d, K("k1"), V("v1"), sym_pick(0, 2, "kf"), sym_pick(0, 2, "vf"), 0);
  add(d, K("k2"), V("v2"), sym_pick(0, 2, "kf"), sym_pick(0, 2, "vf"), 0);
  CHECK(is(onion_dict_get(d, K("k1")), V("v1")) && is(onion_dict_get(d, K("k2")), V("v2")), "dict ownership: stored value changed");
  int op = sym_pick(0, 4, "op");
  if (op == 0) { add(d, K("k1"), V("w1"), sym_pick(0, 2, "kf"), sym_pick(0, 2, "vf"), 1); CHECK(is(onion_dict_get(d, K("k1")), V("w1")) && is(onion_dict_get(d, K("k2")), V("v2")) && onion_dict_count(d) == 2, "dict ownership: wrong content after replacing"); sym_reach("replace"); }
  else if (op == 1) { onion_dict_remove(d, K("k1")); CHECK(!onion_dict_get(d, K("k1")) && is(onion_dict_get(d, K("k2")), V("v2")), "dict ownership: wrong content after removing"); }
  else if (op == 2) { onion_dict *e = onion_dict_dup(d); onion_dict_add(e, K("k3"), V("v3"), OD_DUP_ALL); CHECK(is(onion_dict_get(d, K("k3")), V("v3")), "dict soft copy: a change is not shared"); if (sym_bool("order")) { onion_dict_free(d); d = e; } else onion_dict_free(e); CHECK(is(onion_dict_get(d, K("k1")), V("v1")) && is(onion_dict_get(d, K("k3")), V("v3")), "dict soft copy: content gone while still referenced"); sym_reach("soft"); }
  else if (op == 3) { onion_dict *e = onion_dict_hard_dup(d); CHECK(is(onion_dict_get(e, K("k1")), V("v1")) && is(onion_dict_get(e, K("k2")), V("v2")) && onion_dict_count(e) == 2, "dict hard copy: content differs");
    CHECK(!!onion_dict_get(e, K("K1")) == !!onion_dict_get(d, K("K1")), "dict hard copy: letter case rule differs"); CHECK(onion_dict_get(e, K("k1")) != onion_dict_get(d, K("k1")), "dict hard copy: values are shared");
    onion_dict_add(e, K("k1"), V("zz"), OD_DUP_ALL | OD_REPLACE); onion_dict_add(d, K("k4"), V("v4"), OD_DUP_ALL); onion_dict_remove(e, K("k2")); CHECK(is(onion_dict_get(d, K("k1")), V("v1")) && is(onion_dict_get(d, K("k2")), V("v2")) && !onion_dict_get(e, K("k4")), "dict hard copy: a change is seen in the other");
    if (sym_bool("order")) { onion_dict_free(d); for (int i = 0; i < nmine; i++) { mine[i][0] = '#'; onion_low_free(mine[i]); } nmine = 0; CHECK(is(onion_dict_get(e, K("k1")), V("zz")), "dict hard copy: depends on the original"); d = e; } else onion_dict_free(e); sym_reach("hard"); }
  else { onion_dict *e = onion_dict_new(); onion_dict_add(e, K("k2"), V("u2"), 0); onion_dict_add(e, K("k5"), V("u5"), 0); onion_dict_merge(d, e); onion_dict_free(e); CHECK(is(onion_dict_get(d, K("k5")), V("u5")) && is(onion_dict_get(d, K("k1")), V("v1")), "dict merge: pairs missing"); sym_reach("merge"); }
  onion_dict_free(d); for (int i = 0; i < nmine; i++) onion_low_free(mine[i]);
  CHECK(sym_heap_live() == 0, "dict ownership: memory leaked");
}
