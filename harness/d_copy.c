#include "util.h"
#include <onion/dict.h>
#include <onion/low.h>
// copies and merges of dictionaries with many entries, some of them dictionaries
static void kn(char *k, int i) { k[0] = 'k'; k[1] = 'a' + i / 26; k[2] = 'a' + i % 26; k[3] = 0; }
static int is(const char *a, const char *b) { return a && !strcmp(a, b); }
static int isnest(int i) { return i % 4 == 3; }
// entry order: ascending, descending or mixed
static int order(int i, int n, int o) { return o == 0 ? i : o == 1 ? n - 1 - i : (i * 7) % n; }
static onion_dict *make(int n, int from, int o, char *pc) { onion_dict *d = onion_dict_new(); char k[4]; for (int j = 0; j < n; j++) { int i = from + order(j, n, o); kn(k, i); if (isnest(i)) { onion_dict *s = onion_dict_new(); char q[4]; for (int m = 0; m < 5; m++) { kn(q, m); onion_dict_add(s, q, k, OD_DUP_ALL); } onion_dict_add(d, k, s, OD_DICT | OD_FREE_VALUE | OD_DUP_KEY); } else { char v[5] = { pc[0], k[1], k[2], pc[1], 0 }; onion_dict_add(d, k, v, OD_DUP_ALL); } } return d; }
static void look(onion_dict *d, int n, int from, char *pc, const char *msg) { char k[4], q[4]; for (int i = from; i < from + n; i++) { kn(k, i); if (isnest(i)) { onion_dict *s = onion_dict_get_dict(d, k); CHECK(s && onion_dict_count(s) == 5, msg); if (s) for (int m = 0; m < 5; m++) { kn(q, m); CHECK(is(onion_dict_get(s, q), k), msg); } } else { const char *g = onion_dict_get(d, k); CHECK(g && strlen(g) == 4 && g[0] == pc[0] && g[1] == k[1] && g[2] == k[2] && g[3] == pc[1], msg); } } }
void harness(void) {
  char c1[2] = { 'v', 0 }, c2[2] = { 'u', 0 }; c1[1] = sym_u8("value"); c2[1] = sym_u8("other"); sym_assume(c1[1] != 0 && c2[1] != 0); int o = sym_pick(0, 2, "order"); onion_dict *d = make(MANY, 0, o, c1); CHECK(onion_dict_count(d) == MANY, "dict: number of entries");
  int op = sym_pick(0, 2, "op");
  if (op == 0) { onion_dict *h = onion_dict_hard_dup(d); CHECK(onion_dict_count(h) == MANY, "dict hard copy: number of entries differs"); look(h, MANY, 0, c1, "dict hard copy: content differs"); int w = sym_pick(0, 1, "which"); onion_dict *x = w ? d : h, *y = w ? h : d; char k[4];
    for (int i = 0; i < MANY; i++) { kn(k, i); if (isnest(i)) onion_dict_remove(onion_dict_get_dict(x, k), "kaa"); else if (i % 2) onion_dict_remove(x, k); else onion_dict_add(x, k, "changed", OD_REPLACE | OD_DUP_ALL); } look(y, MANY, 0, c1, "dict hard copy: a change is seen in the other"); onion_dict_free(x); look(y, MANY, 0, c1, "dict hard copy: depends on the other"); onion_dict_free(y); sym_reach("hard"); }
  else if (op == 1) { int from = sym_pick(0, 1, "overlap") ? MANY / 2 : MANY; onion_dict *e = make(MANY, from, sym_pick(0, 2, "order"), c2); if (from == MANY) { onion_dict_merge(d, e); CHECK(onion_dict_count(d) == 2 * MANY, "dict merge: number of entries differs"); look(d, MANY, 0, c1, "dict merge: entries changed"); look(d, MANY, from, c2, "dict merge: pairs missing or changed"); } else { onion_dict_merge(d, e); look(d, MANY / 2, 0, c1, "dict merge: entries changed"); look(d, MANY - MANY / 2, MANY, c2, "dict merge: pairs missing or changed"); } look(e, MANY, from, c2, "dict merge: the other dictionary changed"); if (sym_pick(0, 1, "release")) { onion_dict_free(d); onion_dict_free(e); } else { onion_dict_free(e); look(d, MANY / 2, 0, c1, "dict merge: depends on the other"); look(d, MANY - MANY / 2, MANY, c2, "dict merge: depends on the other"); onion_dict_free(d); } sym_reach("merge"); }
  else { onion_dict *h = onion_dict_dup(d); CHECK(onion_dict_count(h) == MANY, "dict soft copy: number of entries differs"); onion_dict_add(d, "new", "v", 0); onion_dict_remove(h, "kaa"); CHECK(is(onion_dict_get(h, "new"), "v") && !onion_dict_get(d, "kaa"), "dict soft copy: a change is not shared"); onion_dict_free(d); look(h, MANY - 1, 1, c1, "dict soft copy: content gone while still referenced"); onion_dict_free(h); sym_reach("soft"); }
  CHECK(sym_heap_live() == 0, "dict copies: memory leaked"); sym_reach("done"); }
