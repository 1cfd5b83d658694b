#include "util.h"
#include <onion/dict.h>
#include <onion/low.h>
#include <strings.h>
// a dictionary against an ordered multimap after every operation of a history
#ifndef PREFILL
#define PREFILL 0
#endif
#ifndef ORDER
#define ORDER 0
#endif
#ifndef KL
#define KL 0   // length of a prefix all keys share
#endif
#define MAX (PREFILL + OPS + 1)
static char keys[MAX + OPS][KL + 2]; static const char *mk[MAX]; static const char *mv[MAX]; static int mn; static char vals[MAX][2];
static const char *ok_[MAX]; static const char *ov[MAX]; static int on;
static void collect(void *data, const char *key, const void *value, int flags) { (void)data; CHECK(on < MAX, "dict: iteration visits too many pairs"); if (on < MAX) { ok_[on] = key; ov[on++] = value; } }
static int cmp(const char *a, const char *b) {
#ifdef ICASE
  return strcasecmp(a, b);
#else
  return strcmp(a, b);
#endif
}
static void verify(onion_dict *d) {
  on = 0; onion_dict_preorder(d, collect, NULL);
  CHECK(on == mn, "dict: iteration does not visit every stored pair once"); CHECK(onion_dict_count(d) == mn, "dict: count differs from the pairs stored");
  for (int i = 1; i < on; i++) CHECK(cmp(ok_[i - 1], ok_[i]) <= 0, "dict: iteration not in key order");
  for (int i = 0; i < mn; i++) { int f = 0; for (int j = 0; j < on; j++) if (ov[j] == mv[i]) { f++; CHECK(cmp(ok_[j], mk[i]) == 0, "dict: value under another key"); } CHECK(f == 1, "dict: a stored pair is missing or repeated"); }
}
static void look(onion_dict *d, const char *k) {
  const char *g = onion_dict_get(d, k); int any = 0, hit = 0;
  for (int i = 0; i < mn; i++) if (cmp(mk[i], k) == 0) { any = 1; if (mv[i] == g) hit = 1; }
  if (any) CHECK(g != NULL && hit, "dict: lookup does not give the stored value"); else CHECK(g == NULL, "dict: lookup finds a key that is not stored");
  CHECK(onion_dict_get_dict(d, k) == NULL, "dict: a string is returned as a dictionary");
}
static int symkey(char *k) { for (int i = 0; i < KL; i++) k[i] = 'k'; k += KL; k[0] = sym_u8("key"); k[1] = 0;
#ifdef ICASE
  sym_assume(INR(k[0], 'a', 'e') | INR(k[0], 'A', 'E'));
#elif PREFILL > 0
  sym_assume(INR(k[0], 'a', 'a' + 2 * PREFILL + 1));
#endif
  return 0; }
void harness(void) {
  onion_dict *d = onion_dict_new();
#ifdef ICASE
  onion_dict_set_flags(d, OD_ICASE);
#endif
  int nk = 0;
  for (int i = 0; i < PREFILL; i++) { int p = ORDER == 0 ? i : ORDER == 1 ? PREFILL - 1 - i : (i * 5 + 3) % PREFILL;
#ifdef DUPS
    p /= DUPS;
#endif
    for (int i2 = 0; i2 < KL; i2++) keys[nk][i2] = 'k'; keys[nk][KL] = 'a' + 1 + 2 * p; mk[mn] = keys[nk]; mv[mn] = vals[mn]; onion_dict_add(d, keys[nk], vals[mn], 0); mn++; nk++; }
  int nv = mn; verify(d);
  for (int o = 0; o < OPS; o++) {
    char *k = keys[nk++]; symkey(k);
    int op = sym_pick(0, 2, "op");
#ifdef FIRSTREMOVE
    sym_assume(o > 0 || op == 2);
#endif
    if (op == 0) { mk[mn] = k; mv[mn] = vals[nv]; mn++; onion_dict_add(d, k, vals[nv++], 0); sym_reach("add"); }
    else if (op == 1) { // replace: exactly one pair of that key, if any, gets the new value
      int any = 0; for (int i = 0; i < mn; i++) if (cmp(mk[i], k) == 0) any = 1;
      onion_dict_add(d, k, vals[nv], OD_REPLACE); on = 0; onion_dict_preorder(d, collect, NULL); 
      if (any) { int gone = -1, n = 0; for (int i = 0; i < mn; i++) { int f = 0; for (int j = 0; j < on; j++) if (ov[j] == mv[i]) f = 1; if (!f) { gone = i; n++; } } CHECK(n == 1, "dict: replacing changed the number of pairs"); if (n != 1) return; CHECK(cmp(mk[gone], k) == 0, "dict: replacing dropped another key"); mk[gone] = k; mv[gone] = vals[nv]; sym_reach("replace"); }
      else { mk[mn] = k; mv[mn] = vals[nv]; mn++; }
      nv++; }
    else { int any = 0; for (int i = 0; i < mn; i++) if (cmp(mk[i], k) == 0) any = 1;
      int r = onion_dict_remove(d, k); CHECK(!!r == any, "dict: removal does not tell whether the key was there");
      if (any) { on = 0; onion_dict_preorder(d, collect, NULL); int gone = -1, n = 0; for (int i = 0; i < mn; i++) { int f = 0; for (int j = 0; j < on; j++) if (ov[j] == mv[i]) f = 1; if (!f) { gone = i; n++; } } CHECK(n == 1, "dict: removal did not take exactly one pair"); if (n != 1) return; CHECK(cmp(mk[gone], k) == 0, "dict: removal took another key"); mn--; mk[gone] = mk[mn]; mv[gone] = mv[mn]; sym_reach("remove"); } }
    verify(d);
    look(d, k);
  }
  char *q = keys[nk]; symkey(q); look(d, q);
  onion_dict_free(d); CHECK(sym_heap_live() == 0, "dict: memory leaked");
}
