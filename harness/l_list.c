#include "util.h"
#include <stdbool.h>
#include <onion/ptr_list.h>
#include <onion/low.h>
static char el[4]; static int cnt[4], seen[4], ref[4]; static unsigned keepmask;
static void visit(void *p) { seen[(char *)p - el]++; }
static bool keep(void *data, void *p) { CHECK(data == &keepmask, "list: filter data not passed"); return keepmask >> ((char *)p - el) & 1; }
static void ver(onion_ptr_list *l) { memset(seen, 0, sizeof seen); onion_ptr_list_foreach(l, visit); int t = 0; for (int i = 0; i < 4; i++) { CHECK(seen[i] == ref[i], "list: iteration does not visit the elements added and not removed"); t += ref[i]; } CHECK((int)onion_ptr_list_count(l) == t, "list: count differs"); CHECK((l == NULL) == (t == 0), "list: empty list is not empty"); }
void harness(void) {
  onion_ptr_list *l = onion_ptr_list_new(); ver(l);
#ifdef PREFILL
  for (int i = 0; i < PREFILL; i++) { l = onion_ptr_list_add(l, el + i % 3); ref[i % 3]++; } ver(l);
#endif
  for (int o = 0; o < OPS; o++) { int op = sym_pick(0, 2, "op");
    if (op == 0) { int e = sym_pick(0, 2, "e"); l = onion_ptr_list_add(l, el + e); ref[e]++; }
    else if (op == 1) { int e = sym_pick(0, 3, "e"); int was = ref[e]; l = onion_ptr_list_remove(l, el + e); if (was) { sym_reach("removed"); memset(seen, 0, sizeof seen); onion_ptr_list_foreach(l, visit); CHECK(seen[e] < was, "list: removal removes nothing"); ref[e] = seen[e]; } }
    else { keepmask = sym_pick(0, 7, "mask"); l = onion_ptr_list_filter(l, keep, &keepmask); for (int i = 0; i < 4; i++) if (!(keepmask >> i & 1)) ref[i] = 0; sym_reach("filtered"); }
    ver(l); }
  onion_ptr_list_free(l); CHECK(sym_heap_live() == 0, "list: memory leaked");
}
