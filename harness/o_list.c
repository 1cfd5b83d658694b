// histories of the list of pieces
#include "util.h"
#include "tools/otemplate/list.h"
static int freed[16]; static int items[16]; static void fr(void *p) { freed[(int *)p - items]++; } static int seen; static int ref[16], nref, flag[16];
static void each(void *x, void *p) { CHECK(x == &seen, "list: extra"); CHECK(seen < nref && (int *)p == &items[ref[seen]], "list: the order is not that of adding"); seen++; }
void harness(void) { int wf = sym_pick(0, 1, "free"); list *l = list_new(wf ? fr : NULL); int gone[16] = { 0 }, total = 0; for (int i = 0; i < N; i++) { int op = sym_pick(0, 2, "op"); if (op == 2) { list_pop(l); if (nref) { nref--; int q = ref[nref]; CHECK(freed[q] == (wf && flag[q]), "list: removing frees what it should not, or not what it should"); gone[q] = 1; } } else { flag[total] = 1; if (op == 1) { int f = sym_pick(0, 1, "flags"); list_add_with_flags(l, &items[total], f ? LIST_ITEM_FREE : LIST_ITEM_NO_FREE); flag[total] = f; } else list_add(l, &items[total]); ref[nref++] = total++; }
    CHECK(list_count(l) == nref, "list: the count is wrong"); seen = 0; list_loop(l, each, &seen); CHECK(seen == nref, "list: not all are visited"); for (int k = 0; k <= nref; k++) CHECK(list_get_n(l, k) == (k < nref ? &items[ref[k]] : NULL), "list: another element at that place"); }
  list_free(l); for (int i = 0; i < total; i++) CHECK(freed[i] == (wf && flag[i]), "list: freed wrong"); sym_reach("done"); }
