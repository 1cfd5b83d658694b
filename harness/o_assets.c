// the header of assets: keeps its lines, adds the new ones once
#define NFILES 2
#include "ot.h"
#include "tools/common/updateassets.h"
static void out(const char *s, int n) { }
static char before[FSIZE]; static int nb;
static int lines_of(const char *t, int n, const char *l) { int k = 0, m = strlen(l), i = 0; while (i < n) { int j = i; while (j < n && t[j] != '\n') j++; if (j - i == m && memcmp(t + i, l, m) == 0) k++; i = j + 1; } return k; }
#define MARK "// New data will be inserted over this line. DO NOT MODIFY (SPECIALLY THIS LINE)."
void harness(void) { MF *f = mf_add("assets.h", assbuf, 0, sizeof assbuf); int n = sym_pick(0, N, "lines"); int mark = sym_pick(-1, n, "mark"); int start = n == 0 && mark < 0 ? 0 : sym_pick(0, 2, "file"); // 0: none, 1: with these lines, 2: without the last end of line
  static const char *ls[] = { "", "x1", "#endif", "void n1(void);" };
  static const int pads[] = { 0, 4000, 4080, 4090, 4094, 4095, 4096, 9000 }; int pad = PADS ? pads[sym_pick(0, 7, "size")] : 0;
  if (start) { for (int i = 0; i <= n; i++) { if (i == mark) { strcpy(assbuf + nb, MARK "\n"); nb += sizeof MARK; } if (i < n) { const char *l = ls[sym_pick(0, 3, "line")]; strcpy(assbuf + nb, l); nb += strlen(l); assbuf[nb++] = '\n'; } if (i == 0 && pad) { for (int j = 0; j < pad; j++) assbuf[nb++] = j % 50 == 49 ? '\n' : 'a' + j % 26; assbuf[nb++] = '\n'; } } if (start == 2 && nb > 1 && assbuf[nb - 2] != '\n') nb--; } f->n = nb; f->exists = start != 0; memcpy(before, assbuf, nb);
  static const char *nw[] = { "void n1(void);", "void n2(void);" }; int k = sym_pick(0, 2, "new"), a[2] = { 0, 0 }; long live = sym_heap_live(); onion_assets_file *af = onion_assets_file_new("assets.h"); for (int i = 0; i < k; i++) { a[i] = sym_pick(0, 1, "which"); onion_assets_file_update(af, nw[a[i]]); } onion_assets_file_free(af); CHECK(!f->open, "tool: leaves a file open"); CHECK(sym_heap_live() == live, "tool: leaks");
  int blank = 1; for (int i = 0; i < nb; i++) if (before[i] != '\n') blank = 0;
  for (int w = 0; w < 2; w++) { int used = 0; for (int i = 0; i < k; i++) used |= a[i] == w; int b = lines_of(before, nb, nw[w]), now = lines_of(assbuf, f->n, nw[w]); CHECK(now == (b ? b : used), "tool: a line of the header of assets is lost, added twice or not added"); }
  if (blank) { CHECK(lines_of(assbuf, f->n, MARK) == 1, "tool: a new header of assets has no mark"); sym_reach("new"); return; }
  // everything that was there is still there, in its order
  int i = 0, j = 0; while (i < nb) { int e = i; while (e < nb && before[e] != '\n') e++; int len = e - i; for (;;) { CHECK(j < f->n, "tool: a line of the header of assets is lost"); int g = j; while (g < f->n && assbuf[g] != '\n') g++; int same_ = g - j == len && memcmp(assbuf + j, before + i, len) == 0; j = g + 1; if (same_) break; } i = e + 1; }
  if (k == 0) { int m = nb; if (before[nb - 1] != '\n') m++; CHECK(f->n == m, "tool: a header of assets changes by itself"); }
  sym_reach("kept"); }
