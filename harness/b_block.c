#include "util.h"
#include <onion/block.h>
#include <onion/low.h>
// any history of operations on a block against a plain byte string
#ifndef SIZES
#define SIZES 0, 1, 2, 15, 16, 17, 31, 33, 100, 1023, 1024, 1025
#define LIMIT 3000
#define OTHER 4
#endif
static char ref[LIMIT + LIMIT / 2 + OTHER]; static int rn; static unsigned char seed;
static const int SZ[] = { SIZES };
#define NSZ ((int)(sizeof SZ / sizeof *SZ))
static void ver(onion_block *b) { CHECK(onion_block_size(b) == rn, "block: size differs from the bytes appended"); const char *p = onion_block_data(b); CHECK(eqn(p, ref, rn), "block: content differs from the bytes appended"); CHECK(p[rn] == 0, "block: text view not terminated"); CHECK(onion_block_size(b) == rn, "block: reading the text changed the size"); }
void harness(void) {
  onion_block *b = onion_block_new(); if (sym_bool("v0")) ver(b);
  for (int o = 0; o < OPS; o++) {
    int op = sym_pick(0, 6, "op"); 
    if (op == 0) { char c = sym_u8("c"); int r = sym_pick(0, 3, "rep"); r = r == 0 ? 1 : r == 1 ? 16 : r == 2 ? 17 : 40; for (int i = 0; i < r; i++) { onion_block_add_char(b, c); ref[rn++] = c; } }
    else if (op == 1 || op == 2) { int n = SZ[sym_pick(0, MAXSZ, "sz")]; if (rn + n > LIMIT) sym_stop(); char *s = malloc(n + 1); for (int i = 0; i < n; i++) s[i] = 'a' + (seed++ % 23); if (n) { s[0] = sym_u8("c0"); s[n - 1] = sym_u8("c1"); } s[n] = 0; if (op == 1) { onion_block_add_data(b, s, n); memcpy(ref + rn, s, n); rn += n; } else { if (n) { sym_assume(s[0] != 0); sym_assume(s[n - 1] != 0); } onion_block_add_str(b, s); memcpy(ref + rn, s, n); rn += n; } free(s); }
    else if (op == 3) { onion_block_clear(b); rn = 0; }
    else if (op == 4) { int n = sym_pick(0, 3, "rw"); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? rn : 1000000; onion_block_rewind(b, n); rn = n > rn ? 0 : rn - n; }
    else if (op == 5) { if (rn * 2 > LIMIT) sym_stop(); onion_block_add_block(b, b); memcpy(ref + rn, ref, rn); rn *= 2; sym_reach("self"); }
    else { onion_block *c = onion_block_new(); char *ot = malloc(OTHER); for (int i = 0; i < OTHER; i++) ot[i] = i == OTHER - 1 ? 0 : 'a' + i % 19; if (rn + OTHER > LIMIT) sym_stop(); onion_block_add_str(c, ot); onion_block_add_char(c, 0); onion_block_min_maxsize(b, 40); onion_block_add_block(b, c); memcpy(ref + rn, ot, OTHER); rn += OTHER; CHECK(onion_block_size(c) == OTHER && eqn(onion_block_data(c), ot, OTHER), "block: appended block changed"); free(ot); onion_block_free(c); }
#ifdef VEACH
    ver(b);
#endif
  }
  ver(b); sym_reach("done");
  onion_block_free(b); CHECK(sym_heap_live() == 0, "block: memory leaked");
}
