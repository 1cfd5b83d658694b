// the two random generators: only what the source of randomness gave is used, never memory nobody wrote
#include "sym.h"
#include "util.h"
#include <errno.h>
void onion_random_init(void); void onion_random_free(void); void onion_random_generate(void *data, size_t size);
char *onion_sessions_generate_id(void); void onion_low_free(void *);
static unsigned char pool[64]; static int used, inits, deinits, fails, failed; void vf_exit(int c) { CHECK(fails && c != 0, "random: the program ends without reason"); sym_reach("ended"); sym_stop(); } void vf_abort(void) { vf_exit(1); }
#ifdef TLS
int vf_gnutls_global_init(void) { CHECK(inits == deinits, "random: initialised twice"); inits++; return 0; } void vf_gnutls_global_deinit(void) { CHECK(deinits < inits, "random: released twice"); deinits++; }
int vf_gnutls_rnd(int level, void *d, size_t n) { CHECK(inits > deinits, "random: used before it is ready"); if (sym_pick(0, 1, "fault")) { fails++; return -1; } CHECK(used + n <= 64, "random: too much"); memcpy(d, pool + used, n); used += n; return 0; }
#else
static int opened, seeded, at, sources; static unsigned seed;
int vf_open(const char *p, int f, ...) { CHECK(!opened, "random: opened twice"); if (sym_pick(0, 1, "no device")) { errno = ENOENT; return -1; } opened = 1; sources++; at = 0; return 7; }
int vf_close(int fd) { CHECK(fd == 7 && opened, "random: closes another file"); opened = 0; return 0; }
static unsigned char sd[4]; ssize_t vf_read(int fd, void *d, size_t n) { CHECK(fd == 7 && opened, "random: reads another file"); if (sym_pick(0, 1, "fault")) { fails++; errno = EIO; return -1; } int k = sym_pick(1, (int)n, "bytes"); CHECK(at + k <= 4, "random: reads too much"); memcpy(d, sd + at, k); at += k; return k; }
void vf_srand(unsigned s) { seed = s; seeded++; inits++; if (sources) { unsigned w; memcpy(&w, sd, 4); CHECK(at == 4 && s == w, "random: the seed is not the one of the device"); sym_reach("seeded"); } }
int vf_rand(void) { CHECK(seeded, "random: used before it is ready"); CHECK(used < 64, "random: too much"); return pool[used++] | 0x100; }
#endif
void harness(void) {
  sym_make(pool, 64, "random");
#ifndef TLS
  sym_make(sd, 4, "seed");
#endif
  int users = sym_pick(1, 2, "users"); for (int i = 0; i < users; i++) onion_random_init(); CHECK(inits == 1, "random: not made ready once"); CHECK(!fails, "random: goes on without a seed");
  int n = sym_pick(0, N, "size"); unsigned char *d = malloc(n + 1); d[n] = 0x5a; int b = used; onion_random_generate(d, n); CHECK(!fails, "random: goes on without random data"); CHECK(eqn((char *)d, (char *)pool + b, n) && d[n] == 0x5a && used - b == n, "random: other bytes than those of the source"); free(d);
  b = used; char *id = onion_sessions_generate_id(); CHECK(!fails, "random: an identifier without random data"); CHECK(used - b >= 32, "random: an identifier of few random bytes"); onion_low_free(id);
  for (int i = 0; i < users; i++) { onion_random_free();
#ifdef TLS
    CHECK(deinits == (i == users - 1), "random: released too early or not at all");
#endif
  }
  CHECK(sym_heap_live() == 0, "random: memory leaked"); sym_reach("done"); }
