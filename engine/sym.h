// Interface between harnesses and the symbolic executor (or the native replayer).
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
void sym_make(void *p, size_t n, const char *name);   // n fresh symbolic bytes
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_reach(const char *label);
long sym_heap_live(void);                             // live heap blocks allocated by the code
void sym_stop(void);                                  // end this path successfully
size_t sym_objsize(const void *p);                    // bytes from p to the end of its object (engine); 0 natively
int sym_thread(void *(*f)(void *), void *a);
void sym_yield(void);
void sym_block(void);
void sym_wake(void);
int sym_self(void);
int sym_readable(const void *p, size_t n);
static inline uint8_t sym_u8(const char *n) { uint8_t v; sym_make(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char *n) { uint16_t v; sym_make(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char *n) { uint32_t v; sym_make(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char *n) { uint64_t v; sym_make(&v, 8, n); return v; }
static inline int sym_bool(const char *n) { uint8_t v = sym_u8(n); sym_assume(v < 2); return v; }
// value in [lo,hi], hi-lo<=255 ; forks to a concrete value
static inline int sym_pick(int lo, int hi, const char *n) { uint8_t v = sym_u8(n); sym_assume(v <= (uint8_t)(hi - lo)); for (int i = 0; i < hi - lo; i++) if (v == i) return lo + i; return hi; }
#define CHECK(c, msg) sym_assert(!!(c), msg)
#endif
