// native replay: C++ allocations are counted like the C ones
#include <stddef.h>
extern "C" void *rt_malloc(size_t);
extern "C" void rt_free(void *);
void *operator new(size_t n) { return rt_malloc(n ? n : 1); }
void *operator new[](size_t n) { return rt_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { rt_free(p); }
void operator delete[](void *p) noexcept { rt_free(p); }
void operator delete(void *p, size_t) noexcept { rt_free(p); }
void operator delete[](void *p, size_t) noexcept { rt_free(p); }
