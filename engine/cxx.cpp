// the parts of the C++ run time and library that are not templates, for the symbolic executor
#include <exception>
#include <new>
#include <map>
#include <string>
#include <stdexcept>
#include <functional>
#include <ostream>
#include <typeinfo>
#include <stdlib.h>
#include <string.h>
extern "C" void sym_throw(void *, void *);
extern "C" void sym_assert(int, const char *);
void *operator new(size_t n) { return malloc(n ? n : 1); }
void *operator new[](size_t n) { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
namespace {
struct Hdr { void *type; void (*dtor)(void *); long handlers; long pad; };
void *caught[16]; int ncaught;
Hdr *hdr(void *p) { return (Hdr *)p - 1; }
void gone(void *p) { if (hdr(p)->dtor) hdr(p)->dtor(p); free(hdr(p)); }
}
extern "C" {
void *__cxa_allocate_exception(size_t n) throw() { Hdr *h = (Hdr *)malloc(n + sizeof(Hdr)); h->type = 0; h->dtor = 0; h->handlers = 0; return h + 1; }
void __cxa_free_exception(void *p) throw() { free(hdr(p)); }
void __cxa_throw(void *p, void *t, void (*d)(void *)) { hdr(p)->type = t; hdr(p)->dtor = d; hdr(p)->handlers = 0; sym_throw(p, t); __builtin_unreachable(); }
void *__cxa_begin_catch(void *p) throw() { hdr(p)->handlers++; sym_assert(ncaught < 16, "model: exceptions"); caught[ncaught++] = p; return p; }
void *__cxa_get_exception_ptr(void *p) throw() { return p; }
void __cxa_end_catch() { void *p = caught[--ncaught]; if (hdr(p)->handlers < 0) { hdr(p)->handlers = 0; return; } if (--hdr(p)->handlers == 0) gone(p); }
void __cxa_rethrow() { void *p = caught[ncaught - 1]; hdr(p)->handlers = -1; sym_throw(p, hdr(p)->type); __builtin_unreachable(); }
void __cxa_call_unexpected(void *) { sym_assert(0, "an exception leaves a function that throws nothing"); abort(); }
void __cxa_pure_virtual() { sym_assert(0, "a pure virtual function is called"); abort(); }
int __cxa_guard_acquire(char *g) { return !*g; }
void __cxa_guard_release(char *g) { *g = 1; }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
}
namespace std {
void terminate() noexcept { sym_assert(0, "std::terminate is called"); abort(); }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
type_info::~type_info() {}
struct vf_error : exception { const char *t; vf_error(const char *x) : t(x) {} const char *what() const noexcept { return t; } ~vf_error() noexcept {} };
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char *t) { throw vf_error(t); }
void __throw_length_error(const char *t) { throw vf_error(t); }
void __throw_out_of_range(const char *t) { throw vf_error(t); }
void __throw_out_of_range_fmt(const char *t, ...) { throw vf_error(t); }
void __throw_invalid_argument(const char *t) { throw vf_error(t); }
// an ordered tree, without balance
typedef _Rb_tree_node_base N;
N *_Rb_tree_increment(N *x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const N *_Rb_tree_increment(const N *x) throw() { return _Rb_tree_increment(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const N *_Rb_tree_decrement(const N *x) throw() { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() { x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() { N *x, *xp; if (!z->_M_left || !z->_M_right) { x = z->_M_left ? z->_M_left : z->_M_right; xp = z->_M_parent; if (x) x->_M_parent = xp; if (h._M_parent == z) h._M_parent = x; else if (xp->_M_left == z) xp->_M_left = x; else xp->_M_right = x; if (h._M_left == z) { if (!z->_M_right) h._M_left = xp; else { N *y = x; while (y->_M_left) y = y->_M_left; h._M_left = y; } } if (h._M_right == z) { if (!z->_M_left) h._M_right = xp; else { N *y = x; while (y->_M_right) y = y->_M_right; h._M_right = y; } } }
  else { N *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } y->_M_left = z->_M_left; y->_M_left->_M_parent = y; if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; } return z; }
// streams without a locale
locale::locale() throw() : _M_impl(0) {}
locale::locale(const locale &) throw() : _M_impl(0) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(dec | skipws), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
}
extern "C" void vf__ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale(void *, const void *) {}   // no facets: numbers and padding are outside
extern "C" bool _ZSt18uncaught_exceptionv() { return false; }
