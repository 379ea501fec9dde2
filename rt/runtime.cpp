// Engine-side C++ runtime pieces that normally live in libstdc++/libsupc++ (compiled to IR and linked with the code).
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <thread>
#include <cstdlib>
#include <cstring>
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
static char *dupstr(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dupstr("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(dupstr(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupstr(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
#define EXC2(T) T::T(const std::string &s) : _M_msg(s) {} T::T(const char *s) : _M_msg(s, 0) {} T::~T() noexcept {} const char *T::what() const noexcept { return _M_msg._M_p; } T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) {} T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; }
EXC2(logic_error) EXC2(runtime_error)
#define EXC(T, B) T::T(const std::string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
thread::_State::~_State() {}
}
struct symx_state { virtual ~symx_state(); virtual void run() = 0; };   // same virtual layout as std::thread::_State
extern "C" void symx_thread_main(symx_state *s) { s->run(); delete s; }
// red-black tree helpers (plain, unbalanced insertion keeps ordering; erase by node transplant)
#include <bits/stl_tree.h>
namespace std {
typedef _Rb_tree_node_base *NP; typedef const _Rb_tree_node_base *CNP;
static NP inc(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NP dec(NP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NP _Rb_tree_increment(NP x) throw() { return inc(x); }
CNP _Rb_tree_increment(CNP x) throw() { return inc(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() { return dec(x); }
CNP _Rb_tree_decrement(CNP x) throw() { return dec(const_cast<NP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;   // header stays red: decrement(end()) works
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base &h) throw() {
  NP y = z, x, xp; if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { NP q = x; while (q->_M_left) q = q->_M_left; h._M_left = q; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { NP q = x; while (q->_M_right) q = q->_M_right; h._M_right = q; } } }
  return z; }
}
// doubly linked list hooks (std::list)
#include <bits/stl_list.h>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
} }
#include <bits/hashtable_policy.h>
namespace std {
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = 2 * p + 1; _M_next_resize = p; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb) return {true, _M_next_bkt(ne + ni)}; return {false, 0}; }
} }
#undef _GLIBCXX_EXTERN_TEMPLATE
#include <string>
template class std::__cxx11::basic_string<char>;
