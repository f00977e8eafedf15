// Models of the parts of the C++ run time that live in libstdc++.so / libc, for the symbolic executor.
#include <exception>
#include <stdexcept>
#include <new>
#include <string>
#include <map>
#include <thread>
#include <system_error>
#include <functional>
#include <cstring>
#include <typeinfo>
#include <memory>
#include <list>

extern "C" {
unsigned long symx_thread_create(void (*)(void*), void*);
void symx_thread_join(unsigned long);
unsigned long symx_thread_self();
}

// ---- C strings
extern "C" {
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) noexcept {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int strcmp(const char* a, const char* b) noexcept {
    while (*a && *a == *b) { ++a; ++b; }
    return (unsigned char)*a - (unsigned char)*b;
}
}
extern "C" void* symx_memchr(const void* s, int c, size_t n) asm("memchr");
extern "C" void* symx_memchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i);
    return nullptr;
}
extern "C" char* symx_strchr(const char* s, int c) asm("strchr");
extern "C" char* symx_strchr(const char* s, int c) {
    for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}

// ---- exception classes (key functions emit vtables and typeinfo here)
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

// the message of logic_error / runtime_error is kept in a heap copy
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string& s) { char* p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = new char[n + 1]; memcpy(p, s, n + 1); _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept {
    if (!o._M_p) { _M_p = nullptr; return; }
    size_t n = strlen(o._M_p); char* p = new char[n + 1]; memcpy(p, o._M_p, n + 1); _M_p = p;
}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
    if (this != &o) {
        delete[] _M_p;
        _M_p = nullptr;
        if (o._M_p) { size_t n = strlen(o._M_p); char* p = new char[n + 1]; memcpy(p, o._M_p, n + 1); _M_p = p; }
    }
    return *this;
}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }

#define BASE_EXC(C)                                                                   \
    C::C(const std::string& s) : exception(), _M_msg(s) {}                            \
    C::C(const char* s) : exception(), _M_msg(s, strlen(s)) {}                                   \
    C::C(const C& o) noexcept : exception(), _M_msg(o._M_msg) {}                      \
    C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; }         \
    C::C(C&& o) noexcept : exception(), _M_msg(o._M_msg) {}                           \
    C& C::operator=(C&& o) noexcept { _M_msg = o._M_msg; return *this; }              \
    C::~C() noexcept {}                                                               \
    const char* C::what() const noexcept { return *(const char* const*)&_M_msg ? *(const char* const*)&_M_msg : ""; }
BASE_EXC(logic_error)
BASE_EXC(runtime_error)
#define DER_EXC(C, B)                        \
    C::C(const std::string& s) : B(s) {}     \
    C::C(const char* s) : B(s) {}            \
    C::~C() noexcept {}
DER_EXC(domain_error, logic_error)
DER_EXC(invalid_argument, logic_error)
DER_EXC(length_error, logic_error)
DER_EXC(out_of_range, logic_error)
DER_EXC(range_error, runtime_error)
DER_EXC(overflow_error, runtime_error)
DER_EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- red-black tree primitives: same interface and ordering, without rebalancing.
// (only the header is red, every node is black; shape is not observable)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base*& leftmost = h._M_left;
    _Rb_tree_node_base*& rightmost = h._M_right;
    _Rb_tree_node_base* y = z;
    _Rb_tree_node_base* x = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y = z;
    } else {
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    return y;
}
// doubly linked list hooks
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}

// ---- threads
thread::_State::~_State() {}
struct symx_thread_state { virtual ~symx_thread_state() {} virtual void _M_run() = 0; };  // same vtable layout as thread::_State
static void symx_trampoline(void* p) {
    symx_thread_state* st = (symx_thread_state*)p;
    st->_M_run();
    delete st;
}
void thread::_M_start_thread(_State_ptr st, void (*)()) { _M_id = id(symx_thread_create(symx_trampoline, st.release())); }
void thread::join() {
    symx_thread_join(_M_id._M_thread);
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
}  // namespace std

extern "C" std::string symx_rt_to_string(long) { return "#"; }
extern "C" void symx_rt_bad_alloc() { throw std::bad_alloc(); }
extern "C" void _ZSt24__throw_out_of_range_fmtPKcz_unused() {}

template class std::basic_string<char>;
