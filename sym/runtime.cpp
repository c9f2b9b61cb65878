// Library environment of the symbolic runs: the out-of-line parts of libc, libstdc++ and libsupc++ the code under test may reach.
// Linked (LLVM bitcode) into every harness; the native replays use the real libraries instead.
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <exception>
#include <functional>
#include <ios>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>

extern "C" {
void vf_fail(const char*);
void __vf_exception_done(void*);
char __libc_single_threaded = 1;
// the executor frees the exception object afterwards
__attribute__((used, noinline)) void __vf_destroy_exception(void* p, void (*dtor)(void*)) { dtor(p); __vf_exception_done(p); }
__attribute__((used, noinline)) void __vf_throw_bad_alloc() { throw std::bad_alloc(); }

// ---- ctype, "C" locale, as glibc's tables behave on -128..255
#define CT(name, cond) int name(int c) { return (cond) ? 1 : 0; }
static inline bool up(int c) { return c >= 'A' && c <= 'Z'; }
static inline bool lo(int c) { return c >= 'a' && c <= 'z'; }
static inline bool dg(int c) { return c >= '0' && c <= '9'; }
CT(isupper, up(c)) CT(islower, lo(c)) CT(isdigit, dg(c)) CT(isalpha, up(c) | lo(c)) CT(isalnum, up(c) | lo(c) | dg(c))
CT(isxdigit, dg(c) | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F')) CT(isspace, c == ' ' || (c >= 9 && c <= 13)) CT(isblank, c == ' ' || c == '\t')
CT(iscntrl, (c >= 0 && c < 32) || c == 127) CT(isprint, c >= 32 && c < 127) CT(isgraph, c > 32 && c < 127) CT(ispunct, c > 32 && c < 127 && !(up(c) | lo(c) | dg(c)))
int toupper(int c) { return lo(c) ? c - 32 : (c >= -128 && c < -1) ? c + 256 : c; }
int tolower(int c) { return up(c) ? c + 32 : (c >= -128 && c < -1) ? c + 256 : c; }

static int theErrno;
int* __errno_location() { return &theErrno; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if (d) return d; if (!*a) break; } return 0; }
char* vf_strchr(const char* s, int c) __asm__("strchr");
char* vf_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* vf_strrchr(const char* s, int c) __asm__("strrchr");
char* vf_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* vf_strstr(const char* h, const char* n) __asm__("strstr");
char* vf_strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return nullptr; } }
static unsigned long long strtoX(const char* s, char** e, int base, bool* neg, bool* any, bool* over) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    *neg = *p == '-';
    if (*p == '-' || *p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long long v = 0; *any = false; *over = false;
    for (;; p++) {
        int d = dg(*p) ? *p - '0' : lo(*p) ? *p - 'a' + 10 : up(*p) ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        *any = true;
        unsigned long long nv;
        if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) *over = true; else v = nv;
    }
    if (e) *e = (char*)(*any ? p : s);
    return v;
}
long long strtoll(const char* s, char** e, int b) {
    bool n, a, o; unsigned long long v = strtoX(s, e, b, &n, &a, &o);
    if (o || v > 0x7fffffffffffffffull + (n ? 1 : 0)) { theErrno = ERANGE; return n ? INT64_MIN : INT64_MAX; }
    return n ? (long long)(0 - v) : (long long)v;
}
unsigned long long strtoull(const char* s, char** e, int b) { bool n, a, o; unsigned long long v = strtoX(s, e, b, &n, &a, &o); if (o) { theErrno = ERANGE; return ~0ull; } return n ? 0 - v : v; }
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long vf_strtol(const char* s, char** e, int b) __asm__("strtol");
long vf_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long vf_strtoul(const char* s, char** e, int b) __asm__("strtoul");
unsigned long vf_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long vf_strtoll(const char* s, char** e, int b) __asm__("strtoll");
long long vf_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long vf_strtoull(const char* s, char** e, int b) __asm__("strtoull");
unsigned long long vf_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int vf_atoi(const char* s) __asm__("atoi");
int vf_atoi(const char* s) { return (int)strtoll(s, nullptr, 10); }
int vf_pthread_mutex_lock(void*) __asm__("pthread_mutex_lock");
int vf_pthread_mutex_lock(void*) { return 0; }
int vf_pthread_mutex_unlock(void*) __asm__("pthread_mutex_unlock");
int vf_pthread_mutex_unlock(void*) { return 0; }
int vf_pthread_mutex_trylock(void*) __asm__("pthread_mutex_trylock");
int vf_pthread_mutex_trylock(void*) { return 0; }
int vf_pthread_once(int* c, void (*f)()) __asm__("pthread_once");
int vf_pthread_once(int* c, void (*f)()) { if (!*c) { *c = 1; f(); } return 0; }
int vf_pthread_cond_signal(void*) __asm__("pthread_cond_signal");
int vf_pthread_cond_signal(void*) { return 0; }
int vf_pthread_cond_broadcast(void*) __asm__("pthread_cond_broadcast");
int vf_pthread_cond_broadcast(void*) { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}

template class std::allocator<char>;
template class std::allocator<wchar_t>;

namespace std {
const nothrow_t nothrow{};
// ---- exceptions
static const char* dupStr(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupStr("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupStr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupStr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupStr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupStr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupStr("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define ERR(cls, base) cls::cls(const string& s) : base(s) {} cls::cls(const char* s) : base(s) {} cls::~cls() noexcept {}
ERR(domain_error, logic_error) ERR(invalid_argument, logic_error) ERR(length_error, logic_error) ERR(out_of_range, logic_error)
ERR(range_error, runtime_error) ERR(overflow_error, runtime_error) ERR(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { vf_fail("libstdc++ assertion"); abort(); }

// ---- red-black tree support (std::map, std::set)
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_GLIBCXX_PURE _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_GLIBCXX_PURE const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    auto* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    auto* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    auto*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto* xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            auto* y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
        } else {
            auto* y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto*& root = h._M_parent; auto*& leftmost = h._M_left; auto*& rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                auto* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
                }
            } else {
                auto* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
                }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
// ---- list support
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { auto* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hash table support (any deterministic policy will do)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 13; while (r < n) r = r * 2 + 1; const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = (size_t)(r * (double)_M_max_load_factor); return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t want = ne + ni + 1; if (want <= nb) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = nb; return {false, 0}; } return {true, _M_next_bkt(want < 2 * nb ? 2 * nb : want)}; }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { auto* b = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }

// ---- error categories
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int i) const { return __cow_string(message(i)); }
struct VfCat : error_category {
    const char* n;
    constexpr VfCat(const char* x) : n(x) {}
    const char* name() const noexcept override { return n; }
    std::string message(int i) const override { return i == 0 ? std::string("Success") : std::string("error ") + char('0' + (i / 100) % 10) + char('0' + (i / 10) % 10) + char('0' + i % 10); }
    error_condition default_error_condition(int i) const noexcept override { return error_condition(i, generic_category()); }
};
// constant-initialised: these functions are declared as having no side effect
[[clang::no_destroy]] constinit static VfCat vfGeneric("generic"), vfSystem("system");
const error_category& generic_category() noexcept { return vfGeneric; }
const error_category& system_category() noexcept { return vfSystem; }
} // namespace _V2
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

// ---- type_info
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
// ---- floating-point text is not modelled
} // namespace std

// text produced by std::vformat in log messages is not modelled: the format string stands for it
extern "C" {
struct VfSv { size_t n; const char* p; };
__attribute__((used, noinline)) void __vf_empty_string(std::string* ret) { new (ret) std::string(); }
}
