// Definitions, in C++ compiled to bitcode, for the parts of the C and C++
// runtime libraries that live in shared objects (and so have no IR).  They
// follow the documented behaviour of the library functions.
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <map>
#include <list>
#include <functional>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <memory>
#include <iosfwd>

extern "C" {
bool esx_is_symbolic(uint64_t);
size_t strlen(const char *s) noexcept { size_t n = 0; while(s[n]) ++n; return n; }
int memcmp(const void *a, const void *b, size_t n) noexcept
{
    auto *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for(size_t i = 0; i < n; ++i) if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) noexcept { return memcmp(a, b, n); }
int strcmp(const char *a, const char *b) noexcept
{
    while(*a && *a == *b) ++a, ++b;
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) noexcept
{
    for(size_t i = 0; i < n; ++i) {
        if(a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i];
        if(!a[i]) break;
    }
    return 0;
}
void *esx_memchr(const void *a, int c, size_t n) asm("memchr");
void *esx_memchr(const void *a, int c, size_t n)
{
    auto *x = (unsigned char *)a;
    for(size_t i = 0; i < n; ++i) if(x[i] == (unsigned char)c) return x + i;
    return nullptr;
}
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) noexcept { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int *esx_errno() asm("__errno_location");
int *esx_errno() { static int e; return &e; }
long esx_strtol(const char *s, char **end, int base) asm("strtol");
long esx_strtol(const char *s, char **end, int base)
{
    const char *p = s;
    while(isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if(*p == '-' || *p == '+') neg = *p++ == '-';
    unsigned long v = 0;
    bool any = false;
    for(;; ++p) {
        int d;
        if(*p >= '0' && *p <= '9') d = *p - '0';
        else if(*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
        else if(*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
        else break;
        if(d >= base) break;
        v = v * base + d;
        any = true;
    }
    if(end) *end = (char *)(any ? p : s);
    return neg ? -(long)v : (long)v;
}
unsigned long esx_strtoul(const char *s, char **end, int base) asm("strtoul");
unsigned long esx_strtoul(const char *s, char **end, int base) { return (unsigned long)esx_strtol(s, end, base); }
// the names that std::stoll and std::stoull come to in newer C libraries
long esx_strtoll(const char *s, char **end, int base) asm("__isoc23_strtoll");
long esx_strtoll(const char *s, char **end, int base) { return esx_strtol(s, end, base); }
unsigned long esx_strtoull(const char *s, char **end, int base) asm("__isoc23_strtoull");
unsigned long esx_strtoull(const char *s, char **end, int base) { return esx_strtoul(s, end, base); }
int esx_format = 0;
}

// ---- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}

static const char *dup(const char *s, size_t n)
{
    char *p = (char *)::operator new(n + 1);
    for(size_t i = 0; i < n; ++i) p[i] = s[i];
    p[n] = 0;
    return p;
}
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVED(c, b) \
    c::c(const string &s) : b(s) {} \
    c::c(const char *s) : b(s) {} \
    c::~c() noexcept {}
DERIVED(domain_error, logic_error)
DERIVED(invalid_argument, logic_error)
DERIVED(length_error, logic_error)
DERIVED(out_of_range, logic_error)
DERIVED(range_error, runtime_error)
DERIVED(overflow_error, runtime_error)
DERIVED(underflow_error, runtime_error)
system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __clang_call_terminate(void *);

// ---- red-black trees (same algorithms as libstdc++'s tree.cc)
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if(x->_M_right) {
        x = x->_M_right;
        while(x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while(x == y->_M_right) { x = y; y = y->_M_parent; }
        if(x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if(x->_M_left) {
        _Rb_tree_node_base *y = x->_M_left;
        while(y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while(x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }

static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root)
{
    auto *y = x->_M_right;
    x->_M_right = y->_M_left;
    if(y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if(x == root) root = y;
    else if(x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root)
{
    auto *y = x->_M_left;
    x->_M_left = y->_M_right;
    if(y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if(x == root) root = y;
    else if(x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if(left) {
        p->_M_left = x;
        if(p == &h) { h._M_parent = x; h._M_right = x; }
        else if(p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if(p == h._M_right) h._M_right = x;
    }
    while(x != root && x->_M_parent->_M_color == _S_red) {
        auto *xpp = x->_M_parent->_M_parent;
        if(x->_M_parent == xpp->_M_left) {
            auto *y = xpp->_M_right;
            if(y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            } else {
                if(x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red;
                rotR(xpp, root);
            }
        } else {
            auto *y = xpp->_M_left;
            if(y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            } else {
                if(x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red;
                rotL(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if(y->_M_left == 0) x = y->_M_right;
    else if(y->_M_right == 0) x = y->_M_left;
    else {
        y = y->_M_right;
        while(y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if(y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if(y != z->_M_right) {
            xp = y->_M_parent;
            if(x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if(root == z) root = y;
        else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if(x) x->_M_parent = y->_M_parent;
        if(root == z) root = x;
        else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if(leftmost == z) {
            if(z->_M_right == 0) leftmost = z->_M_parent;
            else { auto *m = x; while(m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if(rightmost == z) {
            if(z->_M_left == 0) rightmost = z->_M_parent;
            else { auto *m = x; while(m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if(y->_M_color != _S_red) {
        while(x != root && (x == 0 || x->_M_color == _S_black))
            if(x == xp->_M_left) {
                auto *w = xp->_M_right;
                if(w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
                } else {
                    if(w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if(w->_M_right) w->_M_right->_M_color = _S_black;
                    rotL(xp, root);
                    break;
                }
            } else {
                auto *w = xp->_M_left;
                if(w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
                } else {
                    if(w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if(w->_M_left) w->_M_left->_M_color = _S_black;
                    rotR(xp, root);
                    break;
                }
            }
        if(x) x->_M_color = _S_black;
    }
    return y;
}
// ---- lists and hash tables
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept
{
    if(this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if(n < sizeof(fast)) {
        if(n == 0) return 1;
        _M_next_resize = (size_t)((double)fast[n] * (double)_M_max_load_factor);
        return fast[n];
    }
    for(unsigned long p : primes)
        if(p >= n) { _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor); return p; }
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if(ne + ni > _M_next_resize) {
        double minb = (double)(_M_next_resize ? (ne + ni) : std::max<size_t>(ne + ni, 11)) / (double)_M_max_load_factor;
        if(minb >= nb) return {true, _M_next_bkt(std::max<size_t>((size_t)minb + 1, nb * 2))};
        _M_next_resize = (size_t)((double)nb * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
}
// MurmurHash64A, as libstdc++'s hash_bytes.cc on 64-bit targets
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed)
{
    const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    auto mix = [](size_t v) { return v ^ (v >> 47); };
    const unsigned char *buf = (const unsigned char *)ptr;
    const size_t aligned = len & ~(size_t)7;
    size_t hash = seed ^ (len * mul);
    for(size_t i = 0; i < aligned; i += 8) {
        size_t d = 0;
        for(int j = 7; j >= 0; --j) d = (d << 8) + buf[i + j];
        d = mix(d * mul) * mul;
        hash ^= d;
        hash *= mul;
    }
    if(len & 7) {
        size_t d = 0;
        for(int j = (int)(len & 7) - 1; j >= 0; --j) d = (d << 8) + buf[aligned + j];
        hash ^= d;
        hash *= mul;
    }
    hash = mix(hash) * mul;
    hash = mix(hash);
    return hash;
}
}

// type information of the fundamental types is emitted with this class
#include <cxxabi.h>
#include <cstdlib>
namespace __cxxabiv1 {
__fundamental_type_info::~__fundamental_type_info() {}
// leaves names as they are
extern "C" char *__cxa_demangle(const char *name, char *, size_t *, int *status)
{
    size_t n = 0;
    while(name[n]) ++n;
    char *r = (char *)malloc(n + 1);
    for(size_t i = 0; i <= n; ++i) r[i] = name[i];
    if(status) *status = 0;
    return r;
}
}
