// libstdc++ pieces that live in libstdc++.so and are therefore not in the IR of
// the code under test.  Linked into the symbolic module only (native replay
// uses the real libstdc++).
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <climits>
#include <cstdio>
#include <cxxabi.h>
#include <exception>
#include <iostream>
#include <new>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <functional>
#include <mutex>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <cstring>

template class std::basic_string<char>;

namespace std {
// ---- red-black trees: an unbalanced binary search tree with the same links.
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0;
  x->_M_color = _S_black;  // the header alone is red
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static void transplant(_Rb_tree_node_base* u, _Rb_tree_node_base* v, _Rb_tree_node_base& h) {
  if (h._M_parent == u) h._M_parent = v;
  else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
  else u->_M_parent->_M_right = v;
  if (v) v->_M_parent = u->_M_parent;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (!z->_M_left) transplant(z, z->_M_right, h);
  else if (!z->_M_right) transplant(z, z->_M_left, h);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      transplant(y, y->_M_right, h);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    transplant(z, y, h);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else {
    _Rb_tree_node_base* x = h._M_parent;
    while (x->_M_left) x = x->_M_left;
    h._M_left = x;
    x = h._M_parent;
    while (x->_M_right) x = x->_M_right;
    h._M_right = x;
  }
  return z;
}
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) throw() {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() throw() {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) throw() {
  this->_M_next = p; this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() throw() {
  _List_node_base* const n = this->_M_next;
  _List_node_base* const p = this->_M_prev;
  p->_M_next = n; n->_M_prev = p;
}
// ---- hashed containers
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = n < 13 ? 13 : (n | 1);
  _M_next_resize = b;
  return b;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t b = _M_next_bkt(nb * 2 > ne + ni ? nb * 2 : ne + ni); return {b != nb, b}; }
  return {false, 0};
}
}  // namespace __detail
// any function of the bytes is a legal hash; the length keeps it concrete
size_t _Hash_bytes(const void*, size_t len, size_t) { return len; }
size_t _Fnv_hash_bytes(const void*, size_t len, size_t) { return len; }
}  // namespace std

// ---- streams
namespace std {
locale::locale() throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(0), _M_word(nullptr) {}
ios_base::~ios_base() {}
ostream cout((string*)nullptr), cerr((string*)nullptr), clog((string*)nullptr);
istream cin((string*)nullptr);
// ---- exceptions
__cow_string::__cow_string() : _M_p(nullptr) {}
static const char* dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string(const string& s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p ? dup(o._M_p, strlen(o._M_p)) : nullptr) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  if (this != &o) { free((void*)_M_p); _M_p = o._M_p ? dup(o._M_p, strlen(o._M_p)) : nullptr; }
  return *this;
}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
#define EXN(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
#define ROOT(T)                                                                                        \
  T::T(const string& s) : _M_msg(s) {}                                                                 \
  T::T(const char* s) : _M_msg(s, strlen(s)) {}                                                        \
  T::T(const T& o) noexcept : _M_msg(o._M_msg) {}                                                      \
  T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; }                            \
  T::T(T&& o) noexcept : _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}                               \
  T& T::operator=(T&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }     \
  T::~T() noexcept {}                                                                                  \
  const char* T::what() const noexcept { return _M_msg._M_p; }
ROOT(logic_error)
ROOT(runtime_error)
EXN(domain_error, logic_error)
EXN(invalid_argument, logic_error)
EXN(length_error, logic_error)
EXN(out_of_range, logic_error)
EXN(range_error, runtime_error)
EXN(overflow_error, runtime_error)
EXN(underflow_error, runtime_error)
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
const nothrow_t nothrow{};
// ---- call_once
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}  // namespace std
extern "C" {
char __libc_single_threaded = 0;
int pthread_once(int* c, void (*f)()) { if (!*c) { f(); *c = 2; } return 0; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
// ---- dynamic_cast: unique base classes
static const void* upcast_(const std::type_info* ti, const char* p, const std::type_info* dst);
void* __dynamic_cast(const void* p, const __cxxabiv1::__class_type_info*, const __cxxabiv1::__class_type_info* dst, ptrdiff_t) {
  const char* vt = *(const char* const*)p;
  const char* whole = (const char*)p + *(const ptrdiff_t*)(vt - 16);
  return (void*)upcast_(*(const std::type_info* const*)(vt - 8), whole, dst);
}
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const void* upcast_(const std::type_info* ti, const char* p, const std::type_info* dst) {
  if (ti == dst) return p;
  const char* k = *(const char* const*)ti;
  if (k == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return upcast_(((const __cxxabiv1::__si_class_type_info*)ti)->__base_type, p, dst);
  if (k == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
    auto* v = (const __cxxabiv1::__vmi_class_type_info*)ti;
    for (unsigned i = 0; i < v->__base_count; i++) {
      long f = v->__base_info[i].__offset_flags;
      ptrdiff_t off = f >> 8;
      if (f & 1) off = *(const ptrdiff_t*)(*(const char* const*)p + off);
      if (const void* r = upcast_(v->__base_info[i].__base_type, p + off, dst)) return r;
    }
  }
  return nullptr;
}
// ---- C library
static thread_local int errno_ = 0;
int* __errno_location() { return &errno_; }
#define CT(name, cond) int name(int c) { return (cond) ? 1 : 0; }
#define IN(a, b) ((unsigned)(c - a) <= (unsigned)(b - a))
CT(isdigit, IN('0', '9'))
CT(islower, IN('a', 'z'))
CT(isupper, IN('A', 'Z'))
CT(isalpha, IN('a', 'z') | IN('A', 'Z'))
CT(isalnum, IN('a', 'z') | IN('A', 'Z') | IN('0', '9'))
CT(isspace, (c == ' ') | IN(9, 13))
CT(isblank, (c == ' ') | (c == 9))
CT(isxdigit, IN('a', 'f') | IN('A', 'F') | IN('0', '9'))
CT(isprint, IN(32, 126))
CT(isgraph, IN(33, 126))
CT(iscntrl, IN(0, 31) | (c == 127))
CT(ispunct, IN(33, 126) & !(IN('a', 'z') | IN('A', 'Z') | IN('0', '9')))
int tolower(int c) { return IN('A', 'Z') ? c + 32 : c; }
int toupper(int c) { return IN('a', 'z') ? c - 32 : c; }
int strcasecmp(const char* a, const char* b) {
  for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n) {
  for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
  return 0;
}
char* strstr_(const char* h, const char* n) __asm__("strstr");
char* strrchr_(const char* s, int c) __asm__("strrchr");
char* strpbrk_(const char* s, const char* a) __asm__("strpbrk");
char* strstr_(const char* h, const char* n) {
  size_t m = 0;
  while (n[m]) m++;
  for (;; h++) {
    size_t i = 0;
    while (i < m && h[i] == n[i]) i++;
    if (i == m) return (char*)h;
    if (!*h) return nullptr;
  }
}
char* strrchr_(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
static bool among_(char c, const char* s) { for (; *s; s++) if (*s == c) return true; return false; }
char* strpbrk_(const char* s, const char* a) { for (; *s; s++) if (among_(*s, a)) return (char*)s; return nullptr; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && among_(s[n], a)) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !among_(s[n], a)) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strcat(char* d, const char* s) { char* e = d; while (*e) e++; strcpy(e, s); return d; }
char* strdup(const char* s) { size_t n = 0; while (s[n]) n++; char* p = (char*)malloc(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
void* memmem(const void* h, size_t n, const void* e, size_t m) {
  const char *a = (const char*)h, *b = (const char*)e;
  for (size_t i = 0; i + m <= n; i++) { size_t k = 0; while (k < m && a[i + k] == b[k]) k++; if (k == m) return (void*)(a + i); }
  return nullptr;
}
static bool parse_(const char* s, char** end, int base, bool& neg, unsigned long long& r, bool& over) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  neg = *p == '-';
  if (*p == '-' || *p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  bool any = false;
  r = 0; over = false;
  for (;; p++) {
    unsigned char c = *p;
    unsigned d = IN('0', '9') ? c - '0' : IN('a', 'z') ? c - 'a' + 10 : IN('A', 'Z') ? c - 'A' + 10 : 99;
    if (d >= (unsigned)base) break;
    any = true;
    unsigned __int128 t = (unsigned __int128)r * base + d;
    if (t >> 64) over = true;
    r = (unsigned long long)t;
  }
  if (end) *end = (char*)(any ? p : s);
  return any;
}
unsigned long long strtoull(const char* s, char** e, int base) {
  bool neg, over; unsigned long long r;
  if (!parse_(s, e, base, neg, r, over)) return 0;
  if (over) { errno_ = ERANGE; return ~0ull; }
  return neg ? 0 - r : r;
}
long long strtoll(const char* s, char** e, int base) {
  bool neg, over; unsigned long long r;
  if (!parse_(s, e, base, neg, r, over)) return 0;
  unsigned long long lim = (unsigned long long)LLONG_MAX + neg;
  if (over || r > lim) { errno_ = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; }
  return neg ? (long long)(0 - r) : (long long)r;
}
unsigned long strtoul(const char* s, char** e, int base) { return strtoull(s, e, base); }
long strtol(const char* s, char** e, int base) { return strtoll(s, e, base); }
double modf(double x, double* ip) { double t = __builtin_trunc(x); *ip = t; return __builtin_isinf(x) ? __builtin_copysign(0.0, x) : __builtin_copysign(x - t, x); }
double nextafter(double x, double y) {
  if (x != x || y != y) return x + y;
  if (x == y) return y;
  unsigned long long b;
  memcpy(&b, &x, 8);
  if ((b << 1) == 0) { b = 1 | (y < 0 ? 1ull << 63 : 0); }
  else if ((x < y) == (x > 0)) b++;
  else b--;
  memcpy(&x, &b, 8);
  return x;
}
long long llround(double x) { return (long long)__builtin_round(x); }
long lround(double x) { return (long)__builtin_round(x); }
long lrint(double x) { return (long)__builtin_rint(x); }
long long llrint(double x) { return (long long)__builtin_rint(x); }
double ldexp(double x, int n) {
  for (; n > 0; n--) { if (x == 0 || __builtin_isinf(x)) return x; x *= 2; }
  for (; n < 0; n++) { if (x == 0) return x; x /= 2; }
  return x;
}
div_t div(int a, int b) { return {a / b, a % b}; }
ldiv_t ldiv(long a, long b) { return {a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) { return {a / b, a % b}; }
int abs(int a) { return a < 0 ? -a : a; }
long labs(long a) { return a < 0 ? -a : a; }
long long llabs(long long a) { return a < 0 ? -a : a; }
double scalbn(double x, int n) { return ldexp(x, n); }
FILE *stderr, *stdout, *stdin;
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int fputc(int c, FILE*) { return c; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int fflush(FILE*) { return 0; }
}
