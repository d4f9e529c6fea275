// Runtime model linked into every encoded module: C++ library parts that live in libstdc++.so and
// are therefore not available as IR. Compiled with -fno-access-control.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <list>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <functional>
#include <memory>
#include <future>
#include "shim/sx.h"

// ------------------------------------------------------------------ harness pieces
extern "C" {
int sx_log_count[8];
double sx_rand01() { double v = sx_f64("rand01"); sx_assume((v >= 0) & (v < 1)); return v; }
uint64_t sx_rand64() { return (uint64_t)sx_i64("rand64"); }
int64_t sx_randint(int64_t lo, int64_t hi) {
  if (lo == hi) return lo;
  int64_t v = sx_i64("randint");
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
double sx_randreal() {
  double v = sx_f64("randreal");
  sx_assume((v > -40.) & (v < 40.));
  return v;
}
}
// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static const char *keep(const char *p, size_t n) {
  char *c = static_cast<char *>(::malloc(n + 1));
  ::memcpy(c, p, n);
  c[n] = 0;
  return c;
}
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string &s) : _M_p(keep(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(keep(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
#define SX_EXC0(T)                                                              \
  T::T(const std::string &s) : _M_msg(s) {}                                     \
  T::T(const char *s) : _M_msg(s, __builtin_strlen(s)) {}                       \
  T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) {}                 \
  T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; }     \
  T::T(T &&o) noexcept : _M_msg(o._M_msg) {}                                    \
  T &T::operator=(T &&o) noexcept { _M_msg = o._M_msg; return *this; }          \
  T::~T() noexcept {}                                                           \
  const char *T::what() const noexcept { return _M_msg._M_p; }
SX_EXC0(logic_error)
SX_EXC0(runtime_error)
#define SX_EXC1(T, B)                              \
  T::T(const std::string &s) : B(s) {}             \
  T::T(const char *s) : B(s) {}                    \
  T::~T() noexcept {}
SX_EXC1(domain_error, logic_error)
SX_EXC1(invalid_argument, logic_error)
SX_EXC1(length_error, logic_error)
SX_EXC1(out_of_range, logic_error)
SX_EXC1(range_error, runtime_error)
SX_EXC1(overflow_error, runtime_error)
SX_EXC1(underflow_error, runtime_error)
void __throw_bad_exception(void) { throw bad_exception(); }
void __throw_bad_alloc(void) { throw bad_alloc(); }
void __throw_bad_array_new_length(void) { throw bad_array_new_length(); }
void __throw_bad_cast(void) { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
// ------------------------------------------------------------------ red-black trees (unbalanced model
// would suffice semantically; this is the textbook algorithm)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// Nodes are linked without rebalancing (black everywhere but the header): order and identity of
// elements, all a client can observe, are the same.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right) leftmost = z->_M_parent;
      else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (!z->_M_left) rightmost = z->_M_parent;
      else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {}
static const size_t kPrimes[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t r = 57557;
  for (int i = 15; i >= 0; i--) if (kPrimes[i] >= n) r = kPrimes[i];
  _M_next_resize = r;
  return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t want = ne + ni + 1 > 2 * nb ? ne + ni + 1 : 2 * nb;
    if (want >= nb) return {true, _M_next_bkt(want > 11 ? want : 11)};
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h ^ static_cast<const unsigned char *>(p)[i]) * 1099511628211ull;
  return h;
}
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}  // namespace std
// ------------------------------------------------------------------ strings
template class std::__cxx11::basic_string<char>;
#if __cplusplus >= 201703L
#endif
// ------------------------------------------------------------------ number <-> text
static std::string sx_utoa(unsigned long long v, bool neg) {
  char b[24];
  int n = 24;
  if (!sx_is_conc((int64_t)v)) return "#";
  do { b[--n] = char('0' + v % 10); v /= 10; } while (v);
  if (neg) b[--n] = '-';
  return std::string(b + n, b + 24);
}
static std::string sx_itoa(long long v) {
  if (!sx_is_conc(v)) return "#";
  return v < 0 ? sx_utoa(0ull - (unsigned long long)v, true) : sx_utoa((unsigned long long)v, false);
}
#define SX_TOS(T, M, F) std::string sx_tos_##M(T v) asm("_ZNSt7__cxx119to_stringE" #M); std::string sx_tos_##M(T v) { return F; }
SX_TOS(int, i, sx_itoa(v)) SX_TOS(long, l, sx_itoa(v)) SX_TOS(long long, x, sx_itoa(v))
SX_TOS(unsigned, j, sx_utoa(v, false)) SX_TOS(unsigned long, m, sx_utoa(v, false)) SX_TOS(unsigned long long, y, sx_utoa(v, false))
SX_TOS(double, d, "0.#") SX_TOS(float, f, "0.#")
extern "C" {
static int sx_digit(int c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'z') ? c - 'a' + 10 : (c >= 'A' && c <= 'Z') ? c - 'A' + 10 : 99; }
long sx_strtol(const char *s, char **e, int base) asm("strtol");
long sx_strtol(const char *s, char **e, int base) {
  const char *p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && sx_digit((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  const char *d = p;
  unsigned long v = 0;
  bool ov = false;
  for (; sx_digit((unsigned char)*p) < base; p++) {
    unsigned long x = sx_digit((unsigned char)*p);
    if (v > (~0ul - x) / base) ov = true;
    else v = v * base + x;
  }
  if (e) *e = const_cast<char *>(p == d ? s : p);
  if (ov || v > 0x7fffffffffffffffull + (neg ? 1 : 0)) { *__errno_location() = ERANGE; return neg ? (long)(1ul << 63) : 0x7fffffffffffffffl; }
  return neg ? (long)(0ul - v) : (long)v;
}
#define SX_STRTO(n) long sx_a_##n(const char *s, char **e, int base) asm(#n); long sx_a_##n(const char *s, char **e, int base) { return sx_strtol(s, e, base); }
SX_STRTO(strtoll) SX_STRTO(__isoc23_strtol) SX_STRTO(__isoc23_strtoll)
// Decimal text to double: exact for up to 15 significant digits and small exponents (all the data
// the harnesses feed); more would need big arithmetic.
double strtod(const char *s, char **e) {
  const char *p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  bool neg = false, any = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  long m = 0;
  int ex = 0;
  for (; *p >= '0' && *p <= '9'; p++) { m = m * 10 + (*p - '0'); any = true; }
  if (*p == '.') {
    p++;
    for (; *p >= '0' && *p <= '9'; p++) { m = m * 10 + (*p - '0'); ex--; any = true; }
  }
  if (!any) { if (e) *e = const_cast<char *>(s); return 0; }
  if ((*p == 'e' || *p == 'E') && ((p[1] >= '0' && p[1] <= '9') || ((p[1] == '-' || p[1] == '+') && p[2] >= '0' && p[2] <= '9'))) {
    p++;
    bool en = false;
    if (*p == '+' || *p == '-') en = *p++ == '-';
    int x = 0;
    for (; *p >= '0' && *p <= '9'; p++) x = x * 10 + (*p - '0');
    ex += en ? -x : x;
  }
  if (e) *e = const_cast<char *>(p);
  double r = (double)m, t = 1;
  for (int i = 0; i < (ex < 0 ? -ex : ex); i++) t *= 10;
  r = ex < 0 ? r / t : r * t;
  return neg ? -r : r;
}
}
// ------------------------------------------------------------------ streams
// Only what the code under test uses of string streams; the objects keep libstdc++'s layout so that
// inlined accessors (precision, width) stay harmless. State hangs off the ios subobject.
struct SxStream { std::string buf; size_t pos = 0; bool fail = false, eof = false, hex = false; };
static long sx_vt_i[] = {120, 0, 0, 0}, sx_vt_o[] = {112, 0, 0, 0}, sx_vt_io[] = {128, 0, 0, 0}, sx_vt_io2[] = {112, 0, 0, 0};
static void sx_mk(void *o, int kind, const char *p, size_t n, bool ate) {
  char *c = static_cast<char *>(o);
  long off = kind == 0 ? 120 : kind == 1 ? 112 : 128;
  *reinterpret_cast<long **>(c) = (kind == 0 ? sx_vt_i : kind == 1 ? sx_vt_o : sx_vt_io) + 3;
  if (kind == 2) *reinterpret_cast<long **>(c + 16) = sx_vt_io2 + 3;
  SxStream *s = new SxStream;
  s->buf.assign(p, n);
  (void)ate;
  *reinterpret_cast<SxStream **>(c + off) = s;
  // libstdc++'s ios_base: field width, format flags, fill character
  *reinterpret_cast<long *>(c + off + 16) = 0;
  *reinterpret_cast<int *>(c + off + 24) = 4098;
  c[off + 224] = ' ';
  c[off + 225] = 1;
}
static void sx_rm(void *o, int kind) {
  char *c = static_cast<char *>(o);
  SxStream **s = reinterpret_cast<SxStream **>(c + (kind == 0 ? 120 : kind == 1 ? 112 : 128));
  delete *s;
  *s = nullptr;
}
static SxStream *sx_st(void *o) {
  long *vt = *reinterpret_cast<long **>(o);
  if (!vt) return nullptr;
  return *reinterpret_cast<SxStream **>(static_cast<char *>(o) + vt[-3]);
}
static SxStream *sx_ios(const void *ios) { return *static_cast<SxStream *const *>(ios); }
#define SX_NS "_ZNSt7__cxx11"
#define SX_STREAM(tag, mang, kind)                                                                                          \
  extern "C" void sx_##tag##_c1(void *o) asm(SX_NS mang "C1Ev"); void sx_##tag##_c1(void *o) { sx_mk(o, kind, "", 0, false); } \
  extern "C" void sx_##tag##_c1m(void *o, int m) asm(SX_NS mang "C1ESt13_Ios_Openmode"); void sx_##tag##_c1m(void *o, int) { sx_mk(o, kind, "", 0, false); } \
  extern "C" void sx_##tag##_c1s(void *o, const std::string &s, int m) asm(SX_NS mang "C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"); \
  void sx_##tag##_c1s(void *o, const std::string &s, int) { sx_mk(o, kind, s.data(), s.size(), false); }                      \
  extern "C" void sx_##tag##_d1(void *o) asm(SX_NS mang "D1Ev"); void sx_##tag##_d1(void *o) { sx_rm(o, kind); }
SX_STREAM(iss, "19basic_istringstreamIcSt11char_traitsIcESaIcEE", 0)
SX_STREAM(oss, "19basic_ostringstreamIcSt11char_traitsIcESaIcEE", 1)
SX_STREAM(ss, "18basic_stringstreamIcSt11char_traitsIcESaIcEE", 2)
static std::string sx_str(const void *o, int kind) {
  SxStream *s = *reinterpret_cast<SxStream *const *>(static_cast<const char *>(o) + (kind == 0 ? 120 : kind == 1 ? 112 : 128));
  return s->buf;
}
#define SX_STRF(tag, mang, kind)                                                                                            \
  std::string sx_##tag##_str(const void *o) asm("_ZNKSt7__cxx11" mang "3strEv"); std::string sx_##tag##_str(const void *o) { return sx_str(o, kind); } \
  extern "C" void sx_##tag##_sets(void *o, const std::string &s) asm("_ZNSt7__cxx11" mang "3strERKNS_12basic_stringIcS2_S3_EE"); \
  void sx_##tag##_sets(void *o, const std::string &s) { SxStream *t = sx_st(o); t->buf = s; t->pos = 0; }
SX_STRF(iss, "19basic_istringstreamIcSt11char_traitsIcESaIcEE", 0)
SX_STRF(oss, "19basic_ostringstreamIcSt11char_traitsIcESaIcEE", 1)
SX_STRF(ss, "18basic_stringstreamIcSt11char_traitsIcESaIcEE", 2)
// state queries (on the ios subobject)
extern "C" {
bool sx_fail_(const void *i) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool sx_fail_(const void *i) { SxStream *s = sx_ios(i); return s && s->fail; }
bool sx_not(const void *i) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool sx_not(const void *i) { SxStream *s = sx_ios(i); return s && s->fail; }
bool sx_bool_(const void *i) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool sx_bool_(const void *i) { SxStream *s = sx_ios(i); return !(s && s->fail); }
bool sx_eof(const void *i) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool sx_eof(const void *i) { SxStream *s = sx_ios(i); return s && s->eof; }
bool sx_good(const void *i) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool sx_good(const void *i) { SxStream *s = sx_ios(i); return !(s && (s->fail || s->eof)); }
void sx_setst(void *i, int st) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate");
void sx_setst(void *i, int st) { SxStream *s = sx_ios(i); if (s) { if (st & 5) s->fail = true; if (st & 2) s->eof = true; } }
void sx_clear(void *i, int st) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
void sx_clear(void *i, int st) { SxStream *s = sx_ios(i); if (s) { s->fail = st & 5; s->eof = st & 2; } }
// output
static char *sx_iosp(void *o) {
  long *vt = *reinterpret_cast<long **>(o);
  return vt && sx_st(o) ? static_cast<char *>(o) + vt[-3] : nullptr;
}
static bool sx_hexf(void *o) { char *i = sx_iosp(o); return i && (*reinterpret_cast<int *>(i + 24) & 8); }
static std::string sx_hexs(unsigned long v) {
  char b[17];
  int n = 0;
  do { b[16 - ++n] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
  return std::string(b + 16 - n, n);
}
void *sx_put(void *o, const char *p, size_t n) { SxStream *s = sx_st(o); if (s) s->buf.append(p, n); return o; }
static void *sx_padded(void *o, const char *p, size_t n) {
  char *i = sx_iosp(o);
  if (!i) return o;
  long w = *reinterpret_cast<long *>(i + 16);
  *reinterpret_cast<long *>(i + 16) = 0;
  const bool left = (*reinterpret_cast<int *>(i + 24) & 0xb0) == 0x20;
  if (left) sx_put(o, p, n);
  for (; w > (long)n; w--) sx_put(o, i + 224, 1);
  return left ? o : sx_put(o, p, n);
}
void *sx_os_insert(void *o, const char *p, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void *sx_os_insert(void *o, const char *p, long n) { return sx_padded(o, p, n); }
void *sx_os_cstr(void *o, const char *p) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void *sx_os_cstr(void *o, const char *p) { return sx_padded(o, p, strlen(p)); }
void *sx_os_ch(void *o, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void *sx_os_ch(void *o, char c) { return sx_padded(o, &c, 1); }
void *sx_os_str(void *o, const std::string &s) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void *sx_os_str(void *o, const std::string &s) { return sx_padded(o, s.data(), s.size()); }
void *sx_os_num(void *o, const std::string &s) { return sx_padded(o, s.data(), s.size()); }
#define SX_OSN(M, T, F) void *sx_os_##M(void *o, T v) asm("_ZNSolsE" #M); void *sx_os_##M(void *o, T v) { return sx_os_num(o, F); }
SX_OSN(i, int, sx_itoa(v)) SX_OSN(l, long, sx_itoa(v)) SX_OSN(x, long long, sx_itoa(v)) SX_OSN(s, short, sx_itoa(v))
SX_OSN(j, unsigned, (sx_hexf(o) ? sx_hexs(v) : sx_utoa(v, false))) SX_OSN(m, unsigned long, (sx_hexf(o) ? sx_hexs(v) : sx_utoa(v, false))) SX_OSN(y, unsigned long long, (sx_hexf(o) ? sx_hexs(v) : sx_utoa(v, false))) SX_OSN(t, unsigned short, (sx_hexf(o) ? sx_hexs(v) : sx_utoa(v, false)))
SX_OSN(b, bool, sx_itoa(v)) SX_OSN(d, double, "0.#") SX_OSN(f, float, "0.#")
#define SX_OSI(M, T, F) void *sx_osi_##M(void *o, T v) asm("_ZNSo9_M_insertI" #M "EERSoT_"); void *sx_osi_##M(void *o, T v) { return sx_os_num(o, F); }
SX_OSI(l, long, sx_itoa(v)) SX_OSI(m, unsigned long, (sx_hexf(o) ? sx_hexs(v) : sx_utoa(v, false))) SX_OSI(d, double, "0.#") SX_OSI(b, bool, sx_itoa(v)) SX_OSI(x, long long, sx_itoa(v)) SX_OSI(y, unsigned long long, (sx_hexf(o) ? sx_hexs(v) : sx_utoa(v, false)))
void *sx_os_manip(void *o, void *(*f)(void *)) asm("_ZNSolsEPFRSoS_E");
void *sx_os_manip(void *o, void *(*f)(void *)) { return f(o); }
void *sx_os_manipb(void *o, void *(*f)(void *)) asm("_ZNSolsEPFRSt8ios_baseS0_E");
void *sx_os_manipb(void *o, void *(*f)(void *)) {
  if (char *i = sx_iosp(o)) f(i);
  return o;
}
int sx_ios_setf2(void *i, int f, int m) asm("_ZNSt8ios_base4setfESt13_Ios_FmtflagsS0_");
int sx_ios_setf2(void *i, int f, int m) { int *p = reinterpret_cast<int *>(static_cast<char *>(i) + 24), old = *p; *p = (*p & ~m) | (f & m); return old; }
int sx_ios_setf1(void *i, int f) asm("_ZNSt8ios_base4setfESt13_Ios_Fmtflags");
int sx_ios_setf1(void *i, int f) { int *p = reinterpret_cast<int *>(static_cast<char *>(i) + 24), old = *p; *p |= f; return old; }
void *sx_os_endl(void *o) asm("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
void *sx_os_endl(void *o) { return sx_put(o, "\n", 1); }
void *sx_os_flush(void *o) asm("_ZNSo5flushEv");
void *sx_os_flush(void *o) { return o; }
void *sx_os_putc(void *o, char c) asm("_ZNSo3putEc");
void *sx_os_putc(void *o, char c) { return sx_put(o, &c, 1); }
void *sx_os_write(void *o, const char *p, long n) asm("_ZNSo5writeEPKcl");
void *sx_os_write(void *o, const char *p, long n) { return sx_put(o, p, n); }
void *sx_os_setw(void *o, int) asm("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw");
void *sx_os_setw(void *o, int n) { if (char *i = sx_iosp(o)) *reinterpret_cast<long *>(i + 16) = n; return o; }
void *sx_os_setp(void *o, int) asm("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision");
void *sx_os_setp(void *o, int) { return o; }
void *sx_os_setf(void *o, char) asm("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E");
void *sx_os_setf(void *o, char c) { if (char *i = sx_iosp(o)) i[224] = c; return o; }
// input
static bool sx_ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
void *sx_getline(void *o, std::string &out, char delim) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
void *sx_getline(void *o, std::string &out, char delim) {
  SxStream *s = sx_st(o);
  if (s->fail || s->eof) { s->fail = true; return o; }
  out.clear();
  bool any = false;
  for (;;) {
    if (s->pos >= s->buf.size()) { s->eof = true; break; }
    char c = s->buf[s->pos++];
    any = true;
    if (c == delim) break;
    out.push_back(c);
  }
  if (!any) s->fail = true;
  return o;
}
void *sx_getline1(void *o, std::string &out) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void *sx_getline1(void *o, std::string &out) { return sx_getline(o, out, '\n'); }
static bool sx_sentry(SxStream *s) {
  if (s->fail || s->eof) { s->fail = true; return false; }
  while (s->pos < s->buf.size() && sx_ws(s->buf[s->pos])) s->pos++;
  if (s->pos >= s->buf.size()) { s->eof = s->fail = true; return false; }
  return true;
}
void *sx_is_str(void *o, std::string &out) asm("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void *sx_is_str(void *o, std::string &out) {
  SxStream *s = sx_st(o);
  if (!sx_sentry(s)) return o;
  out.clear();
  while (s->pos < s->buf.size() && !sx_ws(s->buf[s->pos])) out.push_back(s->buf[s->pos++]);
  if (s->pos >= s->buf.size()) s->eof = true;
  return o;
}
void *sx_is_ch(void *o, char &c) asm("_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_");
void *sx_is_ch(void *o, char &c) {
  SxStream *s = sx_st(o);
  if (!sx_sentry(s)) return o;
  c = s->buf[s->pos++];
  return o;
}
static bool sx_isint(SxStream *s, long &v) {
  if (!sx_sentry(s)) return false;
  const char *b = s->buf.c_str() + s->pos;
  char *e;
  v = sx_strtol(b, &e, 10);
  if (e == b) { s->fail = true; v = 0; return false; }
  s->pos += e - b;
  if (s->pos >= s->buf.size()) s->eof = true;
  return true;
}
void *sx_is_i(void *o, int &r) asm("_ZNSirsERi");
void *sx_is_i(void *o, int &r) {
  SxStream *s = sx_st(o);
  long v;
  if (sx_isint(s, v)) {
    if (v > 2147483647l) { s->fail = true; r = 2147483647; }
    else if (v < -2147483648l) { s->fail = true; r = -2147483647 - 1; }
    else r = (int)v;
  } else if (!s->eof) r = 0;
  return o;
}
void *sx_is_u(void *o, unsigned &r) asm("_ZNSirsERj");
void *sx_is_u(void *o, unsigned &r) { SxStream *s = sx_st(o); long v; if (sx_isint(s, v)) r = (unsigned)v; else if (!s->eof) r = 0; return o; }
void *sx_is_d(void *o, double &r) asm("_ZNSi10_M_extractIdEERSiRT_");
void *sx_is_d(void *o, double &r) {
  SxStream *s = sx_st(o);
  if (!sx_sentry(s)) return o;
  const char *b = s->buf.c_str() + s->pos;
  char *e;
  double v = strtod(b, &e);
  if (e == b) { s->fail = true; r = 0; return o; }
  r = v;
  s->pos += e - b;
  if (s->pos >= s->buf.size()) s->eof = true;
  return o;
}
void *sx_is_d2(void *o, double &r) asm("_ZNSirsERd");
void *sx_is_d2(void *o, double &r) { return sx_is_d(o, r); }
int sx_is_peek(void *o) asm("_ZNSi4peekEv");
int sx_is_peek(void *o) {
  SxStream *s = sx_st(o);
  if (s->fail || s->eof) { s->fail = true; return -1; }
  if (s->pos >= s->buf.size()) { s->eof = true; return -1; }
  return (unsigned char)s->buf[s->pos];
}
int sx_is_get(void *o) asm("_ZNSi3getEv");
int sx_is_get(void *o) {
  SxStream *s = sx_st(o);
  if (s->fail || s->eof || s->pos >= s->buf.size()) { s->eof = s->fail = true; return -1; }
  return (unsigned char)s->buf[s->pos++];
}
void *sx_is_ws(void *o) asm("_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_");
void *sx_is_ws(void *o) { SxStream *s = sx_st(o); while (s->pos < s->buf.size() && sx_ws(s->buf[s->pos])) s->pos++; if (s->pos >= s->buf.size()) s->eof = true; return o; }
void *sx_is_manip(void *o, void *(*f)(void *)) asm("_ZNSirsEPFRSiS_E");
void *sx_is_manip(void *o, void *(*f)(void *)) { return f(o); }
long sx_is_tellg(void *o) asm("_ZNSi5tellgEv");
long sx_is_tellg(void *o) { SxStream *s = sx_st(o); return s->fail ? -1 : (long)s->pos; }
}
extern "C" char *strerror(int) noexcept { static char m[] = "error"; return m; }
