// Runtime pieces of libstdc++/libc that have no IR; linked into every IR module.
#include <bits/c++config.h>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <cerrno>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <bits/hashtable_policy.h>
extern "C" {
int vx_exact_fmt = 0;
typedef unsigned long ul;
#pragma clang diagnostic ignored "-Wbuiltin-requires-header"
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
static int lo_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lo_((unsigned char)*a) == lo_((unsigned char)*b)) { a++; b++; } return lo_((unsigned char)*a) - lo_((unsigned char)*b); }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
const char* vx_strchr(const char* s, int c) __asm__("strchr");
const char* vx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
const char* vx_strrchr(const char* s, int c) __asm__("strrchr");
const char* vx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return r; } }
const char* vx_strstr(const char* h, const char* n) __asm__("strstr");
const char* vx_strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return h; if (!*h) return nullptr; } }
int __vx_is_symbolic_val(ul v);
const void* vx_memchr(const void* s, int c, size_t n) __asm__("memchr");
const void* vx_memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s; unsigned char k = (unsigned char)c;
  if (__vx_is_symbolic_val(k) && n <= 64) { // a symbolic character searched in fixed text (find_first_not_of ...): one case split, not one per position
    ul idx = n; for (size_t i = n; i-- > 0;) idx = p[i] == k ? i : idx; if (idx == n) return nullptr; return p + idx; }
  for (size_t i = 0; i < n; i++) if (p[i] == k) return p + i; return nullptr; }
static int vx_errno_ = 0;
int* vx_errno_loc() __asm__("__errno_location");
int* vx_errno_loc() { return &vx_errno_; }
static bool sp_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned dig_(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
long vx_strtol(const char* s, char** e, int base) __asm__("strtol");
long vx_strtol(const char* s, char** e, int base) {
  const char* p = s; while (sp_(*p)) p++;
  bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  ul v = 0; bool any = false, ov = false; ul lim = neg ? 9223372036854775808ul : 9223372036854775807ul;
  if (base == 10) { for (; *p >= '0' && *p <= '9'; p++) { any = true; ul d = *p - '0'; if (v > (lim - d) / 10) ov = true; else v = v * 10 + d; } }
  else {
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && dig_(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    for (; dig_(*p) < (unsigned)base; p++) { any = true; ul d = dig_(*p); if (v > (lim - d) / base) ov = true; else v = v * base + d; } }
  if (e) *e = (char*)(any ? p : s);
  if (ov) { vx_errno_ = ERANGE; return neg ? (-9223372036854775807L - 1) : 9223372036854775807L; }
  return neg ? (long)(0ul - v) : (long)v;
}
long vx_strtoll(const char* s, char** e, int base) __asm__("strtoll");
long vx_strtoll(const char* s, char** e, int base) { return vx_strtol(s, e, base); }
long vx_iso_strtol(const char* s, char** e, int base) __asm__("__isoc23_strtol");
long vx_iso_strtol(const char* s, char** e, int base) { return vx_strtol(s, e, base); }
long vx_iso_strtoll(const char* s, char** e, int base) __asm__("__isoc23_strtoll");
long vx_iso_strtoll(const char* s, char** e, int base) { return vx_strtol(s, e, base); }
ul vx_strtoul(const char* s, char** e, int base) __asm__("strtoul");
ul vx_strtoul(const char* s, char** e, int base) {
  const char* p = s; while (sp_(*p)) p++;
  bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  ul v = 0; bool any = false, ov = false;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && dig_(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  for (; dig_(*p) < (unsigned)base; p++) { any = true; ul d = dig_(*p); if (v > (~0ul - d) / base) ov = true; else v = v * base + d; }
  if (e) *e = (char*)(any ? p : s);
  if (ov) { vx_errno_ = ERANGE; return ~0ul; }
  return neg ? 0ul - v : v;
}
ul vx_strtoull(const char* s, char** e, int base) __asm__("strtoull");
ul vx_strtoull(const char* s, char** e, int base) { return vx_strtoul(s, e, base); }
ul vx_iso_strtoul(const char* s, char** e, int base) __asm__("__isoc23_strtoul");
ul vx_iso_strtoul(const char* s, char** e, int base) { return vx_strtoul(s, e, base); }
ul vx_iso_strtoull(const char* s, char** e, int base) __asm__("__isoc23_strtoull");
ul vx_iso_strtoull(const char* s, char** e, int base) { return vx_strtoul(s, e, base); }
void vx_qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*)) __asm__("qsort");
void vx_qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*)) {
  char* a = (char*)b;
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(a + (j - 1) * w, a + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = a[j * w + k]; a[j * w + k] = a[(j - 1) * w + k]; a[(j - 1) * w + k] = t; } }
int vx_atoi(const char* s) __asm__("atoi");
int vx_atoi(const char* s) { return (int)vx_strtol(s, nullptr, 10); }
double __vx_parse_double(const char* p, unsigned long n);
// hooks through which a harness models conversions of symbolic numbers (see c26_yaml_write.cpp)
double (*vx_parse_hook)(const char*, unsigned long) = nullptr;
int (*vx_fmt_hook)(double, int, unsigned, char*, int) = nullptr;
// decimal floating literals, "inf"/"infinity"/"nan" (any case); hexadecimal floats are not modelled
double vx_strtod(const char* s, char** e) __asm__("strtod");
double vx_strtod(const char* s, char** e) {
  const char* p = s; while (sp_(*p)) p++;
  const char* st = p; bool neg = false;
  if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if (lo_(*p) == 'i' && lo_(p[1]) == 'n' && lo_(p[2]) == 'f') {
    p += 3; if (lo_(*p) == 'i' && lo_(p[1]) == 'n' && lo_(p[2]) == 'i' && lo_(p[3]) == 't' && lo_(p[4]) == 'y') p += 5;
    if (e) *e = (char*)p; return neg ? -__builtin_inf() : __builtin_inf(); }
  if (lo_(*p) == 'n' && lo_(p[1]) == 'a' && lo_(p[2]) == 'n') { if (e) *e = (char*)(p + 3); return __builtin_nan(""); }
  bool mant = false;
  while (*p >= '0' && *p <= '9') { mant = true; p++; }
  if (*p == '.') { p++; while (*p >= '0' && *p <= '9') { mant = true; p++; } }
  if (!mant) { if (e) *e = (char*)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
  if (e) *e = (char*)p;
  double v = vx_parse_hook ? vx_parse_hook(st, p - st) : __vx_parse_double(st, p - st);
  if (v > 1.7976931348623157e308 || v < -1.7976931348623157e308) vx_errno_ = ERANGE;
  return v;
}
float vx_strtof(const char* s, char** e) __asm__("strtof");
float vx_strtof(const char* s, char** e) { return (float)vx_strtod(s, e); }
int __vx_fmt_double(double d, int prec, unsigned flags, char* buf, int n);
int vx_vsnprintf(char* b, size_t cap, const char* f, __builtin_va_list ap) __asm__("vsnprintf");
int vx_vsnprintf(char* b, size_t cap, const char* f, __builtin_va_list ap) {
  size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) b[n] = c; n++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; bool left = false, plus = false, zero = false, alt = false, space = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
    int wid = 0, prec = -1;
    if (*f == '*') { wid = __builtin_va_arg(ap, int); if (wid < 0) { left = true; wid = -wid; } f++; } else while (*f >= '0' && *f <= '9') wid = wid * 10 + (*f++ - '0');
    if (*f == '.') { prec = 0; f++; if (*f == '*') { prec = __builtin_va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lg = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lg = 1; else if (*f == 'h') lg = lg == -1 ? -2 : -1; else break; }
    char t[420]; const char* q = t; size_t m = 0; char sg = 0; const char* px = ""; bool num = true;
    char c = *f;
    if (c == '%') { put('%'); continue; }
    if (c == 'c') { t[0] = (char)__builtin_va_arg(ap, int); m = 1; num = false; }
    else if (c == 's') { q = __builtin_va_arg(ap, const char*); while ((prec < 0 || m < (size_t)prec) && q[m]) m++; num = false; }
    else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      ul v; bool sgn = c == 'd' || c == 'i';
      if (c == 'p') { v = __builtin_va_arg(ap, ul); px = "0x"; c = 'x'; }
      else if (sgn) { long s = lg == 1 ? __builtin_va_arg(ap, long) : (long)__builtin_va_arg(ap, int); if (lg == -1) s = (short)s; if (lg == -2) s = (signed char)s;
        if (!vx_exact_fmt && __vx_is_symbolic_val((ul)s)) { q = "<sym>"; m = 5; num = false; v = 0; } else { if (s < 0) { sg = '-'; v = 0ul - (ul)s; } else { v = (ul)s; sg = plus ? '+' : space ? ' ' : 0; } } }
      else { v = lg == 1 ? __builtin_va_arg(ap, ul) : (ul)__builtin_va_arg(ap, unsigned); if (lg == -1) v = (unsigned short)v; if (lg == -2) v = (unsigned char)v; if (!vx_exact_fmt && __vx_is_symbolic_val(v)) { q = "<sym>"; m = 5; num = false; } else if (alt && v) px = c == 'x' ? "0x" : c == 'X' ? "0X" : c == 'o' ? "0" : ""; }
      if (num) { unsigned base = c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : 10; int i = 80; if (v == 0 && prec == 0) {} else do { unsigned d = v % base; t[--i] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
        while (80 - i < prec && i > 0) t[--i] = '0'; if (prec >= 0) zero = false; q = t + i; m = 80 - i; }
    } else if (c == 'f' || c == 'F' || c == 'e' || c == 'g' || c == 'a') {
      double d = __builtin_va_arg(ap, double); unsigned fl = (c == 'f' || c == 'F' ? 4u : c == 'e' ? 256u : c == 'a' ? 260u : 0u) | (alt ? 1024u : 0u) | (plus ? 2048u : 0u);
      int r = vx_fmt_hook ? vx_fmt_hook(d, prec < 0 ? 6 : prec, fl, t, 400) : -1; if (r < 0) r = __vx_fmt_double(d, prec < 0 ? 6 : prec, fl, t, 400); m = r;
      if (m && (t[0] == '-' || t[0] == '+')) { sg = t[0]; q = t + 1; m--; } else if (space) sg = ' ';
    } else if (c == 'n' || !c) { __builtin_trap(); }
    else __builtin_trap();
    size_t pl = 0; while (px[pl]) pl++;
    size_t len = m + pl + (sg ? 1 : 0), pad = (size_t)wid > len ? wid - len : 0;
    if (!left && !(zero && num)) while (pad) { put(' '); pad--; }
    if (sg) put(sg);
    for (size_t i = 0; i < pl; i++) put(px[i]);
    if (!left) while (pad) { put('0'); pad--; }
    for (size_t i = 0; i < m; i++) put(q[i]);
    while (pad) { put(' '); pad--; }
  }
  if (cap) b[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int vx_snprintf(char* b, size_t cap, const char* f, ...) __asm__("snprintf");
int vx_snprintf(char* b, size_t cap, const char* f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vx_vsnprintf(b, cap, f, ap); __builtin_va_end(ap); return r; }
int vx_sprintf(char* b, const char* f, ...) __asm__("sprintf");
int vx_sprintf(char* b, const char* f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vx_vsnprintf(b, 1000000, f, ap); __builtin_va_end(ap); return r; }
char* vx_getenv(const char*) __asm__("getenv");
char* vx_getenv(const char*) { return nullptr; }
}
template class std::basic_string<char>;
// ------------------------------------------------------------------ exceptions
namespace {
struct Exc { void** vp; char* msg; };
const char* dup_(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
const char* excWhat(const Exc* e) { return e->msg; }
const char* genWhat(const Exc*) { return "std::exception"; }
void excDtor(Exc*) {}
void* excVt[] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)excWhat};
void* genVt[] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)genWhat};
}
#define STR "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
#define EXC(id, M) \
  extern "C" void id##_s1(Exc* e, const std::string& s) __asm__("_ZN" M "C1ERK" STR); void id##_s1(Exc* e, const std::string& s) { e->vp = excVt + 2; e->msg = (char*)dup_(s.data(), s.size()); } \
  extern "C" void id##_s2(Exc* e, const std::string& s) __asm__("_ZN" M "C2ERK" STR); void id##_s2(Exc* e, const std::string& s) { e->vp = excVt + 2; e->msg = (char*)dup_(s.data(), s.size()); } \
  extern "C" void id##_c1(Exc* e, const char* s) __asm__("_ZN" M "C1EPKc"); void id##_c1(Exc* e, const char* s) { e->vp = excVt + 2; e->msg = (char*)dup_(s, strlen(s)); } \
  extern "C" void id##_c2(Exc* e, const char* s) __asm__("_ZN" M "C2EPKc"); void id##_c2(Exc* e, const char* s) { e->vp = excVt + 2; e->msg = (char*)dup_(s, strlen(s)); } \
  extern "C" void id##_k1(Exc* e, const Exc* o) __asm__("_ZN" M "C1ERKS_"); void id##_k1(Exc* e, const Exc* o) { e->vp = excVt + 2; e->msg = o->msg; } \
  extern "C" void id##_k2(Exc* e, const Exc* o) __asm__("_ZN" M "C2ERKS_"); void id##_k2(Exc* e, const Exc* o) { e->vp = excVt + 2; e->msg = o->msg; } \
  extern "C" void id##_d1(Exc* e) __asm__("_ZN" M "D1Ev"); void id##_d1(Exc* e) {} \
  extern "C" void id##_d2(Exc* e) __asm__("_ZN" M "D2Ev"); void id##_d2(Exc* e) {} \
  extern "C" void id##_d0(Exc* e) __asm__("_ZN" M "D0Ev"); void id##_d0(Exc* e) {}
EXC(logic, "St11logic_error") EXC(runtime, "St13runtime_error") EXC(inv, "St16invalid_argument") EXC(oor, "St12out_of_range")
EXC(len, "St12length_error") EXC(dom, "St12domain_error") EXC(rng, "St11range_error") EXC(ovf, "St14overflow_error") EXC(unf, "St15underflow_error")
#define WHAT(id, M, f) extern "C" const char* id##_w(const Exc* e) __asm__("_ZNK" M "4whatEv"); const char* id##_w(const Exc* e) { return f; }
WHAT(logic, "St11logic_error", e->msg) WHAT(runtime, "St13runtime_error", e->msg) WHAT(exc, "St9exception", "std::exception") WHAT(ba, "St9bad_alloc", "std::bad_alloc") WHAT(bc, "St8bad_cast", "std::bad_cast")
#define DTOR(id, M) extern "C" void id##_d1(Exc* e) __asm__("_ZN" M "D1Ev"); void id##_d1(Exc* e) {} extern "C" void id##_d2(Exc* e) __asm__("_ZN" M "D2Ev"); void id##_d2(Exc* e) {} extern "C" void id##_d0(Exc* e) __asm__("_ZN" M "D0Ev"); void id##_d0(Exc* e) {}
DTOR(exc, "St9exception") DTOR(ba, "St9bad_alloc") DTOR(bc, "St8bad_cast") DTOR(bf, "St17bad_function_call")
extern "C" void* vtExc[5] __asm__("_ZTVSt9exception"); void* vtExc[5] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)genWhat};
extern "C" void* vtBa[5] __asm__("_ZTVSt9bad_alloc"); void* vtBa[5] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)genWhat};
extern "C" void* vtBc[5] __asm__("_ZTVSt8bad_cast"); void* vtBc[5] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)genWhat};
extern "C" void* vtBf[5] __asm__("_ZTVSt17bad_function_call"); void* vtBf[5] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)genWhat};
extern "C" void* vtRe[5] __asm__("_ZTVSt13runtime_error"); void* vtRe[5] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)excWhat};
extern "C" void* vtLe[5] __asm__("_ZTVSt11logic_error"); void* vtLe[5] = {nullptr, nullptr, (void*)excDtor, (void*)excDtor, (void*)excWhat};
namespace std {
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
// ------------------------------------------------------------------ red-black tree (as in libstdc++)
static void rotl_(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y; }
static void rotr_(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  auto& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      auto const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl_(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr_(xpp, root); }
    } else {
      auto const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr_(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl_(xpp, root); }
    }
  }
  root->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto& root = h._M_parent; auto& lm = h._M_left; auto& rm = h._M_right;
  auto y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl_(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr_(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl_(xp, root); break; }
      } else {
        auto w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr_(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl_(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr_(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { auto a = x._M_next, b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = 2 * b + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const {
  if (ne + ins > _M_next_resize || nb < ne + ins) { size_t b = _M_next_bkt(ne + ins + 1); if (b > nb) return {true, b}; } return {false, 0}; }
}
size_t _Hash_bytes(const void*, size_t, size_t) { return 7; } // any hash function is admissible; one bucket for all strings
}
