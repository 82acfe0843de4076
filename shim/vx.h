// Harness interface. In the IR build these are implemented by the symbolic executor; in the native
// replay build (gcc, real libraries) by rt/native.cpp, which reads the counterexample from a file.
#pragma once
#include <string>
#include <cstring>
#include <vector>
extern "C" {
void __vx_sym(void* p, unsigned long elem, unsigned long n, const char* name);
void __vx_assume(int c);
void __vx_assert(int c, const char* msg);
void __vx_assert_close(double a, double b, double tol, const char* msg);
void __vx_fail(const char* msg) __attribute__((noreturn));
void __vx_cover(const char* name);
long __vx_fork(long v);
long __vx_param(const char* name, long dflt);
int __vx_mode();
void __vx_expect_abort(int on);
void __vx_end() __attribute__((noreturn));
void __vx_spawn(void (*fn)(void*), void* arg, int group);
void __vx_race_benign(int on);
void __vx_lock_mode(int on);  // teams synchronise through atomics: no race check, barriers release as soon as a team is complete
void __vx_join_all();
void __vx_barrier(unsigned long tag);
int __vx_thread();
long __vx_live_heap();
int __vx_valid(const void* p, unsigned long n);
void __vx_trace(const char* name, long v);
extern int vx_exact_fmt;
}
#define VX_ENTRY(name) extern "C" void name()
namespace vx {
template <class T> inline T sym(const char* name) { T v; __vx_sym(&v, sizeof(T), 1, name); return v; }
template <class T> inline void symArray(T* p, size_t n, const char* name) { __vx_sym(p, sizeof(T), n, name); }
// symbolic integer in [lo,hi] that stays symbolic
template <class T> inline T range(T lo, T hi, const char* name) {
  T v;
  if ((long)lo >= 0 && (long)hi <= 255) v = (T)sym<unsigned char>(name);
  else if ((long)lo >= -128 && (long)hi <= 127) v = (T)sym<signed char>(name);
  else if ((long)lo >= -32768 && (long)hi <= 32767) v = (T)sym<short>(name);
  else v = sym<T>(name);
  __vx_assume(v >= lo && v <= hi); return v; }
// one path per value
template <class T> inline T pick(T lo, T hi, const char* name) { T v = range<T>(lo, hi, name); return (T)__vx_fork((long)v); }
// the same bits (sameBits), or both NaN (sameNum); one expression, no case split
template <class T> inline bool sameBits(const T& a, const T& b) { if constexpr (sizeof(T) == 8) { unsigned long x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); return x == y; } else if constexpr (sizeof(T) == 4) { unsigned x, y; __builtin_memcpy(&x, &a, 4); __builtin_memcpy(&y, &b, 4); return x == y; } else { bool r = true; auto p = (const unsigned char*)&a; auto q = (const unsigned char*)&b; for (size_t i = 0; i < sizeof(T); i++) r &= p[i] == q[i]; return r; } }
template <class T> inline bool sameNum(const T& a, const T& b) { return sameBits(a, b) | ((a != a) & (b != b)); }
inline void assume(bool c) { __vx_assume(c); }
inline void check(bool c, const char* msg) { __vx_assert(c, msg); }
inline void cover(const char* n) { __vx_cover(n); }
inline long param(const char* n, long d = 0) { return __vx_param(n, d); }
// symbolic string of symbolic length 0..maxlen (one path per length); characters unconstrained
inline std::string str(size_t minlen, size_t maxlen, const char* name) {
  size_t n = pick<size_t>(minlen, maxlen, (std::string(name) + ".len").c_str());
  std::string s(n, 'x');
  if (n) __vx_sym(&s[0], 1, n, name);
  return s;
}
inline std::string strOf(size_t minlen, size_t maxlen, const char* alphabet, const char* name) {
  std::string s = str(minlen, maxlen, name);
  for (char c : s) { bool ok = false; for (const char* a = alphabet; *a; a++) ok |= (c == *a); assume(ok); }
  return s;
}
// as strOf, but one path per text
inline std::string strPick(size_t minlen, size_t maxlen, const char* alphabet, const char* name) {
  size_t n = pick<size_t>(minlen, maxlen, (std::string(name) + ".len").c_str()), k = std::strlen(alphabet);
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i++) s[i] = alphabet[pick<size_t>(0, k - 1, name)];
  return s;
}
// run f, report whether it threw
template <class F> inline bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }
}
