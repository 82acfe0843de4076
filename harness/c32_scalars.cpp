//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=sc_minmax fp=ieee
//@ case entry=sc_maxel fp=ieee p.n=4
//@ case entry=sc_maxel fp=ieee p.n=6 tier=thorough
//@ case entry=sc_class fp=ieee
//@ case entry=sc_invalid
//@ case entry=sc_rel fp=real
//@ case entry=sc_where fp=uf
//@ case entry=sc_str p.L=3
//@ case entry=sc_str p.L=5 tier=thorough
//@ variant dev -DVX_DEV
//@ case entry=sc_minmax fp=ieee variant=dev
//@ case entry=sc_maxel fp=ieee p.n=4 variant=dev
//@ case entry=sc_str p.L=3 variant=dev
//@ case entry=sc_str p.L=5 variant=dev tier=thorough
//@ case entry=sc_where fp=uf variant=dev
//@ bounds all doubles, floats and ints (not-a-number and signed zeros included where the standard defines the result); arrays of up to 4 (thorough 6) entries; texts of up to 3 (thorough 5) arbitrary characters; both the host build and the replacements used on devices (encoded as host code)
#include "vx_team.h"
#ifdef VX_DEV
#define EKAT_ENABLE_GPU
#endif
#include "ekat_math_utils.hpp"
#include "ekat_kokkos_str_utils.hpp"
#undef EKAT_ENABLE_GPU
#include "ekat_where.hpp"
#include <algorithm>
#include <limits>
using namespace vx; using std::string;
template <class T> static unsigned long bits(T d) { unsigned long u = 0; memcpy(&u, &d, sizeof d); return u; }
VX_ENTRY(sc_minmax) { double a = sym<double>("a"), b = sym<double>("b"); check(bits(ekat::impl::min(a, b)) == bits(b < a ? b : a), "min"); check(bits(ekat::impl::max(a, b)) == bits(a < b ? b : a), "max"); int k = sym<int>("k"), l = sym<int>("l"), lo, hi; check(ekat::impl::min(k, l) == (l < k ? l : k) && ekat::impl::max(k, l) == (k < l ? l : k), "integer min and max"); ekat::impl::set_min_max(k, l, lo, hi); check(lo <= hi && ((lo == k && hi == l) || (lo == l && hi == k)), "set_min_max"); assume(k > -1000 && k < 1000 && l > -1000 && l < 1000); int vs = pick<int>(1, 4, "vector size"); ekat::impl::set_min_max(k, l, lo, hi, vs); check(lo == (k < l ? k : l) / vs && hi == (k < l ? l : k) / vs, "set_min_max with a vector size"); cover("minmax"); }
VX_ENTRY(sc_maxel) { int n = pick<int>(1, param("n"), "n"); double d[8]; symArray(d, n, "d"); for (int i = 0; i < n; i++) assume(d[i] == d[i]); const double *b = d, *e = d + n; auto r = ekat::impl::max_element(b, e); long p = r - b; check(p >= 0 && p < n, "position of the largest entry"); int m = 0; for (int i = 1; i < n; i++) if (d[m] < d[i]) m = i; check(p == m, "the first of the largest entries"); cover("max_element"); }
VX_ENTRY(sc_class) { double d = sym<double>("d"); float f = sym<float>("f"); unsigned long u = bits(d), g = bits(f); bool dn = (u << 1) > (0x7ffUL << 53), df = ((u >> 52) & 0x7ff) != 0x7ff, fn = ((g << 33) > (0xffUL << 56)), ff = ((g >> 23) & 0xff) != 0xff; check(ekat::impl::is_nan(d) == dn && ekat::impl::is_nan(f) == fn, "is_nan"); check(ekat::impl::isfinite(d) == df && ekat::impl::isfinite(f) == ff, "isfinite"); cover(dn ? "nan" : df ? "finite" : "infinite"); }
VX_ENTRY(sc_invalid) { double d = ekat::invalid<double>(); float f = ekat::invalid<float>(); check(d != d && f != f, "invalid real"); check(ekat::invalid<int>() == 2147483647 && ekat::invalid<long>() == 9223372036854775807L && ekat::invalid<unsigned>() == 4294967295u && ekat::invalid<char>() == std::numeric_limits<char>::max() && ekat::invalid<short>() == 32767, "invalid integer"); cover("invalid"); }
template <class V> static void where_() { V v = sym<V>("v"), s = sym<V>("s"), o = v; bool m = sym<unsigned char>("mask") & 1; int op = pick<int>(0, 9, "op"); auto w = ekat::where(m, v); check(w.any() == m && w.all() == m && w.none() == !m && w.mask() == m && &w.value() == &v, "mask"); if (op < 5) { V* r = nullptr; V x = o; if (op == 0) { r = &(w = s); x = s; } if (op == 1) { r = &(w += s); x += s; } if (op == 2) { r = &(w -= s); x -= s; } if (op == 3) { r = &(w *= s); x *= s; } if (op == 4) { assume(s != 0); if (!std::is_floating_point<V>::value) assume(s > 0); r = &(w /= s); x /= s; } check(r == &v && bits(v) == bits(m ? x : o), "masked update"); }
  else { V l = s, x = s; if (op == 5) { l += w; x += o; } if (op == 6) { l -= w; x -= o; } if (op == 7) { l *= w; x *= o; } if (op == 8) { if (!std::is_floating_point<V>::value) assume(o > 0); l /= w; x /= o; } if (op < 9) check(bits(l) == bits(m ? x : s) && bits(v) == bits(o), "update by a masked value"); else { assume(v == v && s == s); V hi = ekat::max(w, s), lo = ekat::min(w, s); check(m ? hi >= s && hi >= v && (hi == s || hi == v) : bits(hi) == bits(s), "masked max"); check(m ? lo <= s && lo <= v && (lo == s || lo == v) : bits(lo) == bits(s), "masked min"); } } cover(m ? "on" : "off"); }
VX_ENTRY(sc_where) { if (pick<int>(0, 1, "type")) where_<double>(); else where_<int>(); }
VX_ENTRY(sc_str) { int L = param("L"), n = pick<int>(0, L, "n"), k = pick<int>(0, L, "k"); char a[12], b[12], c[12]; symArray(a, n, "a"); symArray(b, k, "b"); a[n] = b[k] = 0; size_t la = 0; for (int i = n - 1; i >= 0; i--) la = a[i] ? la + 1 : 0; check(ekat::impl::strlen(a) == la, "strlen"); memset(c, 7, sizeof c); ekat::impl::strcpy(c, a); bool eq = true, rest = true; for (int i = 0; i < 12; i++) { if ((size_t)i <= la) eq &= c[i] == a[i]; else rest &= c[i] == 7; } check(eq, "strcpy copies the text and its end"); check(rest, "strcpy writes nothing else"); int r = ekat::impl::strcmp(a, b), x = 0; int m = n < k ? n : k; for (int i = m; i >= 0; i--) { unsigned char p = a[i], q = b[i]; x = p != q ? (p < q ? -1 : 1) : p ? x : 0; } check((r < 0) == (x < 0) && (r > 0) == (x > 0), "strcmp orders texts by their unsigned characters"); cover("strings"); }
// over the reals: relative difference
VX_ENTRY(sc_rel) { double a = sym<double>("a"), b = sym<double>("b"); assume(a != 0); double r = ekat::impl::rel_diff(a, b), m = a < 0 ? -a : a, d = b - a; check(r >= 0, "never negative"); check(r * m == (d < 0 ? -d : d), "|b - a| relative to |a|"); cover(a < 0 ? "negative reference" : "positive reference"); }
