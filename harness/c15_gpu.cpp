//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=gpu_ub p.n=4
//@ case entry=gpu_ub p.n=7
//@ case entry=gpu_ub p.n=14 tier=thorough
//@ case entry=gpu_mm
//@ bounds the replacements used on devices (upper_bound, min, max, max_element), encoded as host code
#include "vx_team.h"
#define EKAT_ENABLE_GPU
#include "ekat_upper_bound.hpp"
#include "ekat_math_utils.hpp"
#undef EKAT_ENABLE_GPU
using namespace vx;
VX_ENTRY(gpu_ub) { int n = pick<int>(0, param("n"), "n"); double d[16], x = sym<double>("x"); symArray(d, n, "d"); for (int i = 0; i < n; i++) assume(d[i] == d[i]); assume(x == x); for (int i = 0; i + 1 < n; i++) assume(d[i] <= d[i + 1]); const double* b = d; auto* r = ekat::upper_bound(b, b + n, x); int k = (int)(r - b); check(k >= 0 && k <= n, "result inside the range"); if (k > 0) check(d[k - 1] <= x, "everything before the result is at most the key"); if (k < n) check(x < d[k], "the result is the first entry greater than the key"); cover("device upper bound"); }
VX_ENTRY(gpu_mm) { double a = sym<double>("a"), b = sym<double>("b"); assume(a == a && b == b); double lo = ekat::impl::min(a, b), hi = ekat::impl::max(a, b); check(lo <= a && lo <= b && (lo == a || lo == b), "device min"); check(hi >= a && hi >= b && (hi == a || hi == b), "device max"); int k = sym<int>("k"), l = sym<int>("l"); check(ekat::impl::min(k, l) == (k < l ? k : l) && ekat::impl::max(k, l) == (k < l ? l : k), "device min/max of ints"); int n = pick<int>(1, 5, "n"), v[5]; symArray(v, n, "v"); const int* m = ekat::impl::max_element(v, v + n); check(m >= v && m < v + n, "device max_element inside the range"); for (int i = 0; i < n; i++) check(v[i] <= *m, "device max_element is a largest entry");
  int lo2, hi2; ekat::impl::set_min_max(k, l, lo2, hi2); check(lo2 <= hi2 && ((lo2 == k && hi2 == l) || (lo2 == l && hi2 == k)), "set_min_max"); ekat::impl::set_min_max(k, l, lo2, hi2, 4); check(lo2 == (k < l ? k : l) / 4 && hi2 == (k < l ? l : k) / 4, "set_min_max with a vector size"); cover("device minmax"); }
