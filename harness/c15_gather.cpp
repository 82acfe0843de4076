//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=gather1
//@ case entry=gather2
//@ case entry=gatherhi
//@ case entry=shift1
//@ case entry=shift_oob
//@ case entry=diff_scalar
//@ case entry=diff_pack p.N=1
//@ case entry=diff_pack p.N=2
//@ case entry=diff_pack p.N=4
//@ case entry=diff_provider
//@ case entry=ubound p.n=4
//@ case entry=ubound p.n=7
//@ case entry=ubound_dup
//@ case entry=ubound_ptr
//@ case entry=ubound p.n=14 tier=thorough
//@ bounds arrays of 4 entries (rank 1), 3x4 (rank 2), up to 2x2x3x2x2 (rank 5), index packs of 1, 2 and 4, indices enumerated by forking (all combinations at rank 1 and 2); adjacent differences of arrays of 1..3 packs (pack lengths 1, 2, 4) and 1..5 scalars, values unrestricted (NaNs equal); upper bound over sorted arrays of 0..7 entries (thorough: 14), any key
//@ outside index_and_shift with out-of-range indices in a release build (reads outside the array by design)
#include "vx_team.h"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_upper_bound.hpp"
using namespace ekat; using namespace vx;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D> using V = Kokkos::View<D, Kokkos::LayoutRight, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
static bool same(double a, double b) { unsigned long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (x == y) | ((a != a) & (b != b)); }
template <int N> static Pack<int, N> idx(int hi, int* v, const char* nm) { Pack<int, N> p; for (int s = 0; s < N; s++) p[s] = v[s] = pick<int>(0, hi - 1, nm); return p; }
// two lanes at different positions: the second lane is the first one moved cyclically
static Pack<int, 2> idx2(int hi, int* v, const char* nm) { Pack<int, 2> p; p[0] = v[0] = pick<int>(0, hi - 1, nm); p[1] = v[1] = (v[0] + 1) % hi; return p; }
VX_ENTRY(gather1) { double d[4]; symArray(d, 4, "d"); V<const double*> v(d, 4); { int k[4]; auto p = idx<4>(4, k, "i"); auto r = index(v, p); bool ok = true; for (int s = 0; s < 4; s++) ok &= same(r[s], d[k[s]]); check(ok, "lane s is the entry at index s"); check(same(index(v, Pack<int, 1>(k[1]))[0], d[k[1]]), "single lane"); } cover("gather"); }
VX_ENTRY(gather2) { double d[12]; symArray(d, 12, "d"); V<double**> v(d, 3, 4); int i[2], j[2]; auto a = idx<2>(3, i, "i"); auto b = idx<2>(4, j, "j"); auto r = index(v, a, b); for (int s = 0; s < 2; s++) check(same(r[s], d[i[s] * 4 + j[s]]), "lane s is the entry at (i_s,j_s)"); cover("gather2"); }
VX_ENTRY(gatherhi) { double d[48]; symArray(d, 48, "d"); int q[5][2]; int which = pick<int>(3, 6, "rank"); if (which == 3) { V<double***> v(d, 2, 3, 4); auto r = index(v, idx2(2, q[0], "i"), idx2(3, q[1], "j"), idx2(4, q[2], "k")); for (int s = 0; s < 2; s++) check(same(r[s], d[(q[0][s] * 3 + q[1][s]) * 4 + q[2][s]]), "rank 3"); }
  if (which == 4) { V<double****> v(d, 2, 2, 3, 4); auto r = index(v, idx2(2, q[0], "i"), idx2(2, q[3], "l"), idx2(3, q[1], "j"), idx2(4, q[2], "k")); for (int s = 0; s < 2; s++) check(same(r[s], d[((q[0][s] * 2 + q[3][s]) * 3 + q[1][s]) * 4 + q[2][s]]), "rank 4"); }
  if (which == 5) { V<double*****> v(d, 2, 2, 3, 2, 2); auto r = index(v, idx2(2, q[0], "i"), idx2(2, q[1], "j"), idx2(3, q[2], "k"), idx2(2, q[3], "l"), idx2(2, q[4], "m")); for (int s = 0; s < 2; s++) check(same(r[s], d[(((q[0][s] * 2 + q[1][s]) * 3 + q[2][s]) * 2 + q[3][s]) * 2 + q[4][s]]), "rank 5"); }
  if (which == 6) { V<double*****> v(d, 2, 2, 3, 2, 2); Pack<int, 2> p[5]; int e[5] = {2, 2, 3, 2, 2}; for (int a = 0; a < 5; a++) for (int s = 0; s < 2; s++) p[a][s] = q[a][s] = (a + s) % e[a]; int a = pick<int>(0, 4, "dim"), s = pick<int>(0, 1, "lane"); p[a][s] = q[a][s] = pick<int>(0, e[a] - 1, "index"); auto r = index(v, p[0], p[1], p[2], p[3], p[4]); for (int s = 0; s < 2; s++) check(same(r[s], d[(((q[0][s] * 2 + q[1][s]) * 3 + q[2][s]) * 2 + q[3][s]) * 2 + q[4][s]]), "rank 5"); } cover("gather 3-5"); }
VX_ENTRY(shift1) { double d[4]; symArray(d, 4, "d"); V<const double*> v(d, 4); { int k[4]; auto p = idx<4>(3, k, "i"); Pack<double, 4> a, b; index_and_shift<1>(v, p, a, b); bool ok = true, os = true; for (int s = 0; s < 4; s++) { ok &= same(a[s], d[k[s]]); os &= same(b[s], d[k[s] + 1]); } check(ok, "entries at the indices"); check(os, "entries at the shifted indices"); }
  { Pack<int, 2> p; int k[2]; for (int s = 0; s < 2; s++) p[s] = k[s] = pick<int>(2, 3, "k"); Pack<double, 2> a, b; index_and_shift<-2>(v, p, a, b); for (int s = 0; s < 2; s++) check(same(a[s], d[k[s]]) && same(b[s], d[k[s] - 2]), "negative shift"); } cover("shift"); }
VX_ENTRY(shift_oob) { double d[4]; symArray(d, 4, "d"); V<const double*> v(d, 4); int k[2]; Pack<int, 2> p; for (int s = 0; s < 2; s++) p[s] = k[s] = pick<int>(0, 3, "k"); int dir = pick<int>(0, 1, "dir"); Pack<double, 2> a, b; if (dir) index_and_shift<1>(v, p, a, b); else index_and_shift<-1>(v, p, a, b); for (int s = 0; s < 2; s++) { int t = k[s] + (dir ? 1 : -1); check(same(a[s], d[k[s]]), "the unshifted entry is delivered even if the shifted index is out of range"); if (t >= 0 && t < 4) check(same(b[s], d[t]), "shifted entry"); else check(b[s] != b[s], "out-of-range shifted entry is invalid"); } cover("oob"); }
static bool valEq(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
VX_ENTRY(diff_scalar) { int n = pick<int>(1, 5, "n"), i = pick<int>(0, 4, "i"); assume(i < n); double d[5]; symArray(d, n, "d"); V<const double*> v(d, n); double f = adj_diff<true>(v, i), b = adj_diff<false>(v, i); check(valEq(f, i + 1 < n ? d[i + 1] - d[i] : 0 - d[i]), "forward difference"); check(valEq(b, i > 0 ? d[i] - d[i - 1] : d[i]), "backward difference"); int e = pick<int>(1, 5, "end"); assume(e <= n && i < e); check(valEq(adj_diff<true>(v, i, e), i + 1 < e ? d[i + 1] - d[i] : 0 - d[i]), "forward difference up to an end"); cover("diff scalar"); }
template <int N> static void diffT() { using P = Pack<double, N>; int n = pick<int>(1, 3, "n"), i = pick<int>(0, 2, "i"); assume(i < n); P d[3]; double s[3 * N]; symArray(s, n * N, "d"); for (int q = 0; q < n * N; q++) d[q / N][q % N] = s[q]; V<const P*> v(d, n); P f = adj_diff<true>(v, i), b = adj_diff<false>(v, i); for (int l = 0; l < N; l++) { int q = i * N + l; check(valEq(f[l], q + 1 < n * N ? s[q + 1] - s[q] : 0 - s[q]), "forward difference of the scalarized array"); check(valEq(b[l], q > 0 ? s[q] - s[q - 1] : s[q]), "backward difference of the scalarized array"); } int e = pick<int>(1, 3, "end"); assume(e <= n && i < e); P g = adj_diff<true>(v, i, e); for (int l = 0; l < N; l++) { int q = i * N + l; check(valEq(g[l], q + 1 < e * N ? s[q + 1] - s[q] : 0 - s[q]), "forward difference up to an end"); } for (int q = 0; q < n * N; q++) check(same(d[q / N][q % N], s[q]), "input unchanged"); cover("diff pack"); }
VX_ENTRY(diff_pack) { switch (param("N")) { case 1: diffT<1>(); break; case 2: diffT<2>(); break; default: diffT<4>(); } }
VX_ENTRY(diff_provider) { constexpr int N = 2; using P = Pack<double, N>; double s[6]; symArray(s, 6, "s"); auto f = [&](int k) { P p; for (int l = 0; l < N; l++) p[l] = s[k * N + l]; return p; }; int i = pick<int>(0, 2, "i"); P a = adj_diff<true>(f, i, 3), b = adj_diff<false>(f, i, 3); for (int l = 0; l < N; l++) { int q = i * N + l; check(valEq(a[l], q < 5 ? s[q + 1] - s[q] : 0 - s[q]), "forward, computed input"); check(valEq(b[l], q ? s[q] - s[q - 1] : s[q]), "backward, computed input"); } auto g = [&](int k) { return s[k]; }; check(valEq(adj_diff<true>(g, i, 6), s[i + 1] - s[i]), "forward, computed scalars"); cover("diff provider"); }
static void ub(int n, bool strict) { double d[16], x = sym<double>("x"); symArray(d, n, "d"); for (int i = 0; i < n; i++) assume(d[i] == d[i]); assume(x == x); for (int i = 0; i + 1 < n; i++) assume(strict ? d[i] < d[i + 1] : d[i] <= d[i + 1]); V<const double*> v(d, n); const double* b = d; auto* r = ekat::upper_bound(b, b + n, x); int k = (int)(r - b); check(k >= 0 && k <= n, "result inside the range"); if (k > 0) check(d[k - 1] <= x, "everything before the result is at most the key"); if (k < n) check(x < d[k], "the result is the first entry greater than the key"); cover("upper bound"); }
VX_ENTRY(ubound) { int n = pick<int>(0, param("n"), "n"); ub(n, true); }
VX_ENTRY(ubound_dup) { int n = pick<int>(0, 5, "n"); ub(n, false); }
VX_ENTRY(ubound_ptr) { int n = pick<int>(0, 6, "n"), x = sym<int>("x"), d[6]; symArray(d, n, "d"); for (int i = 0; i + 1 < n; i++) assume(d[i] <= d[i + 1]); const int* b = d; auto* r = ekat::upper_bound(b, b + n, x); int k = (int)(r - b); check(k >= 0 && k <= n && (k == 0 || d[k - 1] <= x) && (k == n || x < d[k]), "upper bound of ints"); auto* q = ekat::upper_bound(b, b + n, x, [](int val, int e) { return val < e; }); check(q == r, "upper bound with a given order"); int g[6]; for (int i = 0; i < n; i++) g[i] = d[n - 1 - i]; const int* gb = g; auto* h = ekat::upper_bound(gb, gb + n, x, [](int val, int e) { return val > e; }); int m = (int)(h - gb); check((m == 0 || g[m - 1] >= x) && (m == n || g[m] < x), "descending order"); cover("ints"); }
