//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=info p.N=1
//@ case entry=info p.N=2
//@ case entry=info p.N=8
//@ case entry=info p.N=16
//@ case entry=scal1
//@ case entry=scal2
//@ case entry=scal3
//@ case entry=scal_hi
//@ case entry=scal_plain
//@ case entry=repack1
//@ case entry=repack2
//@ case entry=repack3
//@ case entry=repack_bad
//@ case entry=types
//@ bounds index arithmetic: pack lengths 1, 2, 8, 16 with every 32-bit length and index (lengths up to 2^31-1-N); views of rank 1 to 5 with extents 0..3 in each dimension (rank 4, 5: fixed), pack lengths 1, 2, 4, 8, contiguous row-major storage, const and non-const element types; element values unrestricted
//@ outside views with padding or strides, column-major views, device memory
#include "vx_team.h"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
using namespace ekat; using namespace vx;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D> using V = Kokkos::View<D, Kokkos::LayoutRight, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
static bool same(double a, double b) { unsigned long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
template <int N> static void infoT() { using I = PackInfo<N>; int L = sym<int>("len"); assume(L >= 1 && L <= 2147483647 - N);
  int np = I::num_packs(L); check((long)np * N >= L && (long)(np - 1) * N < L, "number of packs is the least that holds the array"); check(I::last_pack_idx(L) == np - 1, "last pack"); check(I::padding(L) == (long)np * N - L && I::padding(L) >= 0 && I::padding(L) < N, "padding is the unused tail of the last pack"); check(I::has_padding(L) == (I::padding(L) > 0), "has_padding"); check(I::last_vec_end(L) == N - I::padding(L) && I::last_vec_end(L) >= 1, "end of the last pack");
  int i = sym<int>("i"); assume(i >= 0 && i < L); int p = I::pack_idx(i), s = I::vec_idx(i); check(p >= 0 && p < np && s >= 0 && s < N && (long)p * N + s == i, "pack and lane of an entry"); check(I::array_idx(p, s) == i, "array index of pack and lane"); auto pr = I::pack_vec_idx(i); check(pr.first == p && pr.second == s && I::array_idx(pr) == i, "pair form"); check(I::array_idx(std::make_pair(p, s)) == i, "pair form"); check(s < I::vec_end(L, p), "entries lie before the end of their pack");
  int q = sym<int>("q"); assume(q >= 0 && q < np); int e = I::vec_end(L, q); check(e >= 1 && e <= N && (long)q * N + e == ((long)(q + 1) * N < L ? (long)(q + 1) * N : (long)L), "end of a pack: full except for the padding of the last"); cover("info"); }
VX_ENTRY(info) { switch (param("N")) { case 1: infoT<1>(); break; case 2: infoT<2>(); break; case 8: infoT<8>(); break; default: infoT<16>(); } }
template <int N> static void s1() { using P = Pack<double, N>; int n = pick<int>(0, 3, "n"); P d[4]; for (int i = 0; i < 4; i++) for (int s = 0; s < N; s++) d[i][s] = sym<double>("d"); V<P*> v(d, n); auto w = scalarize(v); check((int)w.extent(0) == n * N, "scalarized extent"); static_assert(decltype(w)::rank == 1, "rank");
  for (int i = 0; i < n; i++) for (int s = 0; s < N; s++) check(same(w(i * N + s), d[i][s]) && &w(i * N + s) == &d[i][s], "scalar i*N+s is lane s of pack i"); V<const P*> c(d, n); auto cw = scalarize(c); check((int)cw.extent(0) == n * N, "scalarized extent (const)"); for (int i = 0; i < n; i++) for (int s = 0; s < N; s++) check(&cw(i * N + s) == &d[i][s], "scalar of a const view"); cover("scalarize"); }
VX_ENTRY(scal1) { s1<1>(); s1<2>(); s1<8>(); }
VX_ENTRY(scal2) { constexpr int N = 4; using P = Pack<double, N>; int n = pick<int>(0, 3, "n"), m = pick<int>(0, 3, "m"); static P d[9]; V<P**> v(d, n, m); auto w = scalarize(v); check((int)w.extent(0) == n && (int)w.extent(1) == m * N, "scalarized extents"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int s = 0; s < N; s++) { double x = sym<double>("x"); v(i, j)[s] = x; check(same(w(i, j * N + s), x), "entry (i,j*N+s) is lane s of pack (i,j)"); check(&w(i, j * N + s) == &v(i, j)[s], "aliasing"); }
  V<P* [3]> f(d, n); auto fw = scalarize(f); check((int)fw.extent(0) == n && (int)fw.extent(1) == 3 * N, "compile-time extent"); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) for (int s = 0; s < N; s++) check(&fw(i, j * N + s) == &f(i, j)[s], "aliasing with a compile-time extent"); cover("scalarize2"); }
VX_ENTRY(scal3) { constexpr int N = 2; using P = Pack<double, N>; int n = pick<int>(0, 2, "n"), m = pick<int>(0, 2, "m"), k = pick<int>(0, 3, "k"); static P d[12]; V<P***> v(d, n, m, k); auto w = scalarize(v); check((int)w.extent(0) == n && (int)w.extent(1) == m && (int)w.extent(2) == k * N, "scalarized extents"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int l = 0; l < k; l++) for (int s = 0; s < N; s++) check(&w(i, j, l * N + s) == &v(i, j, l)[s], "aliasing"); cover("scalarize3"); }
VX_ENTRY(scal_hi) { constexpr int N = 2; using P = Pack<double, N>; static P d[48]; V<P****> v(d, 2, 1, 3, 2); auto w = scalarize(v); check(w.extent(0) == 2 && w.extent(1) == 1 && w.extent(2) == 3 && w.extent(3) == 4, "rank 4 extents"); int i = pick<int>(0, 1, "i"), k = pick<int>(0, 2, "k"), l = pick<int>(0, 1, "l"), s = pick<int>(0, 1, "s"); check(&w(i, 0, k, l * N + s) == &v(i, 0, k, l)[s], "rank 4 aliasing");
  V<P*****> v5(d, 2, 3, 1, 2, 2); auto w5 = scalarize(v5); check(w5.extent(0) == 2 && w5.extent(1) == 3 && w5.extent(2) == 1 && w5.extent(3) == 2 && w5.extent(4) == 4, "rank 5 extents"); check(&w5(i, k, 0, l, N * l + s) == &v5(i, k, 0, l, l)[s], "rank 5 aliasing");
  V<P******> v6(d, 2, 1, 2, 1, 3, 2); auto w6 = scalarize(v6); check(w6.extent(0) == 2 && w6.extent(1) == 1 && w6.extent(2) == 2 && w6.extent(3) == 1 && w6.extent(4) == 3 && w6.extent(5) == 4, "rank 6 extents"); check(&w6(i, 0, l, 0, k, N * l + s) == &v6(i, 0, l, 0, k, l)[s], "rank 6 aliasing");
  V<P*******> v7(d, 2, 1, 2, 1, 3, 1, 2); auto w7 = scalarize(v7); check(w7.extent(0) == 2 && w7.extent(2) == 2 && w7.extent(4) == 3 && w7.extent(5) == 1 && w7.extent(6) == 4, "rank 7 extents"); check(&w7(i, 0, l, 0, k, 0, N * l + s) == &v7(i, 0, l, 0, k, 0, l)[s], "rank 7 aliasing"); cover("scalarize hi"); }
VX_ENTRY(scal_plain) { static double d[12]; V<double**> v(d, 3, 4); auto w = scalarize(v); check(w.data() == d && w.extent(0) == 3 && w.extent(1) == 4, "a view of scalars is returned as is"); Pack<double, 4> q; V<Pack<double, 4>> z(&q); auto zw = scalarize(z); check(zw.extent(0) == 4, "a single pack is an array of its lanes"); for (int s = 0; s < 4; s++) check(&zw(s) == &q[s], "a single pack is an array of its lanes"); cover("plain"); }
template <int M, int N> static void r1(int np) { using P = Pack<double, M>; using Q = Pack<double, N>; static P d[8]; V<P*> v(d, np); for (int i = 0; i < np; i++) for (int s = 0; s < M; s++) d[i][s] = sym<double>("d"); auto w = repack<N>(v); check((std::is_same<typename decltype(w)::value_type, Q>::value), "type"); check((int)w.extent(0) * N == np * M, "number of packs"); for (int k = 0; k < np * M; k++) check(same(w(k / N)[k % N], d[k / M][k % M]) && &w(k / N)[k % N] == &d[k / M][k % M], "entry k of both views"); cover("repack"); }
VX_ENTRY(repack1) { int n = pick<int>(0, 2, "n"); r1<2, 4>(n * 2); r1<4, 4>(n); r1<8, 2>(n); r1<1, 8>(n * 8 / 2 * 2 > 8 ? 8 : n * 8); r1<4, 1>(n); { static double d[16]; V<double*> v(d, n * 4); auto w = repack<4>(v); check((int)w.extent(0) == n, "packed extent"); for (int k = 0; k < n * 4; k++) check(&w(k / 4)[k % 4] == &d[k], "entry k of both views"); V<const double*> c(d, n * 4); auto cw = repack<2>(c); check((int)cw.extent(0) == 2 * n, "packed extent"); for (int k = 0; k < n * 4; k++) check(&cw(k / 2)[k % 2] == &d[k], "entry k of both views (const)"); } }
VX_ENTRY(repack2) { int n = pick<int>(0, 3, "n"), m = pick<int>(0, 2, "m"); static double d[24]; V<double**> v(d, n, m * 4); auto w = repack<4>(v); check((int)w.extent(0) == n && (int)w.extent(1) == m, "packed extents"); for (int i = 0; i < n; i++) for (int k = 0; k < 4 * m; k++) check(&w(i, k / 4)[k % 4] == &v(i, k), "entry (i,k) of both views"); auto x = repack<2>(w); check((int)x.extent(0) == n && (int)x.extent(1) == 2 * m, "repacked extents"); for (int i = 0; i < n; i++) for (int k = 0; k < 4 * m; k++) check(&x(i, k / 2)[k % 2] == &v(i, k), "entry (i,k) of both views"); auto b = scalarize(x); check(b.extent(0) == v.extent(0) && b.extent(1) == v.extent(1) && b.data() == v.data(), "scalarize undoes repack"); cover("repack2"); }
VX_ENTRY(repack3) { int n = pick<int>(0, 2, "n"), m = pick<int>(1, 3, "m"); static double d[24]; V<double***> v(d, n, m, 4); auto w = repack<2>(v); check((int)w.extent(0) == n && (int)w.extent(1) == m && w.extent(2) == 2, "packed extents"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) check(&w(i, j, k / 2)[k % 2] == &v(i, j, k), "entry (i,j,k) of both views"); cover("repack3"); }
VX_ENTRY(repack_bad) { int n = pick<int>(1, 13, "n"), which = pick<int>(0, 1, "kind"); assume(which ? n < 4 && n % 2 : n % 4); static double d[16]; static Pack<double, 2> p[4]; cover("repack bad"); check(n > 0, "extent"); __vx_expect_abort(1); try { if (which) { V<Pack<double, 2>*> u(p, n); repack<4>(u); } else { V<double*> v(d, n); repack<4>(v); } } catch (...) { return; } __vx_expect_abort(0); check(false, "packing with a pack length that does not divide the extent is accepted"); }
VX_ENTRY(types) { using P = Pack<double, 4>;
#define TY(A, B) check(std::is_same<typename ScalarizedDataType<A>::type, B>::value, "scalarized type of " #A);
  TY(P*, double*) TY(P**, double**) TY(P* [3], double* [12]) TY(P* [3][2], double* [3][8]) TY(P, double[4]) TY(const P, const double[4]) TY(P[2], double[8]) TY(P[3][2], double[3][8]) TY(const P* [3], const double* [12]) TY(double**, double**) TY(double* [3], double* [3]) cover("types"); }
