//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=one p.N=1
//@ case entry=one p.N=2
//@ case entry=one p.N=4
//@ case entry=two p.N=1
//@ case entry=two p.N=4
//@ case entry=three p.N=2
//@ case entry=three p.N=4
//@ case entry=scal
//@ case entry=prealloc
//@ case entry=multi
//@ case entry=given p.packed=0
//@ case entry=given p.packed=1
//@ case entry=every p.packed=0
//@ case entry=every p.packed=1
//@ case entry=ints
//@ case entry=bools
//@ case entry=transp2
//@ case entry=transp3
//@ case entry=two p.N=8 p.M=6 tier=thorough
//@ case entry=three p.N=4 p.M=5 tier=thorough
//@ bounds one or two arrays per call; 1d lengths 0..5 (pack lengths 1, 2, 4), 2d extents 1..3 x 0..5, 3d extents 1..2 x 1..2 x 0..3; packed and scalar views of double, int and bool, freshly allocated or given; with and without transposition in both directions; all element values; transpose itself: extents 0..4 (2d), 0..3 (3d)
//@ outside device memory spaces (host and device views coincide here)
#include "vx_team.h"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
using namespace ekat; using namespace vx;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D> using V = Kokkos::View<D, Kokkos::LayoutRight, HS>;
static bool same(double a, double b) { unsigned long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static bool same(int a, int b) { return a == b; }
using TD = TransposeDirection;
// a buffer guarded on both sides
template <class T, int S> struct Buf { T d[S + 2]; Buf(const char* nm, int n) { symArray(d + 1, n, nm); for (int i = n + 1; i < S + 2; i++) d[i] = T(7); d[0] = T(7); } Buf() { for (int i = 0; i < S + 2; i++) d[i] = T(7); } T* p() { return d + 1; } bool guarded(int n) { bool ok = d[0] == T(7); for (int i = n + 1; i < S + 2; i++) ok &= d[i] == T(7); return ok; } };
template <int N> static void oneT() { using P = Pack<double, N>; int n = pick<int>(0, 5, "n"), m = pick<int>(0, 3, "m"); Buf<double, 5> a("a", n), b("b", m), oa, ob; std::vector<V<P*>> v(2);
  host_to_device(std::vector<const double*>{a.p(), b.p()}, std::vector<int>{n, m}, v); check((int)v[0].extent(0) == (n + N - 1) / N && (int)v[1].extent(0) == (m + N - 1) / N, "number of packs"); for (int i = 0; i < n; i++) check(same(v[0](i / N)[i % N], a.p()[i]), "entry i goes to pack i/N, lane i%N"); for (int i = 0; i < m; i++) check(same(v[1](i / N)[i % N], b.p()[i]), "second array"); check(v[0].data() != v[1].data() || n == 0 || m == 0, "separate storage");
  device_to_host(std::vector<double*>{oa.p(), ob.p()}, std::vector<int>{n, m}, v); for (int i = 0; i < n; i++) check(same(oa.p()[i], a.p()[i]), "round trip"); for (int i = 0; i < m; i++) check(same(ob.p()[i], b.p()[i]), "round trip"); check(oa.guarded(n) && ob.guarded(m), "nothing written past the arrays");
  std::vector<V<P*>> u(1); host_to_device(std::vector<const double*>{a.p()}, (size_t)n, u); for (int i = 0; i < n; i++) check(same(u[0](i / N)[i % N], a.p()[i]), "uniform size"); Buf<double, 5> oc; device_to_host(std::vector<double*>{oc.p()}, (size_t)n, u); for (int i = 0; i < n; i++) check(same(oc.p()[i], a.p()[i]), "uniform round trip"); check(oc.guarded(n), "nothing written past the array"); cover("1d"); }
VX_ENTRY(one) { switch (param("N")) { case 1: oneT<1>(); break; case 2: oneT<2>(); break; default: oneT<4>(); } }
template <int N> static void twoT() { using P = Pack<double, N>; int n = pick<int>(1, 3, "n"), m = pick<int>(0, param("M", 5), "m"), tr = pick<int>(0, 2, "transpose"); Buf<double, 18> a("a", n * m), o; std::vector<V<P**>> v(1); auto dir = tr == 2 ? TD::c2f : TD::f2c;
  host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n}, std::vector<int>{m}, v, tr > 0, dir); check((int)v[0].extent(0) == n && (int)v[0].extent(1) == (m + N - 1) / N, "extents");
  // f2c: first index fast in the source; c2f with swapped roles is the inverse permutation
  for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { double e; if (tr == 0) e = a.p()[i * m + k]; else if (tr == 1) e = a.p()[k * n + i]; else { int f = i * m + k; e = a.p()[(f % n) * m + f / n]; } check(same(v[0](i, k / N)[k % N], e), tr == 0 ? "entry (i,k)" : tr == 1 ? "entry (i,k) of a Fortran-ordered source" : "entry (i,k), c2f"); }
  device_to_host(std::vector<double*>{o.p()}, std::vector<int>{n}, std::vector<int>{m}, v, tr > 0, tr == 2 ? TD::f2c : TD::c2f); for (int i = 0; i < n * m; i++) check(same(o.p()[i], a.p()[i]), "round trip"); check(o.guarded(n * m), "nothing written past the array");
  std::vector<V<P**>> u(1); host_to_device(std::vector<const double*>{a.p()}, (size_t)n, (size_t)m, u, tr > 0); Buf<double, 18> q; device_to_host(std::vector<double*>{q.p()}, (size_t)n, (size_t)m, u, tr > 0); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(same(u[0](i, k / N)[k % N], a.p()[tr ? k * n + i : i * m + k]), "uniform size, default direction"); for (int i = 0; i < n * m; i++) check(same(q.p()[i], a.p()[i]), "uniform round trip"); check(q.guarded(n * m), "nothing written past the array");
  // default: no transposition
  std::vector<V<P**>> w(1), x(1); host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n}, std::vector<int>{m}, w); host_to_device(std::vector<const double*>{a.p()}, (size_t)n, (size_t)m, x); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(same(w[0](i, k / N)[k % N], a.p()[i * m + k]) && same(x[0](i, k / N)[k % N], a.p()[i * m + k]), "entry (i,k), default order"); Buf<double, 18> r, t; device_to_host(std::vector<double*>{r.p()}, std::vector<int>{n}, std::vector<int>{m}, w); device_to_host(std::vector<double*>{t.p()}, (size_t)n, (size_t)m, x); for (int i = 0; i < n * m; i++) check(same(r.p()[i], a.p()[i]) && same(t.p()[i], a.p()[i]), "round trip, default order"); cover("2d"); }
VX_ENTRY(two) { switch (param("N")) { case 1: twoT<1>(); break; case 4: twoT<4>(); break; default: twoT<8>(); } }
template <int N> static void threeT() { using P = Pack<double, N>; int n = pick<int>(1, 2, "n"), m = pick<int>(1, 2, "m"), l = pick<int>(0, param("M", 3), "l"), tr = pick<int>(0, 1, "transpose"); Buf<double, 20> a("a", n * m * l), o; std::vector<V<P***>> v(1);
  host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n}, std::vector<int>{m}, std::vector<int>{l}, v, tr > 0); check((int)v[0].extent(0) == n && (int)v[0].extent(1) == m && (int)v[0].extent(2) == (l + N - 1) / N, "extents"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < l; k++) check(same(v[0](i, j, k / N)[k % N], a.p()[tr ? (k * m + j) * n + i : (i * m + j) * l + k]), tr ? "entry (i,j,k) of a Fortran-ordered source" : "entry (i,j,k)");
  device_to_host(std::vector<double*>{o.p()}, std::vector<int>{n}, std::vector<int>{m}, std::vector<int>{l}, v, tr > 0); for (int i = 0; i < n * m * l; i++) check(same(o.p()[i], a.p()[i]), "round trip"); check(o.guarded(n * m * l), "nothing written past the array");
  std::vector<V<P***>> u(1); host_to_device(std::vector<const double*>{a.p()}, (size_t)n, (size_t)m, (size_t)l, u, tr > 0, TD::f2c); Buf<double, 20> q; device_to_host(std::vector<double*>{q.p()}, (size_t)n, (size_t)m, (size_t)l, u, tr > 0, TD::c2f); for (int i = 0; i < n * m * l; i++) check(same(q.p()[i], a.p()[i]), "uniform round trip"); check(q.guarded(n * m * l), "nothing written past the array");
  std::vector<V<P***>> w(1), x(1); host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n}, std::vector<int>{m}, std::vector<int>{l}, w); host_to_device(std::vector<const double*>{a.p()}, (size_t)n, (size_t)m, (size_t)l, x); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < l; k++) check(same(w[0](i, j, k / N)[k % N], a.p()[(i * m + j) * l + k]) && same(x[0](i, j, k / N)[k % N], a.p()[(i * m + j) * l + k]), "entry (i,j,k), default order"); Buf<double, 20> r, t; device_to_host(std::vector<double*>{r.p()}, std::vector<int>{n}, std::vector<int>{m}, std::vector<int>{l}, w); device_to_host(std::vector<double*>{t.p()}, (size_t)n, (size_t)m, (size_t)l, x); for (int i = 0; i < n * m * l; i++) check(same(r.p()[i], a.p()[i]) && same(t.p()[i], a.p()[i]), "round trip, default order"); cover("3d"); }
VX_ENTRY(three) { switch (param("N")) { case 2: threeT<2>(); break; default: threeT<4>(); } }
VX_ENTRY(scal) { int n = pick<int>(1, 2, "n"), m = pick<int>(0, 3, "m"), tr = pick<int>(0, 1, "transpose"); Buf<double, 12> a("a", n * m), b("b", n * m * 2), o, p, q; std::vector<V<double*>> v(1); host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n * m}, v); check((int)v[0].extent(0) == n * m, "extent"); for (int i = 0; i < n * m; i++) check(same(v[0](i), a.p()[i]), "entry"); device_to_host(std::vector<double*>{o.p()}, std::vector<int>{n * m}, v); for (int i = 0; i < n * m; i++) check(same(o.p()[i], a.p()[i]), "round trip"); check(o.guarded(n * m), "nothing written past the array");
  std::vector<V<double**>> w(1); host_to_device(std::vector<const double*>{a.p()}, (size_t)n, (size_t)m, w, tr > 0); check((int)w[0].extent(0) == n && (int)w[0].extent(1) == m, "extents"); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(same(w[0](i, k), a.p()[tr ? k * n + i : i * m + k]), "entry (i,k)"); device_to_host(std::vector<double*>{p.p()}, (size_t)n, (size_t)m, w, tr > 0); for (int i = 0; i < n * m; i++) check(same(p.p()[i], a.p()[i]), "round trip");
  std::vector<V<double***>> x(1); host_to_device(std::vector<const double*>{b.p()}, (size_t)n, (size_t)2, (size_t)m, x, tr > 0); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < m; k++) check(same(x[0](i, j, k), b.p()[tr ? (k * 2 + j) * n + i : (i * 2 + j) * m + k]), "entry (i,j,k)"); device_to_host(std::vector<double*>{q.p()}, (size_t)n, (size_t)2, (size_t)m, x, tr > 0); for (int i = 0; i < n * m * 2; i++) check(same(q.p()[i], b.p()[i]), "round trip"); check(q.guarded(n * m * 2), "nothing written past the array"); cover("scalar views"); }
VX_ENTRY(prealloc) { constexpr int N = 4; using P = Pack<double, N>; int n = pick<int>(1, 2, "n"), m = pick<int>(1, 5, "m"), tr = pick<int>(0, 1, "transpose"); Buf<double, 10> a("a", n * m), o; const int np = (m + N - 1) / N; P st[4]; for (int i = 0; i < 4; i++) st[i] = 7.0; const std::vector<V<P**>> v{V<P**>("", n, np)}; for (int i = 0; i < n; i++) for (int k = 0; k < np; k++) v[0](i, k) = 7.0; auto* d0 = v[0].data(); host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n}, std::vector<int>{m}, v, tr > 0); check(v[0].data() == d0, "the given view is filled, not replaced"); for (int i = 0; i < n; i++) for (int k = 0; k < np * N; k++) check(k < m ? same(v[0](i, k / N)[k % N], a.p()[tr ? k * n + i : i * m + k]) : v[0](i, k / N)[k % N] == 7, "entries filled, padding untouched");
  const std::vector<V<P*>> w{V<P*>("", np)}; auto* d1 = w[0].data(); host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{m}, w); check(w[0].data() == d1, "the given view is filled, not replaced"); for (int k = 0; k < m; k++) check(same(w[0](k / N)[k % N], a.p()[k]), "entry k"); const std::vector<V<P*>> bad{V<P*>("", np + 1)}; check(throws([&] { host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{m}, bad); }), "a view of the wrong size is rejected"); check(throws([&] { host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{m, m}, w); }), "a wrong number of sizes is rejected");
  const std::vector<V<P***>> x{V<P***>("", n, 1, np)}; host_to_device(std::vector<const double*>{a.p()}, std::vector<int>{n}, std::vector<int>{1}, std::vector<int>{m}, x); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(same(x[0](i, 0, k / N)[k % N], a.p()[i * m + k]), "entry (i,0,k)"); cover("given views"); }
// every overload that fills given views: packed and scalar, per-array and uniform sizes, transposed in either direction or not
template <class T1, class T2, class T3, int N> static void givenT() { int n = pick<int>(1, 2, "n"), m = pick<int>(1, 3, "m"), l = pick<int>(1, 2, "l"), tr = pick<int>(0, 2, "transpose"), un = pick<int>(0, 1, "uniform"); Buf<double, 12> a("a", n * l * m); auto src = std::vector<const double*>{a.p()}; const int np = (m + N - 1) / N; auto dir = tr == 2 ? TD::c2f : TD::f2c; using Vi = std::vector<int>;
  auto el = [](auto& v, int k, auto... i) -> double { if constexpr (std::is_same_v<std::decay_t<decltype(v(i..., 0))>, double>) return v(i..., k); else return v(i..., k / N)[k % N]; };
  { const std::vector<V<T1>> v{V<T1>("", np)}; auto* d = v[0].data(); if (un) host_to_device(src, (size_t)m, v); else host_to_device(src, Vi{m}, v); check(v[0].data() == d, "the given view is filled, not replaced"); for (int k = 0; k < m; k++) check(same(el(v[0], k), a.p()[k]), "1d: entry k"); }
  { const std::vector<V<T2>> v{V<T2>("", n, np)}; auto* d = v[0].data(); if (un) host_to_device(src, (size_t)n, (size_t)m, v, tr > 0, dir); else host_to_device(src, Vi{n}, Vi{m}, v, tr > 0, dir); check(v[0].data() == d, "the given view is filled, not replaced"); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { int f = i * m + k; check(same(el(v[0], k, i), a.p()[tr == 0 ? f : tr == 1 ? k * n + i : (f % n) * m + f / n]), "2d: entry (i,k)"); } }
  { const std::vector<V<T3>> v{V<T3>("", n, l, np)}; auto* d = v[0].data(); if (tr < 2) { if (un) host_to_device(src, (size_t)n, (size_t)l, (size_t)m, v, tr > 0, dir); else host_to_device(src, Vi{n}, Vi{l}, Vi{m}, v, tr > 0, dir); check(v[0].data() == d, "the given view is filled, not replaced"); for (int i = 0; i < n; i++) for (int j = 0; j < l; j++) for (int k = 0; k < m; k++) check(same(el(v[0], k, i, j), a.p()[tr == 0 ? (i * l + j) * m + k : (k * l + j) * n + i]), "3d: entry (i,j,k)"); } }
  { int q = pick<int>(0, 2, "wrong extent"), dl = pick<int>(0, 1, "more") ? 1 : -1; const std::vector<V<T2>> v{V<T2>("", n + (q == 0) * dl, np + (q > 0) * dl)}; check(throws([&] { if (un) host_to_device(src, (size_t)n, (size_t)m, v); else host_to_device(src, Vi{n}, Vi{m}, v); }), "2d: a view of other extents is rejected");
    const std::vector<V<T3>> w{V<T3>("", n + (q == 0) * dl, l + (q == 1) * dl, np + (q == 2) * dl)}; check(throws([&] { if (un) host_to_device(src, (size_t)n, (size_t)l, (size_t)m, w); else host_to_device(src, Vi{n}, Vi{l}, Vi{m}, w); }), "3d: a view of other extents is rejected"); } cover("given"); }
VX_ENTRY(given) { if (param("packed")) givenT<Pack<double, 2>*, Pack<double, 2>**, Pack<double, 2>***, 2>(); else givenT<double*, double**, double***, 1>(); }
VX_ENTRY(ints) { constexpr int N = 2; using P = Pack<int, N>; int n = pick<int>(1, 3, "n"), m = pick<int>(1, 3, "m"); Buf<int, 9> a("a", n * m), o; std::vector<V<P**>> v(1); host_to_device(std::vector<const int*>{a.p()}, std::vector<int>{n}, std::vector<int>{m}, v, true); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(v[0](i, k / N)[k % N] == a.p()[k * n + i], "entry (i,k)"); device_to_host(std::vector<int*>{o.p()}, std::vector<int>{n}, std::vector<int>{m}, v, true); for (int i = 0; i < n * m; i++) check(o.p()[i] == a.p()[i], "round trip"); check(o.guarded(n * m), "nothing written past the array"); cover("ints"); }
VX_ENTRY(bools) { constexpr int N = 2; using P = Pack<bool, N>; int n = pick<int>(1, 2, "n"), m = pick<int>(1, 3, "m"); bool a[6], o[7]; for (int i = 0; i < 6; i++) a[i] = sym<unsigned char>("a") & 1; for (int i = 0; i < 7; i++) o[i] = true; std::vector<V<P**>> v(1); host_to_device(std::vector<const bool*>{a}, std::vector<int>{n}, std::vector<int>{m}, v, true); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(v[0](i, k / N)[k % N] == a[k * n + i], "entry (i,k)"); device_to_host(std::vector<bool*>{o}, std::vector<int>{n}, std::vector<int>{m}, v, true); for (int i = 0; i < n * m; i++) check(o[i] == a[i], "round trip"); cover("bools"); }
VX_ENTRY(transp2) { int n = pick<int>(0, 4, "n"), m = pick<int>(0, 4, "m"); Buf<double, 16> a("a", n * m), f, c, g; transpose<TD::c2f>(a.p(), f.p(), n, m); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) check(same(f.p()[k * n + i], a.p()[i * m + k]), "c2f makes the first index fast"); transpose<TD::f2c>(f.p(), c.p(), n, m); for (int i = 0; i < n * m; i++) check(same(c.p()[i], a.p()[i]), "f2c undoes c2f"); check(f.guarded(n * m) && c.guarded(n * m), "nothing written past the array"); transpose(a.p(), g.p(), n, m, TD::c2f); for (int i = 0; i < n * m; i++) check(same(g.p()[i], f.p()[i]), "run-time direction c2f"); transpose(f.p(), g.p(), n, m, TD::f2c); for (int i = 0; i < n * m; i++) check(same(g.p()[i], a.p()[i]), "run-time direction f2c"); cover("transpose2"); }
VX_ENTRY(transp3) { int n = pick<int>(0, 3, "n"), m = pick<int>(1, 3, "m"), l = pick<int>(1, 2, "l"); Buf<int, 18> a("a", n * m * l), f, c, g; transpose<TD::c2f>(a.p(), f.p(), n, m, l); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) for (int j = 0; j < l; j++) check(same(f.p()[(j * m + k) * n + i], a.p()[(i * m + k) * l + j]), "c2f reverses the index order"); transpose<TD::f2c>(f.p(), c.p(), n, m, l); for (int i = 0; i < n * m * l; i++) check(same(c.p()[i], a.p()[i]), "f2c undoes c2f"); check(f.guarded(n * m * l) && c.guarded(n * m * l), "nothing written past the array"); transpose(a.p(), g.p(), n, m, l, TD::c2f); for (int i = 0; i < n * m * l; i++) check(same(g.p()[i], f.p()[i]), "run-time direction c2f"); transpose(f.p(), g.p(), n, m, l, TD::f2c); for (int i = 0; i < n * m * l; i++) check(same(g.p()[i], a.p()[i]), "run-time direction f2c"); cover("transpose3"); }
VX_ENTRY(multi) { constexpr int N = 2; using P = Pack<double, N>; int n[2], m[2], tr = pick<int>(0, 1, "transpose"), l = 2; for (int q = 0; q < 2; q++) { n[q] = pick<int>(1, 2, "n"); m[q] = pick<int>(1, 3, "m"); } Buf<double, 12> a("a", n[0] * m[0] * l), b("b", n[1] * m[1] * l), o[2]; double* in[2] = {a.p(), b.p()}; std::vector<V<P**>> v(2); host_to_device(std::vector<const double*>{in[0], in[1]}, std::vector<int>{n[0], n[1]}, std::vector<int>{m[0], m[1]}, v, tr > 0);
  for (int q = 0; q < 2; q++) for (int i = 0; i < n[q]; i++) for (int k = 0; k < m[q]; k++) check(same(v[q](i, k / N)[k % N], in[q][tr ? k * n[q] + i : i * m[q] + k]), "each array keeps its own extents"); device_to_host(std::vector<double*>{o[0].p(), o[1].p()}, std::vector<int>{n[0], n[1]}, std::vector<int>{m[0], m[1]}, v, tr > 0); for (int q = 0; q < 2; q++) { for (int i = 0; i < n[q] * m[q]; i++) check(same(o[q].p()[i], in[q][i]), "round trip of each array"); check(o[q].guarded(n[q] * m[q]), "nothing written past the array"); }
  std::vector<V<P***>> w(2); host_to_device(std::vector<const double*>{in[0], in[1]}, std::vector<int>{n[0], n[1]}, std::vector<int>{l, l}, std::vector<int>{m[0], m[1]}, w, tr > 0); Buf<double, 12> c[2]; device_to_host(std::vector<double*>{c[0].p(), c[1].p()}, std::vector<int>{n[0], n[1]}, std::vector<int>{l, l}, std::vector<int>{m[0], m[1]}, w, tr > 0); for (int q = 0; q < 2; q++) { for (int i = 0; i < n[q]; i++) for (int j = 0; j < l; j++) for (int k = 0; k < m[q]; k++) check(same(w[q](i, j, k / N)[k % N], in[q][tr ? (k * l + j) * n[q] + i : (i * l + j) * m[q] + k]), "each 3d array keeps its own extents"); for (int i = 0; i < n[q] * m[q] * l; i++) check(same(c[q].p()[i], in[q][i]), "round trip of each array"); } cover("several arrays"); }
// every overload (fresh or given views, per-array or uniform sizes, default arguments or either direction) with two arrays at once
static int perm(int tr, int f, int n, int m, int l) { if (tr == 0) return f; if (tr == 1) return n * m * (f % l) + f / l % m * n + f / (m * l); return f % n * (m * l) + f / n % m * l + f / (n * m); }
template <class DT, int R, int N, bool GIVEN> static void everyT(int un, int tr, const int (&e)[2][3]) { using T = V<DT>; using Vs = std::conditional_t<GIVEN, const std::vector<T>, std::vector<T>>; using Vi = std::vector<int>; auto np = [](int k) { return (k + N - 1) / N; }; int sz[2]; for (int q = 0; q < 2; q++) sz[q] = e[q][0] * e[q][1] * e[q][2];
  auto mk = [&](const int* x) { if constexpr (!GIVEN) return T(); else if constexpr (R == 1) return T("", np(x[2])); else if constexpr (R == 2) return T("", x[0], np(x[2])); else return T("", x[0], x[1], np(x[2])); }; Vs v{mk(e[0]), mk(e[1])};
  auto el = [](const T& w, int i, int j, int k) -> double { auto g = [&](auto&& r) -> double { if constexpr (std::is_same_v<std::decay_t<decltype(r)>, double>) return r; else return r[k % N]; }; if constexpr (R == 1) return g(w(k / N)); else if constexpr (R == 2) return g(w(i, k / N)); else return g(w(i, j, k / N)); };
  Buf<double, 12> a("a", sz[0]), b("b", sz[1]), o[2]; double* in[2] = {a.p(), b.p()}; std::vector<const double*> src{in[0], in[1]}; std::vector<double*> dst{o[0].p(), o[1].p()}; Vi n{e[0][0], e[1][0]}, m{e[0][1], e[1][1]}, l{e[0][2], e[1][2]}; size_t n0 = n[0], m0 = m[0], l0 = l[0]; auto hd = tr == 2 ? TD::c2f : TD::f2c, dd = tr == 2 ? TD::f2c : TD::c2f; bool t = tr == 1 || tr == 2, def = tr == 3;
  if constexpr (R == 1) { if (un) { host_to_device(src, l0, v); device_to_host(dst, l0, v); } else { host_to_device(src, l, v); device_to_host(dst, l, v); } }
  else if constexpr (R == 2) { if (un) { if (def) { host_to_device(src, n0, l0, v); device_to_host(dst, n0, l0, v); } else { host_to_device(src, n0, l0, v, t, hd); device_to_host(dst, n0, l0, v, t, dd); } } else { if (def) { host_to_device(src, n, l, v); device_to_host(dst, n, l, v); } else { host_to_device(src, n, l, v, t, hd); device_to_host(dst, n, l, v, t, dd); } } }
  else { if (un) { if (def) { host_to_device(src, n0, m0, l0, v); device_to_host(dst, n0, m0, l0, v); } else { host_to_device(src, n0, m0, l0, v, t, hd); device_to_host(dst, n0, m0, l0, v, t, dd); } } else { if (def) { host_to_device(src, n, m, l, v); device_to_host(dst, n, m, l, v); } else { host_to_device(src, n, m, l, v, t, hd); device_to_host(dst, n, m, l, v, t, dd); } } }
  for (int q = 0; q < 2; q++) { bool ok = true, rt = true; for (int i = 0; i < n[q]; i++) for (int j = 0; j < m[q]; j++) for (int k = 0; k < l[q]; k++) ok &= same(el(v[q], i, j, k), in[q][R == 1 ? k : perm(t ? tr : 0, (i * m[q] + j) * l[q] + k, n[q], m[q], l[q])]); for (int i = 0; i < sz[q]; i++) rt &= same(o[q].p()[i], in[q][i]); check(ok, "entries of each array"); check(rt, "round trip of each array"); check(o[q].guarded(sz[q]), "nothing written past the array"); }
  // transferred back in the other direction or not at all transposed: the order is the requested one
  if constexpr (R > 1) { Buf<double, 12> z[2]; std::vector<double*> zz{z[0].p(), z[1].p()}; if constexpr (R == 2) { if (un) device_to_host(zz, n0, l0, v, true, hd); else device_to_host(zz, n, l, v, true, hd); } else { if (un) device_to_host(zz, n0, m0, l0, v, true, hd); else device_to_host(zz, n, m, l, v, true, hd); } for (int q = 0; q < 2; q++) { bool ok = true; for (int i = 0; i < n[q]; i++) for (int j = 0; j < m[q]; j++) for (int k = 0; k < l[q]; k++) ok &= same(z[q].p()[perm(tr == 2 ? 1 : 2, (i * m[q] + j) * l[q] + k, n[q], m[q], l[q])], el(v[q], i, j, k)); check(ok, "order of the transposed transfer back"); } } }
template <class T1, class T2, class T3, int N, bool GIVEN> static void everyR(int un, int tr, int (&e)[2][3]) { everyT<T3, 3, N, GIVEN>(un, tr, e); for (auto& x : e) x[1] = 1; everyT<T2, 2, N, GIVEN>(un, tr, e); if (tr == 0) { for (auto& x : e) x[0] = 1; everyT<T1, 1, N, GIVEN>(un, tr, e); } }
VX_ENTRY(every) { int un = pick<int>(0, 1, "uniform"), given = pick<int>(0, 1, "given"), tr = pick<int>(0, 3, "transpose"); int e[2][3] = {{2, 3, 2}, {1, 2, 3}}; if (pick<int>(0, 1, "shape")) { e[0][0] = 1; e[0][1] = 2; e[0][2] = 3; e[1][0] = 3; e[1][1] = 1; e[1][2] = 2; } if (un) for (int d = 0; d < 3; d++) e[1][d] = e[0][d]; if (param("packed")) { using P = Pack<double, 2>; if (given) everyR<P*, P**, P***, 2, true>(un, tr, e); else everyR<P*, P**, P***, 2, false>(un, tr, e); } else { if (given) everyR<double*, double**, double***, 1, true>(un, tr, e); else everyR<double*, double**, double***, 1, false>(un, tr, e); } cover("every overload"); }
