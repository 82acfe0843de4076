//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=formula p.N=1 p.m=2
//@ case entry=formula p.N=1 p.m=3
//@ case entry=formula p.N=1 p.m=5
//@ case entry=formula p.N=2 p.m=3
//@ case entry=formula p.N=2 p.m=4
//@ case entry=formula p.N=4 p.m=5
//@ case entry=formula p.N=1 p.m=8 tier=thorough
//@ case entry=formula p.N=2 p.m=7 tier=thorough
//@ case entry=formula p.N=4 p.m=6 tier=thorough
//@ case entry=flt
//@ case entry=columns
//@ case entry=ranges
//@ case entry=shortv
//@ case entry=nested
//@ case entry=line fp=real
//@ case entry=team sched=1
//@ case entry=team3 sched=1 tier=thorough
//@ bounds 2 to 5 (thorough: 8) source points, up to 4 target points, pack lengths 1, 2, 4; source abscissae sorted but otherwise arbitrary (also infinite or repeated), targets and ordinates unrestricted including NaN; up to 3 columns; teams of 1 to 3 threads
//@ outside fewer than two source points; NaN among the source abscissae
#include "vx_team.h"
#include "ekat_lin_interp.hpp"
#include "ekat_subview_utils.hpp"
using namespace ekat; using namespace vx;
static bool bits(double a, double b) { return sameNum(a, b); }
template <class T> using V1 = Kokkos::View<T*, Kokkos::LayoutRight, OmpDevice>;
template <class T> static T expect(const T* x, const T* y, int m, T t) { int c = 0; while (c < m && !(t < x[c])) c++; int k = c > 0 ? c - 1 : 0, h = k == m - 1 ? k - 1 : k + 1; T r = y[h] - y[k]; r *= t - x[k]; r /= x[h] - x[k]; r += y[k]; return r; }
template <class T> static void sorted(const T* x, int m) { for (int i = 0; i < m; i++) assume(x[i] == x[i]); for (int i = 1; i < m; i++) assume(x[i - 1] <= x[i]); }
// splits on the position of t: the number of source points not above it
template <class T> static void place(const T* x, int m, T t) { int c = pick<int>(0, m, "position"); for (int j = 0; j < m; j++) assume((t < x[j]) == (j >= c)); }
template <class T, int N> void form(int m, int n) { using P = Pack<T, N>; LinInterp<T, N, OmpDevice> li(1, m, n); int mp = npack<P>(m), np = npack<P>(n); check(li.km1_pack() == mp && li.km2_pack() == np && li.policy().league_size() == 1, "dimensions"); V1<P> x1("x1", mp), y1("y1", mp), x2("x2", np), y2("y2", np); T x[16], y[16], t[16]; symArray(x, m, "x"); symArray(y, mp * N, "y"); symArray(t, n, "t"); sorted(x, m); for (int i = 0; i < n; i++) place(x, m, t[i]); for (int i = 0; i < mp * N; i++) { if (i < m) x1(i / N)[i % N] = x[i]; y1(i / N)[i % N] = y[i]; } for (int i = 0; i < n; i++) x2(i / N)[i % N] = t[i];
  TeamMember mem{0, 1, 0, 1, 7}; li.setup(mem, x1, x2); li.lin_interp(mem, x1, x2, y1, y2); for (int i = 0; i < n; i++) check(bits(y2(i / N)[i % N], expect(x, y, m, t[i])), "value on the line through the neighbouring points");
  // the same index map serves other ordinates, and scalar or constant views
  V1<const P> xc(x1), tc(x2); T z[16]; symArray(z, mp * N, "z"); V1<T> zs("z", mp * N), ws("w", np * N); for (int i = 0; i < mp * N; i++) zs(i) = z[i]; li.lin_interp(mem, xc, tc, V1<const T>(zs), ws); for (int i = 0; i < n; i++) check(bits(ws(i), expect(x, z, m, t[i])), "second interpolation with the same abscissae"); cover("formula"); }
VX_ENTRY(formula) { int m = param("m"); switch (param("N")) { case 1: return form<double, 1>(m, m < 8 ? 2 : 1); case 2: return form<double, 2>(m, m == 3 ? 3 : 2); default: return form<double, 4>(m, m == 6 ? 3 : 2); } }
VX_ENTRY(flt) { form<float, 2>(3, 2); }
VX_ENTRY(columns) { using P = Pack<double, 2>; LinInterp<double, 2, OmpDevice> li(3, 2, 1); Kokkos::View<P**, Kokkos::LayoutRight, OmpDevice> x1("x1", 3, 1), y1("y1", 3, 1), x2("x2", 3, 1), y2("y2", 3, 1); double x[3][2], y[3][2], t[3]; for (int c = 0; c < 3; c++) { symArray(x[c], 2, "x"); sorted(x[c], 2); symArray(y[c], 2, "y"); t[c] = sym<double>("t"); for (int i = 0; i < 2; i++) { x1(c, 0)[i] = x[c][i]; y1(c, 0)[i] = y[c][i]; } x2(c, 0)[0] = t[c]; }
  int o = pick<int>(0, 2, "order"); bool ex = pick<int>(0, 1, "explicit column"); for (int q = 0; q < 3; q++) { int c = (q + o) % 3; TeamMember m{ex ? 2 - c : c, 3, 0, 1, 7}; if (ex) li.setup(m, ekat::subview(x1, c), ekat::subview(x2, c), c); else if (c % 2) li.setup(m, ekat::subview(x1, c), ekat::subview(x2, c)); else li.setup(m, Kokkos::TeamVectorRange(m, 1), ekat::subview(x1, c), ekat::subview(x2, c)); } for (int c = 0; c < 3; c++) { TeamMember m{ex ? (c + 1) % 3 : c, 3, 0, 1, 7}; if (ex) li.lin_interp(m, ekat::subview(x1, c), ekat::subview(x2, c), ekat::subview(y1, c), ekat::subview(y2, c), c); else if (c % 2 == 0) li.lin_interp(m, ekat::subview(x1, c), ekat::subview(x2, c), ekat::subview(y1, c), ekat::subview(y2, c)); else li.lin_interp(m, Kokkos::TeamVectorRange(m, 1), ekat::subview(x1, c), ekat::subview(x2, c), ekat::subview(y1, c), ekat::subview(y2, c)); } for (int c = 0; c < 3; c++) check(bits(y2(c, 0)[0], expect(x[c], y[c], 2, t[c])), "columns are independent"); cover("columns"); }
VX_ENTRY(ranges) { using P = Pack<double, 2>; LinInterp<double, 2, OmpDevice> li(2, 3, 3); V1<P> x1("x1", 2), y1("y1", 2), x2("x2", 2), y2("y2", 2); double x[3], y[3], t[3]; symArray(x, 3, "x"); symArray(y, 3, "y"); symArray(t, 3, "t"); sorted(x, 3); for (int i = 0; i < 3; i++) place(x, 3, t[i]); for (int i = 0; i < 3; i++) { x1(i / 2)[i % 2] = x[i]; y1(i / 2)[i % 2] = y[i]; x2(i / 2)[i % 2] = t[i]; } y2(0)[0] = y2(0)[1] = y2(1)[0] = y2(1)[1] = 77; int b = pick<int>(0, 1, "first pack"), e = pick<int>(1, 2, "last pack"), col = pick<int>(-1, 1, "column"); assume(b < e); TeamMember m{1, 2, 0, 1, 7}; auto r = Kokkos::ThreadVectorRange(m, b, e); li.setup(m, r, x1, x2, col); li.lin_interp(m, r, x1, x2, y1, y2, col); for (int i = 0; i < 3; i++) check(bits(y2(i / 2)[i % 2], i / 2 >= b && i / 2 < e ? expect(x, y, 3, t[i]) : 77), "exactly the packs in the given range"); cover("ranges"); }
// packs outside the given range are neither read nor written
VX_ENTRY(shortv) { using P = Pack<double, 1>; LinInterp<double, 1, OmpDevice> li(1, 2, 3); V1<P> x1("x1", 2), y1("y1", 2); double x[2], y[2], t[3], u[2]; symArray(x, 2, "x"); symArray(y, 2, "y"); symArray(t, 3, "t"); symArray(u, 2, "u"); sorted(x, 2); for (int i = 0; i < 3; i++) place(x, 2, t[i]); for (int i = 0; i < 2; i++) { place(x, 2, u[i]); x1(i)[0] = x[i]; y1(i)[0] = y[i]; } TeamMember m{0, 1, 0, 1, 7}; V1<P> x2("x2", 3), y2("y2", 3), xs("xs", 2), ys("ys", 2); for (int i = 0; i < 3; i++) x2(i)[0] = t[i]; for (int i = 0; i < 2; i++) xs(i)[0] = u[i]; int e = pick<int>(1, 2, "packs");
  li.setup(m, x1, x2); auto r = Kokkos::ThreadVectorRange(m, 0, e); li.setup(m, r, x1, xs); li.lin_interp(m, r, x1, xs, y1, ys); for (int i = 0; i < e; i++) check(bits(ys(i)[0], expect(x, y, 2, u[i])), "value in a shorter view"); auto q = Kokkos::ThreadVectorRange(m, e, 3); li.lin_interp(m, q, x1, x2, y1, y2); for (int i = e; i < 3; i++) check(bits(y2(i)[0], expect(x, y, 2, t[i])), "the other packs keep their place"); cover("short"); }
// every thread of a team handles its own column with a vector range
VX_ENTRY(nested) { static double x[2][2], y[2][2], t[2][2]; LinInterp<double, 1, OmpDevice> li(2, 2, 2); using P = Pack<double, 1>; Kokkos::View<P**, Kokkos::LayoutRight, OmpDevice> x1("x1", 2, 2), y1("y1", 2, 2), x2("x2", 2, 2), y2("y2", 2, 2); for (int c = 0; c < 2; c++) { symArray(x[c], 2, "x"); sorted(x[c], 2); symArray(y[c], 2, "y"); symArray(t[c], 2, "t"); for (int i = 0; i < 2; i++) { place(x[c], 2, t[c][i]); x1(c, i)[0] = x[c][i]; y1(c, i)[0] = y[c][i]; x2(c, i)[0] = t[c][i]; } }
  run_teams(1, 2, [&](const TeamMember& m) { Kokkos::parallel_for(Kokkos::TeamThreadRange(m, 2), [&](int c) { auto r = Kokkos::ThreadVectorRange(m, 2); auto xc = ekat::subview(x1, c), tc = ekat::subview(x2, c), yc = ekat::subview(y1, c), zc = ekat::subview(y2, c); li.setup(m, r, xc, tc, c); li.lin_interp(m, r, xc, tc, yc, zc, c); }); }); for (int c = 0; c < 2; c++) for (int i = 0; i < 2; i++) check(bits(y2(c, i)[0], expect(x[c], y[c], 2, t[c][i])), "columns handled by different threads of a team"); cover("nested"); }
// a straight line is reproduced, also when extrapolating, and nodes are hit
VX_ENTRY(line) { LinInterp<double, 1, OmpDevice> li(1, 3, 1); V1<Pack<double, 1>> x1("x1", 3), y1("y1", 3), x2("x2", 1), y2("y2", 1); double x[3], a = sym<double>("a"), b = sym<double>("b"), t = sym<double>("t"); symArray(x, 3, "x"); assume(x[0] < x[1] && x[1] < x[2]); place(x, 3, t); for (int i = 0; i < 3; i++) { x1(i)[0] = x[i]; y1(i)[0] = a * x[i] + b; } x2(0)[0] = t; TeamMember m{0, 1, 0, 1, 7}; li.setup(m, x1, x2); li.lin_interp(m, x1, x2, y1, y2); check(y2(0)[0] == a * t + b, "straight lines are reproduced"); cover("line"); }
template <int TS> void teams() { static double x[3], y[3], t[3]; symArray(x, 3, "x"); sorted(x, 3); symArray(y, 3, "y"); for (int i = 0; i < 3; i++) t[i] = i == 2 ? x[pick<int>(0, 2, "node")] : sym<double>("t"); for (int i = 0; i < 3; i++) place(x, 3, t[i]); g_iter_map = pick<int>(0, 1, "distribution"); LinInterp<double, 1, OmpDevice> li(1, 3, 3); V1<Pack<double, 1>> x1("x1", 3), y1("y1", 3), x2("x2", 3), y2("y2", 3); for (int i = 0; i < 3; i++) { x1(i)[0] = x[i]; y1(i)[0] = y[i]; x2(i)[0] = t[i]; }
  run_teams(1, TS, [&](const TeamMember& m) { li.setup(m, x1, x2); li.lin_interp(m, x1, x2, y1, y2); }); for (int i = 0; i < 3; i++) check(bits(y2(i)[0], expect(x, y, 3, t[i])), "same result for any team size"); cover("team"); }
VX_ENTRY(team) { teams<2>(); }
VX_ENTRY(team3) { teams<3>(); }
