//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=lead p.r=1
//@ case entry=lead p.r=2
//@ case entry=lead p.r=3
//@ case entry=lead p.r=4
//@ case entry=lead p.r=5
//@ case entry=lead p.r=6
//@ case entry=padded
//@ case entry=second p.r=2
//@ case entry=second p.r=3
//@ case entry=second p.r=4
//@ case entry=second p.r=5
//@ case entry=second p.r=6
//@ case entry=slice p.r=1
//@ case entry=slice p.r=2
//@ case entry=slice p.r=3
//@ case entry=slice p.r=4
//@ case entry=slice p.r=5
//@ case entry=slice p.r=6
//@ case entry=packs
//@ case entry=oob_range p.r=1
//@ case entry=oob_range p.r=2
//@ case entry=oob_range p.r=3
//@ case entry=oob_range p.r=4
//@ case entry=oob_range p.r=5
//@ case entry=oob_range p.r=6
//@ case entry=oob p.r=1
//@ case entry=oob p.r=2
//@ case entry=oob p.r=3
//@ case entry=oob p.r=4
//@ case entry=oob p.r=5
//@ case entry=oob p.r=6
//@ bounds views of rank 1 to 6 with extents between 1 and 4 (several shapes, all unequal neighbours), every slice index and range in the addressed dimensions, every position of the subview (for ranks 4 to 6 every position along each dimension, through a symbolic choice); contiguous and row-padded sources; elements double and Pack<double,2>
//@ outside slicing with indices out of range in builds with assertions disabled (otherwise: rejected, checked one beyond each end); ranges out of bounds
#include "vx_team.h"
#include "ekat_subview_utils.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
using namespace ekat; using namespace vx;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D> using V = Kokkos::View<D, Kokkos::LayoutRight, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
static double buf[800];
static const int EX[3][6] = {{3, 2, 4, 2, 3, 2}, {2, 3, 1, 3, 2, 4}, {1, 4, 2, 1, 3, 3}};
static int E[6], I[6];
static void shape(int r) { int k = pick<int>(0, 2, "shape"); for (int i = 0; i < r; i++) E[i] = EX[k][i]; for (int i = 0; i < r; i++) I[i] = pick<int>(0, E[i] - 1, "pos"); }
#define EXT(w, d, e) check((int)(w).extent(d) == (e), "extent of the subview")
#define AT(a, b) check(&(a) == &(b), "entry of the subview is the entry of the original")
VX_ENTRY(lead) { int r = param("r"); shape(r); auto e = E, i = I; switch (r) {
  case 1: { V<double*> v(buf, e[0]); auto w = ekat::subview(v, i[0]); AT(w(), v(i[0])); break; }
  case 2: { V<double**> v(buf, e[0], e[1]); auto w = ekat::subview(v, i[0]); EXT(w, 0, e[1]); AT(w(i[1]), v(i[0], i[1])); break; }
  case 3: { V<double***> v(buf, e[0], e[1], e[2]); auto w = ekat::subview(v, i[0]); EXT(w, 0, e[1]); EXT(w, 1, e[2]); AT(w(i[1], i[2]), v(i[0], i[1], i[2])); auto x = ekat::subview(v, i[0], i[1]); EXT(x, 0, e[2]); AT(x(i[2]), v(i[0], i[1], i[2])); break; }
  case 4: { V<double****> v(buf, e[0], e[1], e[2], e[3]); auto& t = v(i[0], i[1], i[2], i[3]); auto w = ekat::subview(v, i[0]); EXT(w, 0, e[1]); EXT(w, 1, e[2]); EXT(w, 2, e[3]); AT(w(i[1], i[2], i[3]), t); auto x = ekat::subview(v, i[0], i[1]); EXT(x, 0, e[2]); EXT(x, 1, e[3]); AT(x(i[2], i[3]), t); auto y = ekat::subview(v, i[0], i[1], i[2]); EXT(y, 0, e[3]); AT(y(i[3]), t); break; }
  case 5: { V<double*****> v(buf, e[0], e[1], e[2], e[3], e[4]); auto& t = v(i[0], i[1], i[2], i[3], i[4]); auto w = ekat::subview(v, i[0]); for (int d = 0; d < 4; d++) EXT(w, d, e[d + 1]); AT(w(i[1], i[2], i[3], i[4]), t); auto x = ekat::subview(v, i[0], i[1]); for (int d = 0; d < 3; d++) EXT(x, d, e[d + 2]); AT(x(i[2], i[3], i[4]), t); auto y = ekat::subview(v, i[0], i[1], i[2]); for (int d = 0; d < 2; d++) EXT(y, d, e[d + 3]); AT(y(i[3], i[4]), t); auto z = ekat::subview(v, i[0], i[1], i[2], i[3]); EXT(z, 0, e[4]); AT(z(i[4]), t); break; }
  default: { V<double******> v(buf, e[0], e[1], e[2], e[3], e[4], e[5]); auto& t = v(i[0], i[1], i[2], i[3], i[4], i[5]); auto w = ekat::subview(v, i[0]); for (int d = 0; d < 5; d++) EXT(w, d, e[d + 1]); AT(w(i[1], i[2], i[3], i[4], i[5]), t); auto x = ekat::subview(v, i[0], i[1]); for (int d = 0; d < 4; d++) EXT(x, d, e[d + 2]); AT(x(i[2], i[3], i[4], i[5]), t); auto y = ekat::subview(v, i[0], i[1], i[2]); for (int d = 0; d < 3; d++) EXT(y, d, e[d + 3]); AT(y(i[3], i[4], i[5]), t); auto z = ekat::subview(v, i[0], i[1], i[2], i[3]); for (int d = 0; d < 2; d++) EXT(z, d, e[d + 4]); AT(z(i[4], i[5]), t); auto u = ekat::subview(v, i[0], i[1], i[2], i[3], i[4]); EXT(u, 0, e[5]); AT(u(i[5]), t); } }
  cover("leading indices"); }
// sources whose rows are not adjacent: subviews of subviews along the second dimension
VX_ENTRY(padded) { shape(4); auto e = E, i = I; V<double****> v(buf, e[0], e[1], e[2], e[3]); auto& t = v(i[0], i[1], i[2], i[3]); auto s = ekat::subview_1(v, i[1]); auto w = ekat::subview(s, i[0]); EXT(w, 0, e[2]); EXT(w, 1, e[3]); AT(w(i[2], i[3]), t); auto x = ekat::subview(s, i[0], i[2]); EXT(x, 0, e[3]); AT(x(i[3]), t); auto y = ekat::subview_1(s, i[2]); EXT(y, 0, e[0]); EXT(y, 1, e[3]); AT(y(i[0], i[3]), t); auto z = ekat::subview_1(y, i[3]); EXT(z, 0, e[0]); AT(z(i[0]), t); auto q = ekat::subview(y, i[0]); EXT(q, 0, e[3]); AT(q(i[3]), t); cover("padded"); }
VX_ENTRY(second) { int r = param("r"); shape(r); auto e = E, i = I; switch (r) {
  case 2: { V<double**> v(buf, e[0], e[1]); auto w = ekat::subview_1(v, i[1]); EXT(w, 0, e[0]); AT(w(i[0]), v(i[0], i[1])); break; }
  case 3: { V<double***> v(buf, e[0], e[1], e[2]); auto w = ekat::subview_1(v, i[1]); EXT(w, 0, e[0]); EXT(w, 1, e[2]); AT(w(i[0], i[2]), v(i[0], i[1], i[2])); break; }
  case 4: { V<double****> v(buf, e[0], e[1], e[2], e[3]); auto w = ekat::subview_1(v, i[1]); EXT(w, 0, e[0]); EXT(w, 1, e[2]); EXT(w, 2, e[3]); AT(w(i[0], i[2], i[3]), v(i[0], i[1], i[2], i[3])); break; }
  case 5: { V<double*****> v(buf, e[0], e[1], e[2], e[3], e[4]); auto w = ekat::subview_1(v, i[1]); EXT(w, 0, e[0]); for (int d = 1; d < 4; d++) EXT(w, d, e[d + 1]); AT(w(i[0], i[2], i[3], i[4]), v(i[0], i[1], i[2], i[3], i[4])); break; }
  default: { V<double******> v(buf, e[0], e[1], e[2], e[3], e[4], e[5]); auto w = ekat::subview_1(v, i[1]); EXT(w, 0, e[0]); for (int d = 1; d < 5; d++) EXT(w, d, e[d + 1]); AT(w(i[0], i[2], i[3], i[4], i[5]), v(i[0], i[1], i[2], i[3], i[4], i[5])); } }
  cover("second dimension"); }
VX_ENTRY(slice) { int r = param("r"), k = pick<int>(0, 2, "shape"), dim = pick<int>(0, 5, "dim"); assume(dim < r); for (int d = 0; d < r; d++) E[d] = EX[k][d]; int lo = pick<int>(0, 3, "lo"), hi = pick<int>(1, 4, "hi"); assume(lo < hi && hi <= E[dim]); Kokkos::pair<int, int> p(lo, hi); int j[6], i[6], len[6]; for (int d = 0; d < r; d++) { len[d] = d == dim ? hi - lo : E[d]; j[d] = d == dim || r < 4 ? pick<int>(0, len[d] - 1, "pos") : (len[d] - 1 + d) % len[d]; i[d] = j[d] + (d == dim ? lo : 0); }
  auto e = E; int q = r >= 4 ? pick<int>(0, 5, "other") : 0; if (r >= 4) { assume(q < r); if (q != dim) { j[q] = i[q] = pick<int>(0, len[q] - 1, "pos"); } }
#define SL for (int d = 0; d < r; d++) EXT(w, d, len[d]);
  switch (r) {
  case 1: { V<double*> v(buf, e[0]); auto w = ekat::subview(v, p); SL AT(w(j[0]), v(i[0])); break; }
  case 2: { V<double**> v(buf, e[0], e[1]); auto w = ekat::subview(v, p, dim); SL AT(w(j[0], j[1]), v(i[0], i[1])); break; }
  case 3: { V<double***> v(buf, e[0], e[1], e[2]); auto w = ekat::subview(v, p, dim); SL AT(w(j[0], j[1], j[2]), v(i[0], i[1], i[2])); break; }
  case 4: { V<double****> v(buf, e[0], e[1], e[2], e[3]); auto w = ekat::subview(v, p, dim); SL AT(w(j[0], j[1], j[2], j[3]), v(i[0], i[1], i[2], i[3])); break; }
  case 5: { V<double*****> v(buf, e[0], e[1], e[2], e[3], e[4]); auto w = ekat::subview(v, p, dim); SL AT(w(j[0], j[1], j[2], j[3], j[4]), v(i[0], i[1], i[2], i[3], i[4])); break; }
  default: { V<double******> v(buf, e[0], e[1], e[2], e[3], e[4], e[5]); auto w = ekat::subview(v, p, dim); SL AT(w(j[0], j[1], j[2], j[3], j[4], j[5]), v(i[0], i[1], i[2], i[3], i[4], i[5])); } }
  cover("slice"); }
VX_ENTRY(packs) { using P = Pack<double, 2>; static P pb[40]; shape(3); auto e = E, i = I; V<P***> v(pb, e[0], e[1], e[2]); auto w = ekat::subview(v, i[0]); EXT(w, 0, e[1]); EXT(w, 1, e[2]); AT(w(i[1], i[2]), v(i[0], i[1], i[2])); auto s = scalarize(w); EXT(s, 1, 2 * e[2]); AT(s(i[1], 2 * i[2] + 1), v(i[0], i[1], i[2])[1]); V<const P***> c(pb, e[0], e[1], e[2]); auto x = ekat::subview(c, i[0], i[1]); AT(x(i[2]), v(i[0], i[1], i[2])); auto y = ekat::subview_1(v, i[1]); AT(y(i[0], i[2]), v(i[0], i[1], i[2])); cover("packs"); }

// an index one beyond either end, or a view without data, is rejected (builds with assertions enabled)
VX_ENTRY(oob) { int r = param("r"), w = pick<int>(0, 5, "which"); assume(w == 5 ? r > 1 : w < (r > 1 ? r - 1 : 1)); auto e = E; for (int d = 0; d < r; d++) e[d] = EX[0][d]; int at[6] = {}; int q = pick<int>(0, 5, "bad index"); assume(w == 5 ? q == 1 : q <= w); at[q] = pick<int>(0, 1, "end") ? e[q] + (int)sym<unsigned char>("beyond") : -1 - (int)sym<unsigned char>("beyond"); check(e[q] > 0, "extent"); cover("out of range"); __vx_expect_abort(1);
  try { switch (r) {
  case 1: { V<double*> v(buf, e[0]); if (w == 5) ekat::subview(v, at[0]); else if (w == 0) ekat::subview(v, at[0]); break; }
  case 2: { V<double**> v(buf, e[0], e[1]); if (w == 5) ekat::subview_1(v, at[1]); else if (w == 0) ekat::subview(v, at[0]); break; }
  case 3: { V<double***> v(buf, e[0], e[1], e[2]); if (w == 5) ekat::subview_1(v, at[1]); else if (w == 0) ekat::subview(v, at[0]); else if (w == 1) ekat::subview(v, at[0], at[1]); break; }
  case 4: { V<double****> v(buf, e[0], e[1], e[2], e[3]); if (w == 5) ekat::subview_1(v, at[1]); else if (w == 0) ekat::subview(v, at[0]); else if (w == 1) ekat::subview(v, at[0], at[1]); else if (w == 2) ekat::subview(v, at[0], at[1], at[2]); break; }
  case 5: { V<double*****> v(buf, e[0], e[1], e[2], e[3], e[4]); if (w == 5) ekat::subview_1(v, at[1]); else if (w == 0) ekat::subview(v, at[0]); else if (w == 1) ekat::subview(v, at[0], at[1]); else if (w == 2) ekat::subview(v, at[0], at[1], at[2]); else if (w == 3) ekat::subview(v, at[0], at[1], at[2], at[3]); break; }
  case 6: { V<double******> v(buf, e[0], e[1], e[2], e[3], e[4], e[5]); if (w == 5) ekat::subview_1(v, at[1]); else if (w == 0) ekat::subview(v, at[0]); else if (w == 1) ekat::subview(v, at[0], at[1]); else if (w == 2) ekat::subview(v, at[0], at[1], at[2]); else if (w == 3) ekat::subview(v, at[0], at[1], at[2], at[3]); else if (w == 4) ekat::subview(v, at[0], at[1], at[2], at[3], at[4]); break; }
  } } catch (...) { return; } __vx_expect_abort(0); check(false, "an index out of range is accepted"); }
// a range reversed, empty or reaching beyond either end of its dimension, or a dimension the view does not have, is rejected (builds with assertions enabled)
VX_ENTRY(oob_range) { int r = param("r"); auto e = E; for (int d = 0; d < r; d++) e[d] = EX[0][d]; int dim = pick<int>(0, 5, "dim"); assume(dim < r); int q = pick<int>(0, 3, "what"), by = (int)sym<unsigned char>("by"); assume(q != 3 || r > 1); Kokkos::pair<int, int> p(0, e[dim]);
  if (q == 0) p.first = -1 - by; else if (q == 1) p.second = e[dim] + 1 + by; else if (q == 2) { p.first = pick<int>(0, 2, "first"); assume(p.first <= e[dim]); p.second = p.first - by; } else dim = pick<int>(0, 1, "below") ? -1 - by : r + by;
  check(e[0] > 0, "extent"); cover("range out of bounds"); __vx_expect_abort(1);
  try { switch (r) {
  case 1: { V<double*> v(buf, e[0]); ekat::subview(v, p); break; }
  case 2: { V<double**> v(buf, e[0], e[1]); ekat::subview(v, p, dim); break; }
  case 3: { V<double***> v(buf, e[0], e[1], e[2]); ekat::subview(v, p, dim); break; }
  case 4: { V<double****> v(buf, e[0], e[1], e[2], e[3]); ekat::subview(v, p, dim); break; }
  case 5: { V<double*****> v(buf, e[0], e[1], e[2], e[3], e[4]); ekat::subview(v, p, dim); break; }
  default: { V<double******> v(buf, e[0], e[1], e[2], e[3], e[4], e[5]); ekat::subview(v, p, dim); break; }
  } } catch (...) { return; } __vx_expect_abort(0); check(false, "a range out of bounds is accepted"); }
