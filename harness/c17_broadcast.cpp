//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=b11
//@ case entry=b12
//@ case entry=b13
//@ case entry=b23
//@ case entry=b24
//@ case entry=b34
//@ case entry=bhi
//@ case entry=bad
//@ case entry=resh
//@ case entry=mirror
//@ case entry=fillers
//@ case entry=resh_bad
//@ case entry=ext_bad
//@ case entry=strided
//@ bounds from rank 1, 2, 3 to rank 1 to 8, every choice of broadcast dimensions (rank 8: two choices), extents 1..3, every position; reshape between rank 1, 2, 3 and compile-time shapes of up to 12 entries; row-padded, strided and column-major sources of rank 1 and 2; values unrestricted
//@ outside source extents of zero
#include "vx_team.h"
#include "ekat_kernel_assert.hpp"
#include "ekat_view_broadcast.hpp"
#include "ekat_view_utils.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_utils.hpp"
#include "ekat_test_utils.hpp"
using namespace ekat; using namespace vx;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D> using V = Kokkos::View<D, Kokkos::LayoutRight, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
static double buf[64];
#define AT(a, b) check(&(a) == &(b), "entry of the broadcast view is the entry of the source at the kept indices")
#define SH(w, r) for (int d = 0; d < r; d++) check(w.extent(d) == ext[d], "extent of the broadcast view");
static int e0, e1, e2, ext[8]; static std::vector<int> req(int r, unsigned keep) { std::vector<int> q(r); int k = 0, e[3] = {e0, e1, e2}; for (int d = 0; d < r; d++) if (keep >> d & 1) { q[d] = d % 2 ? 0 : -1; ext[d] = e[k++]; } else q[d] = ext[d] = 3 - (d & 1); return q; }
static int bits(unsigned k) { int n = 0; for (; k; k >>= 1) n += k & 1; return n; }
static void src(int r) { e0 = pick<int>(1, 3, "e0"); e1 = r > 1 ? pick<int>(1, 3, "e1") : 1; e2 = r > 2 ? pick<int>(1, 2, "e2") : 1; }
static int pos(int d) { return pick<int>(0, ext[d] - 1, "pos"); }
static int nth(unsigned keep, int k) { for (int d = 0; d < 8; d++) if ((keep >> d & 1) && k-- == 0) return d; return -1; }
static unsigned keepOf(int from, int to) { unsigned k = pick<int>(1, (1 << to) - 1, "kept dimensions"); assume(bits(k) == from); return k; }
VX_ENTRY(b11) { src(1); V<double*> v(buf, e0); ViewBroadcast<V<double*>> w(v, req(1, 1)); SH(w, 1) int i = pos(0); AT(w(i), v(i)); ViewBroadcast<V<double*>> u; u.setup(v, req(1, 1)); AT(u(i), v(i)); auto c = broadcast<V<double*>>(v, req(1, 1)); AT(c(i), v(i)); cover("1-1"); }
VX_ENTRY(b12) { src(1); unsigned k = keepOf(1, 2); V<double*> v(buf, e0); ViewBroadcast<V<double**>> w(v, req(2, k)); SH(w, 2) int p[2] = {pos(0), pos(1)}; AT(w(p[0], p[1]), v(p[nth(k, 0)])); cover("1-2"); }
VX_ENTRY(b13) { src(1); unsigned k = keepOf(1, 3); V<double*> v(buf, e0); ViewBroadcast<V<double***>> w(v, req(3, k)); SH(w, 3) int p[3] = {pos(0), pos(1), pos(2)}; AT(w(p[0], p[1], p[2]), v(p[nth(k, 0)])); cover("1-3"); }
VX_ENTRY(b23) { src(2); unsigned k = keepOf(2, 3); V<double**> v(buf, e0, e1); ViewBroadcast<V<double***>> w(v, req(3, k)); SH(w, 3) int p[3] = {pos(0), pos(1), pos(2)}; AT(w(p[0], p[1], p[2]), v(p[nth(k, 0)], p[nth(k, 1)])); double x = sym<double>("x"); v(p[nth(k, 0)], p[nth(k, 1)]) = x; double y = w(p[0], p[1], p[2]); check(memcmp(&x, &y, 8) == 0, "a later change of the source is visible"); cover("2-3"); }
VX_ENTRY(b24) { src(2); unsigned k = keepOf(2, 4); V<double**> v(buf, e0, e1); ViewBroadcast<V<double****>> w(v, req(4, k)); SH(w, 4) int p[4] = {pos(0), pos(1), pos(2), pos(3)}; AT(w(p[0], p[1], p[2], p[3]), v(p[nth(k, 0)], p[nth(k, 1)])); cover("2-4"); }
VX_ENTRY(b34) { src(3); unsigned k = keepOf(3, 4); V<double***> v(buf, e0, e1, e2); ViewBroadcast<V<double****>> w(v, req(4, k)); SH(w, 4) int p[4] = {pos(0), pos(1), pos(2), pos(3)}; AT(w(p[0], p[1], p[2], p[3]), v(p[nth(k, 0)], p[nth(k, 1)], p[nth(k, 2)])); cover("3-4"); }
VX_ENTRY(bhi) { e0 = 3; e1 = 2; V<double**> v(buf, 3, 2); int r = pick<int>(5, 8, "rank"), a = pick<int>(0, 7, "a"), b = pick<int>(0, 7, "b"); assume(a < b && b < r); unsigned k = 1u << a | 1u << b; auto q = req(r, k); int p[8]; for (int d = 0; d < r; d++) p[d] = d == a || d == b ? pick<int>(0, ext[d] - 1, "pos") : ext[d] - 1; double& t = v(p[a], p[b]);
  if (r == 5) { ViewBroadcast<V<double*****>> w(v, q); SH(w, 5) AT(w(p[0], p[1], p[2], p[3], p[4]), t); } else if (r == 6) { ViewBroadcast<V<double******>> w(v, q); SH(w, 6) AT(w(p[0], p[1], p[2], p[3], p[4], p[5]), t); } else if (r == 7) { ViewBroadcast<V<double*******>> w(v, q); SH(w, 7) AT(w(p[0], p[1], p[2], p[3], p[4], p[5], p[6]), t); } else { ViewBroadcast<V<double********>> w(v, q); SH(w, 8) AT(w(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), t); } cover("high ranks"); }
VX_ENTRY(bad) { V<double**> v(buf, 3, 2); int n = pick<int>(0, 4, "n"); std::vector<int> q; int keep = 0; for (int d = 0; d < n; d++) { int x = pick<int>(-1, 2, "extent"); q.push_back(x); keep += x <= 0; } bool t = throws([&] { ViewBroadcast<V<double***>> w(v, q); }); check(t == !(n == 3 && keep == 2), "rejected exactly when the number of extents or of kept dimensions is wrong"); cover("bad"); }
VX_ENTRY(resh) { double d[12]; symArray(d, 12, "d"); int n = pick<int>(1, 4, "n"), m = pick<int>(1, 3, "m"); V<double**> v(d, n, m); auto f = reshape<double*>(v, n * m); check((int)f.extent(0) == n * m && f.data() == d, "flattened"); int i = pick<int>(0, n - 1, "i"), j = pick<int>(0, m - 1, "j"); check(&f(i * m + j) == &v(i, j), "row-major order is kept"); auto g = reshape<double**>(f, m, n); check((int)g.extent(0) == m && (int)g.extent(1) == n && &g((i * m + j) / n, (i * m + j) % n) == &v(i, j), "reshaped"); if (m == 3) { auto h = reshape<double* [3]>(f, n); check((int)h.extent(0) == n && h.extent(1) == 3 && &h(i, j) == &v(i, j), "reshaped to a compile-time extent"); } if (n == 4 && m == 3) { auto h = reshape<double[2][6]>(v); check(h.extent(0) == 2 && h.extent(1) == 6 && &h((i * m + j) / 6, (i * m + j) % 6) == &v(i, j), "reshaped to compile-time extents"); } cover("reshape"); }
VX_ENTRY(mirror) { double d[6]; symArray(d, 6, "d"); V<double**> v(d, 2, 3); auto h = create_host_mirror_and_copy(v); check(h.extent(0) == 2 && h.extent(1) == 3, "shape of the copy"); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { double a = h(i, j); check(memcmp(&a, &d[i * 3 + j], 8) == 0, "entries of the copy"); } int k = 0; double o[6]; symArray(o, 6, "o"); int eng = 0; genRandArray(v, eng, [&](int&) { return o[k++]; }); check(k == 6, "one draw per entry"); for (int i = 0; i < 6; i++) check(memcmp(&d[i], &o[i], 8) == 0, "every entry is drawn"); V<const double**> cv(d, 3, 2); auto ch = create_host_mirror_and_copy(cv); check(ch.data() != cv.data(), "a copy of constant data is separate memory"); for (int i = 0; i < 6; i++) { double a = ch(i / 2, i % 2); check(memcmp(&a, &o[i], 8) == 0, "entries of the copy of constant data"); ch(i / 2, i % 2) = 5; } for (int i = 0; i < 6; i++) check(memcmp(&d[i], &o[i], 8) == 0, "the original is unchanged"); cover("mirror"); }

// random fillers: every entry once, in storage order, and nothing past the given length
VX_ENTRY(fillers) { double o[8]; symArray(o, 8, "o"); int k = 0, eng = 0, n = pick<int>(0, 3, "n"), seen = 0; auto pdf = [&](int& e) { check(&e == &eng, "engine"); seen++; return o[k++]; }; Pack<double, 2> p[4]; for (auto& x : p) x = 7.0; genRandArray(p, n, eng, pdf); check(seen == 2 * n, "one draw per lane"); for (int i = 0; i < 4; i++) for (int s = 0; s < 2; s++) { double e = i < n ? o[2 * i + s] : 7.0, g = p[i][s]; check(memcmp(&e, &g, 8) == 0, "lanes in storage order"); }
  double r[5]; for (auto& x : r) x = 7.0; k = seen = 0; genRandArray(r, n, eng, pdf); check(seen == n, "one draw per entry"); for (int i = 0; i < 5; i++) { double e = i < n ? o[i] : 7.0; check(memcmp(&e, &r[i], 8) == 0, "entries in order"); } cover("fillers"); }
// a new shape with another number of entries is rejected (builds with assertions enabled)
VX_ENTRY(resh_bad) { static double d[64]; int n = pick<int>(1, 4, "n"), m = pick<int>(1, 3, "m"), a = pick<int>(0, 6, "a"), b = pick<int>(1, 3, "b"), w = pick<int>(0, 2, "which"); V<double**> v(d, n, m); int sz = w == 0 ? 6 : w == 1 ? a : a * b; assume(sz != n * m); check(v.size() == (size_t)(n * m), "size"); cover("bad shape"); __vx_expect_abort(1); try { if (w == 0) reshape<double[2][3]>(v); else if (w == 1) reshape<double*>(v, a); else reshape<double**>(v, a, b); } catch (...) { return; } __vx_expect_abort(0); check(false, "a shape with another number of entries is accepted"); }
VX_ENTRY(ext_bad) { src(2); V<double**> v(buf, e0, e1); unsigned k = keepOf(2, 3); ViewBroadcast<V<double***>> w(v, req(3, k)); SH(w, 3) int i = sym<int>("i"); assume(i < 0 || i > 2); cover("extent out of range"); __vx_expect_abort(1); try { w.extent(i); } catch (...) { return; } __vx_expect_abort(0); check(false, "the extent of a dimension that does not exist is asked for and given"); }
// sources whose entries are not where the layout of the broadcast view expects them are rejected, all others are exposed exactly
template <class S> static void stridedT(const S& v, bool fits) { unsigned k = keepOf(S::rank, 3); e0 = v.extent(0); e1 = S::rank > 1 ? (int)v.extent(1) : 1; ViewBroadcast<V<double***>> w; auto q = req(3, k); bool t = throws([&] { w.setup(v, q); }); check(t == !fits, "rejected exactly when the entries are elsewhere"); if (t) { cover("rejected"); return; } int p[3] = {pos(0), pos(1), pos(2)}; if constexpr (S::rank == 1) AT(w(p[0], p[1], p[2]), v(p[nth(k, 0)])); else AT(w(p[0], p[1], p[2]), v(p[nth(k, 0)], p[nth(k, 1)])); cover("exposed"); }
VX_ENTRY(strided) { V<double**> a(buf, 3, 3); int n = pick<int>(1, 3, "n"), m = pick<int>(1, 3, "m"); auto r = std::make_pair(0, n), c = std::make_pair(0, m); switch (pick<int>(0, 4, "source")) {
    case 0: return stridedT(Kokkos::subview(a, r, c), (n == 1 || m == 3));
    case 1: return stridedT(Kokkos::subview(a, r, 1), n == 1);
    case 2: return stridedT(Kokkos::subview(a, 1, c), true);
    case 3: return stridedT(Kokkos::View<double**, Kokkos::LayoutLeft, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>(buf, n, m), n == 1 || m == 1);
    default: return stridedT(Kokkos::View<double*, Kokkos::LayoutLeft, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>(buf, n), true); } }
