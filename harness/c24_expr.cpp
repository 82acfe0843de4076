//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=arith fp=uf
//@ case entry=mixed fp=uf
//@ case entry=preds fp=ieee
//@ case entry=logic fp=ieee
//@ case entry=cond fp=uf
//@ case entry=condtypes fp=ieee
//@ case entry=lazy
//@ case entry=maths fp=uf
//@ case entry=minmax fp=ieee
//@ case entry=nest
//@ case entry=low
//@ case entry=high
//@ case entry=layouts
//@ case entry=shape
//@ case entry=alias
//@ bounds result and operand views of rank 0 to 6, extents 1 to 3 (0 included for ranks 1 and 2), row- and column-major; every operator and function with expression and scalar operands on either side, over double, float, int, unsigned and long, const and non-const entries; trees of two nested levels over all pairs of operators; entries and scalars unrestricted (any two NaNs count as equal; integer divisors non-zero and no INT_MIN/-1)
//@ outside operands whose extents differ from each other (only the first operand's are compared with the result's), accuracy of libm, GPU back ends, ranks that differ (do not compile)
//@ stubs exp, log, sin, cos, pow: uninterpreted functions of the argument bits
#include "vx_team.h"
namespace Kokkos { template <class T> inline constexpr bool is_view_v = is_view<T>::value; }  // Kokkos 4
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
#include <cmath>
using namespace vx; using ekat::evaluate; using ekat::expression; using ekat::if_then_else;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D, class L = Kokkos::LayoutRight> using V = Kokkos::View<D, L, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template <class T> static bool same(T a, T b) { return sameNum(a, b); }
template <class T> static T val(const char* n) { return sym<T>(n); } template <> double val<double>(const char* n) { long l = sym<long>(n); double d; memcpy(&d, &l, 8); return d; } template <> float val<float>(const char* n) { int l = sym<int>(n); float d; memcpy(&d, &l, 4); return d; }
template <class T> struct A { T d[3]; V<T*> v; A(const char* n) { for (auto& x : d) x = val<T>(n); v = V<T*>(d, 3); } V<const T*> c() const { return V<const T*>(d, 3); } };
// evaluates e into a view of R and compares entry i with f(i); entries around the result stay
template <class R, class E, class F> static void is(const E& e, const F& f, const char* what) { R r[5]; R mark = (R)42; for (auto& x : r) x = mark; V<R*> v(r + 1, 3); evaluate(e, v); for (int i = 0; i < 3; i++) check(same<R>(r[i + 1], (R)f(i)), what); check(same(r[0], mark) && same(r[4], mark), "nothing written around the result"); }
VX_ENTRY(arith) { A<double> a("a"), b("b"); double s = val<double>("s"); auto x = expression(a.v); auto y = expression(b.c()); auto& p = a.d; auto& q = b.d; int o = pick<int>(0, 3, "op");
#define OPS(T, l, r, L, R, w) switch (o) { case 0: is<T>(l + r, [&](int i) { return L + R; }, w); break; case 1: is<T>(l - r, [&](int i) { return L - R; }, w); break; case 2: is<T>(l * r, [&](int i) { return L * R; }, w); break; default: is<T>(l / r, [&](int i) { return L / R; }, w); }
  switch (pick<int>(0, 4, "form")) { case 0: OPS(double, x, y, p[i], q[i], "expression op expression") break; case 1: OPS(double, y, x, q[i], p[i], "expression op expression") break; case 2: OPS(double, x, s, p[i], s, "expression op scalar") break; case 3: OPS(double, s, x, s, p[i], "scalar op expression") break; default: is<double>(-x, [&](int i) { return -p[i]; }, "negation"); is<double>(-y, [&](int i) { return -q[i]; }, "negation"); is<double>(x, [&](int i) { return p[i]; }, "the view itself"); } cover("arith"); }
VX_ENTRY(mixed) { A<int> a("a"); A<float> f("f"); A<long> l("l"); A<double> b("b"); A<unsigned> u("u"); int n = sym<int>("n"); float g = val<float>("g"); double s = val<double>("s"); auto x = expression(a.v); auto y = expression(f.c()); auto z = expression(l.v); auto w = expression(b.v); auto v = expression(u.c()); int o = pick<int>(0, 3, "op"), form = pick<int>(0, 9, "form"); for (int i = 0; i < 3; i++) { for (auto t : {(long)a.d[i], l.d[i]}) assume(t > -40000 && t < 40000 && t != 0); assume(u.d[i] > 0); } assume(n > -40000 && n < 40000 && n != 0);
  const char* m = "operands of different types combine in the common type"; switch (form) { case 0: OPS(int, x, n, a.d[i], n, m) break; case 1: OPS(double, n, w, n, b.d[i], m) break; case 2: OPS(double, y, w, f.d[i], b.d[i], m) break; case 3: OPS(long, x, z, a.d[i], l.d[i], m) break; case 4: OPS(double, x, s, a.d[i], s, m) break; case 5: OPS(float, x, g, a.d[i], g, m) break; case 6: OPS(double, x, w, a.d[i], b.d[i], m) break; case 7: OPS(float, w, g, b.d[i], g, "the result is converted to the type of the result view") break; case 8: OPS(unsigned, v, x, u.d[i], a.d[i], m) break; default: OPS(double, x, n, a.d[i], n, "integer operations stay integer") } cover("mixed"); }
#define PRED(l, r, L, R) switch (o) { case 0: is<bool>(l == r, [&](int i) { return L == R; }, w); break; case 1: is<bool>(l != r, [&](int i) { return L != R; }, w); break; case 2: is<bool>(l > r, [&](int i) { return L > R; }, w); break; case 3: is<bool>(l >= r, [&](int i) { return L >= R; }, w); break; case 4: is<bool>(l < r, [&](int i) { return L < R; }, w); break; default: is<bool>(l <= r, [&](int i) { return L <= R; }, w); }
VX_ENTRY(preds) { A<double> a("a"), b("b"); A<int> c("c"); A<unsigned> d("d"); double s = val<double>("s"); int n = sym<int>("n"); auto x = expression(a.v); auto y = expression(b.c()); auto z = expression(c.v); auto u = expression(d.v); int o = pick<int>(0, 5, "op"); const char* w = "comparison of the entries"; switch (pick<int>(0, 6, "form")) { case 0: PRED(x, y, a.d[i], b.d[i]) break; case 1: PRED(x, s, a.d[i], s) break; case 2: PRED(s, x, s, a.d[i]) break; case 3: PRED(z, n, c.d[i], n) break; case 4: PRED(y, n, b.d[i], n) break; case 5: PRED(z, y, c.d[i], b.d[i]) break; default: PRED(u, z, d.d[i], (unsigned)c.d[i]) } cover("preds"); }
VX_ENTRY(logic) { A<double> a("a"), b("b"); A<int> c("c"); bool k = sym<unsigned char>("k") & 1; auto x = expression(a.v); auto y = expression(b.v); auto z = expression(c.v); const char* w = "logical and, or"; switch (pick<int>(0, 5, "form")) { case 0: is<bool>(x < y && z, [&](int i) { return a.d[i] < b.d[i] && c.d[i]; }, w); break; case 1: is<bool>(z || x >= y, [&](int i) { return c.d[i] || a.d[i] >= b.d[i]; }, w); break; case 2: is<bool>(k && z, [&](int i) { return k && c.d[i]; }, w); break; case 3: is<bool>(z || k, [&](int i) { return c.d[i] || k; }, w); break; case 4: is<int>((x == y) || (z != 3), [&](int i) { return a.d[i] == b.d[i] || c.d[i] != 3; }, w); break; default: is<bool>((x > 1 && x < 2) || (y <= x && z), [&](int i) { return (a.d[i] > 1 && a.d[i] < 2) || (b.d[i] <= a.d[i] && c.d[i]); }, w); } cover("logic"); }
VX_ENTRY(cond) { A<double> a("a"), b("b"); A<int> c("c"); double s = val<double>("s"), t = val<double>("t"); bool k = sym<unsigned char>("k") & 1; int n = sym<int>("n"); auto x = expression(a.v); auto y = expression(b.c()); auto z = expression(c.v); const char* w = "the first alternative where the condition holds, else the second"; auto& p = a.d; auto& q = b.d; auto& r = c.d;
  switch (pick<int>(0, 9, "form")) { case 0: is<double>(if_then_else(z, x, y), [&](int i) { return r[i] ? p[i] : q[i]; }, w); break; case 1: is<double>(if_then_else(z, x, s), [&](int i) { return r[i] ? p[i] : s; }, w); break; case 2: is<double>(if_then_else(z, s, x), [&](int i) { return r[i] ? s : p[i]; }, w); break; case 3: is<double>(if_then_else(z, s, t), [&](int i) { return r[i] ? s : t; }, w); break; case 4: is<double>(if_then_else(k, x, y), [&](int i) { return k ? p[i] : q[i]; }, w); break; case 5: is<double>(if_then_else(k, x, s), [&](int i) { return k ? p[i] : s; }, w); break; case 6: is<double>(if_then_else(k, s, x), [&](int i) { return k ? s : p[i]; }, w); break;
    case 7: is<double>(if_then_else(x < y, z, y), [&](int i) { return p[i] < q[i] ? r[i] : q[i]; }, w); break; case 8: is<double>(if_then_else(x > s, n, x * y), [&](int i) { return p[i] > s ? n : p[i] * q[i]; }, w); break; default: is<double>(if_then_else(z == n, -x, if_then_else(k, y, x)), [&](int i) { return r[i] == n ? -p[i] : k ? q[i] : p[i]; }, w); } cover("cond"); }
VX_ENTRY(condtypes) { A<double> a("a"); A<float> f("f"); A<int> c("c"); A<long> l("l"); float g = val<float>("g"); double s = val<double>("s"); auto x = expression(a.v); auto h = expression(f.c()); auto z = expression(c.v); auto w = expression(l.c()); bool k = sym<unsigned char>("k") & 1; const char* t = "alternatives combined in their common type";
  switch (pick<int>(0, 7, "form")) { case 0: is<double>(if_then_else(z > 0, z, x), [&](int i) { return c.d[i] > 0 ? (double)c.d[i] : a.d[i]; }, t); break; case 1: is<double>(if_then_else(z > 0, x, h), [&](int i) { return c.d[i] > 0 ? a.d[i] : (double)f.d[i]; }, t); break; case 2: is<double>(if_then_else(k, h, x), [&](int i) { return k ? (double)f.d[i] : a.d[i]; }, t); break; case 3: is<long>(if_then_else(z == 3, z, w), [&](int i) { return c.d[i] == 3 ? (long)c.d[i] : l.d[i]; }, t); break; case 4: is<double>(if_then_else(z < 0, z, s), [&](int i) { return c.d[i] < 0 ? (double)c.d[i] : s; }, t); break; case 5: is<double>(if_then_else(z < 0, g, x), [&](int i) { return c.d[i] < 0 ? (double)g : a.d[i]; }, t); break; case 6: is<double>(if_then_else(k, z, g), [&](int i) { return (double)(k ? (float)c.d[i] : g); }, t); break; default: is<long>(if_then_else(k, 7, w), [&](int i) { return k ? 7l : l.d[i]; }, t); } cover("condtypes"); }
VX_ENTRY(lazy) { A<int> a("a"), b("b"); auto x = expression(a.v); auto y = expression(b.c()); int n = sym<int>("n"); bool k = sym<unsigned char>("k") & 1; for (int i = 0; i < 3; i++) assume(a.d[i] > -99999 && a.d[i] < 99999); const char* w = "only the alternative taken is evaluated"; switch (pick<int>(0, 4, "form")) { case 0: is<int>(if_then_else(y != 0, x / y, -x), [&](int i) { return b.d[i] ? a.d[i] / b.d[i] : -a.d[i]; }, w); break; case 1: assume(n > -99999); is<int>(if_then_else(y == 0, x, n / y), [&](int i) { return b.d[i] ? n / b.d[i] : a.d[i]; }, w); break; case 2: is<int>(if_then_else(y > 0, x / y, n), [&](int i) { return b.d[i] > 0 ? a.d[i] / b.d[i] : n; }, w); break; case 3: if (!k) for (int i = 0; i < 3; i++) assume(b.d[i] != 0); is<int>(if_then_else(k, x, x / y), [&](int i) { return k ? a.d[i] : a.d[i] / b.d[i]; }, w); break; default: is<int>(if_then_else(y != 0, if_then_else(x > y, x / y, x), y), [&](int i) { return b.d[i] ? (a.d[i] > b.d[i] ? a.d[i] / b.d[i] : a.d[i]) : 0; }, w); } cover("lazy"); }
VX_ENTRY(maths) { A<double> a("a"), b("b"); A<float> f("f"); A<int> c("c"); double s = val<double>("s"); int n = sym<int>("n"); auto x = expression(a.v); auto y = expression(b.v); auto z = expression(c.v); auto h = expression(f.v); auto &p = a.d, &q = b.d; const char* w = "function of the entries";
  switch (pick<int>(0, 13, "fn")) { case 0: is<double>(exp(x), [&](int i) { return std::exp(p[i]); }, w); break; case 1: is<double>(log(x), [&](int i) { return std::log(p[i]); }, w); break; case 2: is<double>(sin(x), [&](int i) { return std::sin(p[i]); }, w); break; case 3: is<double>(cos(x), [&](int i) { return std::cos(p[i]); }, w); break; case 4: is<double>(sqrt(x), [&](int i) { return std::sqrt(p[i]); }, w); break; case 5: is<double>(pow(x, y), [&](int i) { return std::pow(p[i], q[i]); }, w); break; case 6: is<double>(pow(x, s), [&](int i) { return std::pow(p[i], s); }, w); break; case 7: is<double>(pow(s, x), [&](int i) { return std::pow(s, p[i]); }, w); break; case 8: is<double>(pow(x, n), [&](int i) { return std::pow(p[i], n); }, w); break; case 9: is<double>(pow(n, x), [&](int i) { return std::pow(n, p[i]); }, w); break; case 10: is<float>(exp(h), [&](int i) { return std::exp(f.d[i]); }, w); break; case 11: is<float>(pow(h, f.d[0]), [&](int i) { return std::pow(f.d[i], f.d[0]); }, w); break; case 12: is<double>(pow(z, x), [&](int i) { return std::pow(c.d[i], p[i]); }, w); break; default: is<double>(exp(-x) * sin(y) + log(sqrt(cos(x))), [&](int i) { return std::exp(-p[i]) * std::sin(q[i]) + std::log(std::sqrt(std::cos(p[i]))); }, w); } cover("maths"); }
template <class T> static T mx(T a, T b) { return a < b ? b : a; } template <class T> static T mn(T a, T b) { return b < a ? b : a; }
VX_ENTRY(minmax) { A<double> a("a"), b("b"); A<int> c("c"); double s = val<double>("s"); for (int i = 0; i < 3; i++) assume(a.d[i] == a.d[i] && b.d[i] == b.d[i] && s == s && a.d[i] != 0); auto x = expression(a.v); auto y = expression(b.c()); auto z = expression(c.v); int n = sym<int>("n"); auto &p = a.d, &q = b.d; const char* w = "larger and smaller entry"; switch (pick<int>(0, 6, "form")) { case 0: is<double>(max(x, y), [&](int i) { return mx(p[i], q[i]); }, w); break; case 1: is<double>(min(x, y), [&](int i) { return mn(p[i], q[i]); }, w); break; case 2: is<double>(max(x, s), [&](int i) { return mx(p[i], s); }, w); is<double>(min(s, x), [&](int i) { return mn(s, p[i]); }, w); break; case 3: is<double>(min(x, s), [&](int i) { return mn(p[i], s); }, w); is<double>(max(s, x), [&](int i) { return mx(s, p[i]); }, w); break; case 4: is<int>(max(z, n), [&](int i) { return mx(c.d[i], n); }, w); is<int>(min(n, z), [&](int i) { return mn(c.d[i], n); }, w); break; case 5: is<double>(max(z, x), [&](int i) { return mx<double>(c.d[i], p[i]); }, w); break; default: is<double>(min(max(x, s), y), [&](int i) { return mn(mx(p[i], s), q[i]); }, w); } cover("minmax"); }
template <class F> static void op2(int o, const F& f) { switch (o) { case 0: f([](auto a, auto b) { return a + b; }); break; case 1: f([](auto a, auto b) { return a - b; }); break; default: f([](auto a, auto b) { return a * b; }); } }
VX_ENTRY(nest) { A<long> a("a"), b("b"), c("c"); long s = sym<long>("s"); auto x = expression(a.v); auto y = expression(b.v); auto z = expression(c.c()); for (int i = 0; i < 3; i++) for (long v : {a.d[i], b.d[i], c.d[i], s}) assume(v > -100000 && v < 100000); int o1 = pick<int>(0, 2, "op"), o2 = pick<int>(0, 2, "op"), form = pick<int>(0, 4, "form");
  op2(o1, [&](auto f) { op2(o2, [&](auto g) { auto F = [](auto f, auto u, auto v) { return f(u, v); }; const char* w = "nested operations"; switch (form) { case 0: is<long>(f(g(x, y), z), [&](int i) { return f(g(a.d[i], b.d[i]), c.d[i]); }, w); break; case 1: is<long>(f(x, g(y, z)), [&](int i) { return f(a.d[i], g(b.d[i], c.d[i])); }, w); break; case 2: is<long>(f(g(x, s), g(s, z)), [&](int i) { return f(g(a.d[i], s), g(s, c.d[i])); }, w); break; case 3: is<long>(-f(-x, g(x, x)), [&](int i) { return -f(-a.d[i], g(a.d[i], a.d[i])); }, w); break; default: is<long>(if_then_else(f(x, y) < g(y, z), f(s, z), g(x, s)), [&](int i) { return f(a.d[i], b.d[i]) < g(b.d[i], c.d[i]) ? f(s, c.d[i]) : g(a.d[i], s); }, w); } }); }); cover("nest"); }
static long g_a[80], g_b[80], g_r[82]; static void init() { for (auto& x : g_a) x = sym<long>("a"); for (auto& x : g_b) x = sym<long>("b"); for (auto& x : g_r) x = -7; }
static void done(int n, const char* w) { for (int i = 0; i < n; i++) check(g_r[i + 1] == (long)((unsigned long)g_a[i] - (unsigned long)g_b[i]), w); check(g_r[0] == -7 && g_r[n + 1] == -7, "nothing written around the result"); }
VX_ENTRY(low) { init(); int r = pick<int>(0, 2, "rank"), e0 = r > 0 ? pick<int>(0, 3, "e0") : 1, e1 = r > 1 ? pick<int>(0, 3, "e1") : 1; const char* w = "entry of the result at the same indices"; if (r == 0) { V<long> a(g_a), b(g_b), z(g_r + 1); evaluate(expression(a) - expression(b), z); } else if (r == 1) { V<long*> a(g_a, e0), b(g_b, e0), z(g_r + 1, e0); evaluate(expression(a) - expression(b), z); } else { V<long**> a(g_a, e0, e1), b(g_b, e0, e1), z(g_r + 1, e0, e1); evaluate(expression(a) - expression(b), z); } done(e0 * e1, w); cover("low"); }
VX_ENTRY(high) { init(); int r = pick<int>(3, 6, "rank"), e[6], n = 1; for (int d = 0; d < 6; d++) { e[d] = d >= r ? 1 : r <= 4 ? pick<int>(1, 3, "extent") : pick<int>(1, 2, "extent"); n *= e[d]; } assume(n <= 80); const char* w = "entry of the result at the same indices"; if (r == 3) { V<long***> a(g_a, e[0], e[1], e[2]), b(g_b, e[0], e[1], e[2]), z(g_r + 1, e[0], e[1], e[2]); evaluate(expression(a) - expression(b), z); } else if (r == 4) { V<long****> a(g_a, e[0], e[1], e[2], e[3]), b(g_b, e[0], e[1], e[2], e[3]), z(g_r + 1, e[0], e[1], e[2], e[3]); evaluate(expression(a) - expression(b), z); } else if (r == 5) { V<long*****> a(g_a, e[0], e[1], e[2], e[3], e[4]), b(g_b, e[0], e[1], e[2], e[3], e[4]), z(g_r + 1, e[0], e[1], e[2], e[3], e[4]); evaluate(expression(a) - expression(b), z); } else { V<long******> a(g_a, e[0], e[1], e[2], e[3], e[4], e[5]), b(g_b, e[0], e[1], e[2], e[3], e[4], e[5]), z(g_r + 1, e[0], e[1], e[2], e[3], e[4], e[5]); evaluate(expression(a) - expression(b), z); } done(n, w); cover("high"); }
VX_ENTRY(layouts) { init(); int n = pick<int>(1, 3, "n"), m = pick<int>(1, 3, "m"); V<long**> a(g_a, n, m); V<const long**, Kokkos::LayoutLeft> b(g_b, n, m); V<long* [2]> fa(g_a, n); V<long**, Kokkos::LayoutLeft> z(g_r, n, m); if (pick<int>(0, 1, "fixed")) { V<long**> t(g_r, n, 2); evaluate(expression(fa) - expression(b), t.extent(1) == b.extent(1) ? t : V<long**>(g_r, n, 2)); for (int i = 0; i < n; i++) for (int j = 0; j < 2 && m == 2; j++) check(t(i, j) == (long)((unsigned long)a(i, j) - (unsigned long)b(i, j)), "compile-time extents"); return; } evaluate(expression(a) - expression(b), z); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) check(z(i, j) == (long)((unsigned long)a(i, j) - (unsigned long)b(i, j)), "views of different layouts"); cover("layouts"); }
VX_ENTRY(shape) { init(); int e0 = pick<int>(1, 3, "e0"), e1 = pick<int>(1, 3, "e1"), f0 = pick<int>(1, 3, "f0"), f1 = pick<int>(1, 3, "f1"), form = pick<int>(0, 11, "form"); V<long**> a(g_a, e0, e1), z(g_r, f0, f1); long s = sym<long>("s"); auto x = expression(a); bool t = throws([&] { switch (form) { case 0: evaluate(x + s, z); break; case 1: evaluate(s - x, z); break; case 2: evaluate(-x, z); break; case 3: evaluate(if_then_else(s > 0, x, s), z); break; case 4: evaluate(if_then_else(s > 0, s, max(x, s)), z); break; case 5: evaluate(min(s, s < x), z); break; case 6: evaluate(if_then_else(x < s, s, 2 * s), z); break; case 7: evaluate(if_then_else(x < s, x, s), z); break; case 8: evaluate(if_then_else(s == x, s, -x), z); break; case 9: evaluate(if_then_else(s > 0, x, x + 1), z); break; case 10: evaluate(s < x && x < 2 * s, z); break; default: evaluate(if_then_else(x != s || s > 1, max(s, x), x), z); } }); bool bad = e0 != f0 || e1 != f1; check(t == bad, "rejected exactly if the shapes differ"); if (bad) for (int i = 0; i < 9; i++) check(g_r[i] == -7, "the result is untouched then");
  cover(bad ? "rejected" : "fits"); }
VX_ENTRY(alias) { A<long> a("a"), b("b"); long p[3], q[3]; for (int i = 0; i < 3; i++) { p[i] = a.d[i]; q[i] = b.d[i]; assume(p[i] > -9999 && p[i] < 9999 && q[i] > -9999 && q[i] < 9999); } auto x = expression(a.v); auto y = expression(b.v); auto e = x * y + x; evaluate(e, a.v); for (int i = 0; i < 3; i++) check(a.d[i] == p[i] * q[i] + p[i] && b.d[i] == q[i], "the result may be one of the operands"); evaluate(e, b.v); for (int i = 0; i < 3; i++) check(b.d[i] == a.d[i] * q[i] + a.d[i], "an expression sees the current entries each time it is evaluated"); cover("alias"); }
