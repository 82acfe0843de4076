//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ variant O0 -O0
//@ case entry=lifetime
//@ case entry=lifetime variant=O0
//@ bounds one tree of nine nodes built from temporaries, its copy, debug and optimised code
#include "vx_team.h"
namespace Kokkos { template <class T> inline constexpr bool is_view_v = is_view<T>::value; }  // Kokkos 4
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
#include <cmath>
using namespace vx; using ekat::evaluate; using ekat::expression; using ekat::if_then_else;
using HS = Kokkos::Device<Kokkos::Serial, Kokkos::HostSpace>;
template <class D, class L = Kokkos::LayoutRight> using V = Kokkos::View<D, L, HS, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template <class T> static bool same(T a, T b) { return sameNum(a, b); }
template <class T> static T val(const char* n) { return sym<T>(n); } template <> double val<double>(const char* n) { long l = sym<long>(n); double d; memcpy(&d, &l, 8); return d; } template <> float val<float>(const char* n) { int l = sym<int>(n); float d; memcpy(&d, &l, 4); return d; }
template <class T> struct A { T d[3]; V<T*> v; A(const char* n) { for (auto& x : d) x = val<T>(n); v = V<T*>(d, 3); } V<const T*> c() const { return V<const T*>(d, 3); } };
// evaluates e into a view of R and compares entry i with f(i); entries around the result stay
template <class R, class E, class F> static void is(const E& e, const F& f, const char* what) { R r[5]; R mark = (R)42; for (auto& x : r) x = mark; V<R*> v(r + 1, 3); evaluate(e, v); for (int i = 0; i < 3; i++) check(same<R>(r[i + 1], (R)f(i)), what); check(same(r[0], mark) && same(r[4], mark), "nothing written around the result"); }
template <class X, class Y> static __attribute__((noinline)) auto build(const X& a, const Y& b, long s) { auto t = expression(a) - s; long u = s + 1; return if_then_else(t < u, max(t, expression(b)) + u, -(expression(b) * 2)); }
static __attribute__((noinline)) long stomp(long x) { volatile long junk[64]; for (int i = 0; i < 64; i++) junk[i] = x; return junk[3]; }
VX_ENTRY(lifetime) { A<long> a("a"), b("b"); long s = sym<long>("s"); for (int i = 0; i < 3; i++) for (long v : {a.d[i], b.d[i], s}) assume(v > -9999 && v < 9999); auto e = build(a.v, b.c(), s); stomp(5); is<long>(e, [&](int i) { long t = a.d[i] - s; return t < s + 1 ? (t < b.d[i] ? b.d[i] : t) + s + 1 : -(b.d[i] * 2); }, "an expression keeps its parts"); auto c = e; stomp(6); is<long>(c.as_base(), [&](int i) { long t = a.d[i] - s; return t < s + 1 ? (t < b.d[i] ? b.d[i] : t) + s + 1 : -(b.d[i] * 2); }, "so does a copy"); check(e.rank() == 1 && e.extent(0) == 3, "rank and extent"); cover("lifetime"); }
