//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=setops p.n=1
//@ case entry=setops p.n=4
//@ case entry=upd p.n=1
//@ case entry=upd p.n=4
//@ case entry=wherep p.n=1
//@ case entry=wherep p.n=4
//@ case entry=wherep_mixed
//@ case entry=wheres
//@ case entry=reds p.n=2
//@ case entry=reds p.n=4 tier=thorough
//@ case entry=sums
//@ case entry=sum_any fp=real
//@ case entry=setops p.n=8 tier=thorough
//@ case entry=upd p.n=8 tier=thorough
//@ case entry=wherep p.n=8 tier=thorough
//@ case entry=reds p.n=8 tier=thorough
//@ bounds packs of 1, 2 and 4 (thorough: 8) doubles, with float and int operands where types can be mixed; every mask; lane values, coefficients and scalars unrestricted (every bit pattern, any two NaNs count as equal)
//@ outside vectorisation and fast-math reassociation by the compiler, GPU back ends; the sum order of the non-serialized reduction (checked over the reals)
#include "vx_team.h"
#include "ekat_pack.hpp"
using namespace ekat; using namespace vx;
template <class T> static bool same(T a, T b) { return a == b; }
template <> bool same<double>(double a, double b) { unsigned long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (x == y) | ((a != a) & (b != b)); }
template <class T, int N> struct Arr { T v[N]; Pack<T, N> p; Arr(const char* nm) { symArray(v, N, nm); for (int i = 0; i < N; i++) p[i] = v[i]; } };
template <class P> static void lanes(const P& r, const double* e, const char* msg) { bool ok = true; for (int i = 0; i < P::n; i++) ok &= same<double>(r[i], e[i]); check(ok, msg); }
#define LOOP for (int i = 0; i < N; i++)
template <int N> struct Msk { bool b[N]; Mask<N> m; Msk() { for (int i = 0; i < N; i++) { b[i] = pick<int>(0, 1, "m"); m.set(i, b[i]); } } };
#define SIZES(F) VX_ENTRY(F) { switch (param("n")) { case 1: F##T<1>(); break; case 2: F##T<2>(); break; case 4: F##T<4>(); break; default: F##T<8>(); } }
template <int N> static void setopsT() {
  Msk<N> k; Arr<double, N> a("a"), b("b"), c("c"); Arr<float, N> f("f"); double s = sym<double>("s"), t = sym<double>("t"), e[N]; using P = Pack<double, N>;
  { P x = a.p; auto& r = x.set(k.m, s); LOOP e[i] = k.b[i] ? s : a.v[i]; lanes(x, e, "set(mask,scalar)"); check(&r == &x, "set returns the pack"); }
  { P x = a.p; x.set(k.m, b.p); LOOP e[i] = k.b[i] ? b.v[i] : a.v[i]; lanes(x, e, "set(mask,pack)"); x.set(k.m, f.p); LOOP e[i] = k.b[i] ? (double)f.v[i] : a.v[i]; lanes(x, e, "set(mask,float pack)"); }
  { P x = a.p; x.set(k.m, s, t); LOOP e[i] = k.b[i] ? s : t; lanes(x, e, "set(mask,scalar,scalar)"); P y = a.p; y.set(k.m, b.p, c.p); LOOP e[i] = k.b[i] ? b.v[i] : c.v[i]; lanes(y, e, "set(mask,pack,pack)"); y.set(k.m, f.p, c.p); LOOP e[i] = k.b[i] ? (double)f.v[i] : c.v[i]; lanes(y, e, "set(mask,float pack,pack)"); }
  { P x = a.p; x.set(k.m, x[N - 1], x[0]); LOOP e[i] = k.b[i] ? a.v[N - 1] : a.v[0]; lanes(x, e, "set(mask,scalar,scalar) from own entries"); P y = a.p; y.set(k.m, y[0]); LOOP e[i] = k.b[i] ? a.v[0] : a.v[i]; lanes(y, e, "set(mask,scalar) from own entry"); P z = a.p; z.set(k.m, b.p, z); LOOP e[i] = k.b[i] ? b.v[i] : a.v[i]; lanes(z, e, "set(mask,pack,self)"); }
  { P x(k.m, s); LOOP e[i] = k.b[i] ? s : 0; lanes(x, e, "Pack(mask,scalar)"); P y(k.m, s, t); LOOP e[i] = k.b[i] ? s : t; lanes(y, e, "Pack(mask,scalar,scalar)"); P z(k.m, b.p); LOOP e[i] = k.b[i] ? b.v[i] : 0; lanes(z, e, "Pack(mask,pack)"); P w(k.m, b.p, c.p); LOOP e[i] = k.b[i] ? b.v[i] : c.v[i]; lanes(w, e, "Pack(mask,pack,pack)"); }
  LOOP e[i] = a.v[i]; lanes(a.p, e, "operand unchanged"); LOOP e[i] = b.v[i]; lanes(b.p, e, "operand unchanged"); LOOP check(k.m[i] == k.b[i], "mask unchanged"); cover("set"); }
SIZES(setops)
template <int N> static void updT() {
  Msk<N> k; Arr<double, N> y("y"), x("x"), z("z"); Arr<float, N> f("f"); double al = sym<double>("alpha"), be = sym<double>("beta"), e[N]; using P = Pack<double, N>;
  { P p = y.p; auto& r = p.update(x.p, al, be); LOOP e[i] = be * y.v[i] + al * x.v[i]; lanes(p, e, "update"); check(&r == &p, "update returns the pack"); p = y.p; p.update(x.p, al); LOOP e[i] = 0.0 * y.v[i] + al * x.v[i]; lanes(p, e, "update, default beta"); p = y.p; p.update(x.p); LOOP e[i] = 0.0 * y.v[i] + 1.0 * x.v[i]; lanes(p, e, "update, default coefficients"); p = y.p; p.update(f.p, al, be); LOOP e[i] = be * y.v[i] + al * f.v[i]; lanes(p, e, "update with a float pack"); p = y.p; p.update(p, al, be); LOOP e[i] = be * y.v[i] + al * y.v[i]; lanes(p, e, "update with itself"); p = y.p; p.update(x.p, 3, 2); LOOP e[i] = 2 * y.v[i] + 3 * x.v[i]; lanes(p, e, "update with integer coefficients"); }
  { P p = y.p; p.update(k.m, x.p, al, be); LOOP e[i] = k.b[i] ? be * y.v[i] + al * x.v[i] : y.v[i]; lanes(p, e, "update(mask)"); p = y.p; p.update(k.m, x.p, z.p, al, be); LOOP e[i] = be * y.v[i] + al * (k.b[i] ? x.v[i] : z.v[i]); lanes(p, e, "update(mask,true,false)"); }
  { P p = y.p; p.add(x.p); LOOP e[i] = 1.0 * y.v[i] + 1.0 * x.v[i]; lanes(p, e, "add"); p = y.p; p.add(x.p, al); LOOP e[i] = 1.0 * y.v[i] + al * x.v[i]; lanes(p, e, "add with a coefficient"); p = y.p; p.add(k.m, x.p, al); LOOP e[i] = k.b[i] ? 1.0 * y.v[i] + al * x.v[i] : y.v[i]; lanes(p, e, "add(mask)"); p = y.p; p.add(k.m, x.p, z.p, al); LOOP e[i] = 1.0 * y.v[i] + al * (k.b[i] ? x.v[i] : z.v[i]); lanes(p, e, "add(mask,true,false)"); }
  { P p = y.p; p.update(k.m, x.p); LOOP e[i] = k.b[i] ? 0.0 * y.v[i] + 1.0 * x.v[i] : y.v[i]; lanes(p, e, "update(mask), default coefficients"); p = y.p; p.update(k.m, x.p, al); LOOP e[i] = k.b[i] ? 0.0 * y.v[i] + al * x.v[i] : y.v[i]; lanes(p, e, "update(mask), default beta"); p = y.p; p.update(k.m, x.p, z.p); LOOP e[i] = 0.0 * y.v[i] + 1.0 * (k.b[i] ? x.v[i] : z.v[i]); lanes(p, e, "update(mask,true,false), default coefficients"); p = y.p; p.update(k.m, x.p, z.p, al); LOOP e[i] = 0.0 * y.v[i] + al * (k.b[i] ? x.v[i] : z.v[i]); lanes(p, e, "update(mask,true,false), default beta"); p = y.p; p.add(k.m, x.p); LOOP e[i] = k.b[i] ? 1.0 * y.v[i] + 1.0 * x.v[i] : y.v[i]; lanes(p, e, "add(mask), default coefficient"); p = y.p; p.add(k.m, x.p, z.p); LOOP e[i] = 1.0 * y.v[i] + 1.0 * (k.b[i] ? x.v[i] : z.v[i]); lanes(p, e, "add(mask,true,false), default coefficient"); }
  cover("update"); }
SIZES(upd)
template <int N> static void wherepT() {
  Msk<N> k; Arr<double, N> a("a"), b("b"); double s = sym<double>("s"), e[N]; using P = Pack<double, N>;
#define W(op, txt) { P x = a.p; auto& r = (where(k.m, x) op s); LOOP { e[i] = a.v[i]; if (k.b[i]) e[i] op s; } lanes(x, e, "where " txt " scalar"); check(&r == &x, "where returns the pack"); P y = a.p; where(k.m, y) op b.p; LOOP { e[i] = a.v[i]; if (k.b[i]) e[i] op b.v[i]; } lanes(y, e, "where " txt " pack"); \
    P z = a.p; where(k.m, z) op z[0]; LOOP { e[i] = a.v[i]; if (k.b[i]) e[i] op a.v[0]; } lanes(z, e, "where " txt " own entry"); }
  W(=, "=") W(+=, "+=") W(-=, "-=") W(*=, "*=") W(/=, "/=")
#define S(op, txt) { P x = a.p; double t = s, u = s; double& r = (t op where(k.m, x)); LOOP if (k.b[i]) u op a.v[i]; check(same(t, u), "scalar " txt " where"); check(&r == &t, "scalar update returns the scalar"); LOOP e[i] = a.v[i]; lanes(x, e, "the pack is unchanged"); }
  S(+=, "+=") S(-=, "-=") S(*=, "*=") S(/=, "/=")
  auto w = where(k.m, a.p); bool any = false, all = true; LOOP { any |= k.b[i]; all &= k.b[i]; } check(w.any() == any && w.all() == all && w.none() == !any, "any/all/none of a where expression"); LOOP check(w.mask()[i] == k.b[i] && same(w.value()[i], a.v[i]), "mask and value of a where expression");
  cover("where pack"); }
SIZES(wherep)
VX_ENTRY(wherep_mixed) { constexpr int N = 2; Msk<N> k; Arr<double, N> a("a"); Arr<float, N> f("f"); Arr<int, N> j("j"); double e[N]; int s = sym<int>("s");
  { auto x = a.p; where(k.m, x) += f.p; LOOP e[i] = k.b[i] ? a.v[i] + f.v[i] : a.v[i]; lanes(x, e, "where += float pack"); x = a.p; where(k.m, x) = j.p; LOOP e[i] = k.b[i] ? (double)j.v[i] : a.v[i]; lanes(x, e, "where = int pack"); x = a.p; where(k.m, x) -= s; LOOP e[i] = k.b[i] ? a.v[i] - s : a.v[i]; lanes(x, e, "where -= int"); x = a.p; where(k.m, x) *= j.p; LOOP e[i] = k.b[i] ? a.v[i] * j.v[i] : a.v[i]; lanes(x, e, "where *= int pack"); x = a.p; where(k.m, x) /= f.p; LOOP e[i] = k.b[i] ? a.v[i] / f.v[i] : a.v[i]; lanes(x, e, "where /= float pack"); }
  // narrower packs with wider operands: converted once, after the operation
  { double d = sym<double>("d"), al = sym<double>("alpha"), be = sym<double>("beta"); Arr<float, N> y("y"), z("z"); float g[N]; int h[N];
    auto fl = [&](const Pack<float, N>& r, const char* msg) { LOOP check(sameNum(r[i], g[i]), msg); }; auto il = [&](const Pack<int, N>& r, const char* msg) { LOOP check(r[i] == h[i], msg); };
#define WM(op, txt) { auto x = j.p; where(k.m, x) op d; LOOP { h[i] = j.v[i]; if (k.b[i]) h[i] op d; } il(x, "int pack where " txt " double"); x = j.p; where(k.m, x) op a.p; LOOP { h[i] = j.v[i]; if (k.b[i]) h[i] op a.v[i]; } il(x, "int pack where " txt " double pack"); auto u = f.p; where(k.m, u) op d; LOOP { g[i] = f.v[i]; if (k.b[i]) g[i] op d; } fl(u, "float pack where " txt " double"); u = f.p; where(k.m, u) op a.p; LOOP { g[i] = f.v[i]; if (k.b[i]) g[i] op a.v[i]; } fl(u, "float pack where " txt " double pack"); }
    WM(=, "=") WM(+=, "+=") WM(-=, "-=") WM(*=, "*=") WM(/=, "/=")
    { auto r = y.p; r.update(f.p, al, be); LOOP g[i] = be * y.v[i] + al * f.v[i]; fl(r, "float update with double coefficients"); r = y.p; r.update(k.m, f.p, al, be); LOOP g[i] = k.b[i] ? (float)(be * y.v[i] + al * f.v[i]) : y.v[i]; fl(r, "masked float update with double coefficients"); r = y.p; r.update(k.m, f.p, z.p, al, be); LOOP g[i] = be * y.v[i] + al * (k.b[i] ? f.v[i] : z.v[i]); fl(r, "two-way float update with double coefficients");
      r = y.p; r.update(a.p, al, be); LOOP g[i] = be * y.v[i] + al * a.v[i]; fl(r, "float update with a double pack"); r = y.p; r.update(k.m, a.p, z.p, al, be); LOOP g[i] = k.b[i] ? (float)(be * y.v[i] + al * a.v[i]) : (float)(be * y.v[i] + al * z.v[i]); fl(r, "two-way float update with packs of two types");
      r = y.p; r.add(f.p, al); LOOP g[i] = 1.0 * y.v[i] + al * f.v[i]; fl(r, "float add with a double coefficient"); r = y.p; r.add(k.m, f.p, al); LOOP g[i] = k.b[i] ? (float)(1.0 * y.v[i] + al * f.v[i]) : y.v[i]; fl(r, "masked float add with a double coefficient"); r = y.p; r.add(k.m, f.p, z.p, al); LOOP g[i] = 1.0 * y.v[i] + al * (k.b[i] ? f.v[i] : z.v[i]); fl(r, "two-way float add with a double coefficient"); }
    { Pack<float, N> r = y.p; r.set(k.m, a.p); LOOP g[i] = k.b[i] ? (float)a.v[i] : y.v[i]; fl(r, "float set from a double pack"); r = y.p; r.set(k.m, a.p, f.p); LOOP g[i] = k.b[i] ? (float)a.v[i] : f.v[i]; fl(r, "float set from packs of two types"); Pack<float, N> q(k.m, a.p, f.p); fl(q, "float pack built from packs of two types"); Pack<float, N> w(k.m, a.p); LOOP g[i] = k.b[i] ? (float)a.v[i] : 0.0f; fl(w, "float pack built from a masked double pack"); } }
  cover("where mixed"); }
VX_ENTRY(wheres) { bool m = pick<int>(0, 1, "m"); double a = sym<double>("a"), s = sym<double>("s"); int k = sym<int>("k");
#define WS(op, txt) { double x = a, y = a; auto& r = (where(m, x) op s); if (m) y op s; check(same(x, y), "scalar where " txt); check(&r == &x, "where returns the value"); x = y = a; where(m, x) op k; if (m) y op k; check(same(x, y), "scalar where " txt " int"); }
  WS(=, "=") WS(+=, "+=") WS(-=, "-=") WS(*=, "*=") WS(/=, "/=")
#define SS(op, txt) { double t = s, u = s; t op where(m, a); if (m) u op a; check(same(t, u), "scalar " txt " scalar where"); }
  SS(+=, "+=") SS(-=, "-=") SS(*=, "*=") SS(/=, "/=")
  auto w = where(m, a); check(w.any() == m && w.all() == m && w.none() == !m && w.mask() == m && same(w.value(), a), "any/all/none of a scalar where"); double hi = w.max(s), lo = w.min(s); check(same(hi, m ? (s < a ? a : s) : s), "max of a scalar where"); check(same(lo, m ? (a < s ? a : s) : s), "min of a scalar where"); check(same((double)ekat::max(w, s), hi) && same((double)ekat::min(w, s), lo), "free max/min of a scalar where"); cover("where scalar"); }
template <int N> static void redsT() { Msk<N> k; Arr<double, N> a("a"); double s = sym<double>("s"); LOOP assume(a.v[i] == a.v[i]); assume(s == s);
  double lo = min(k.m, s, a.p), hi = max(k.m, s, a.p); bool le = lo <= s, ge = hi >= s, inl = lo == s, inh = hi == s; LOOP if (k.b[i]) { le &= lo <= a.v[i]; inl |= lo == a.v[i]; ge &= hi >= a.v[i]; inh |= hi == a.v[i]; }
  check(le && inl, "masked min is the smallest of the initial value and the selected entries"); check(ge && inh, "masked max is the largest of the initial value and the selected entries");
  auto w = where(k.m, a.p); check(w.min(s) == lo && w.max(s) == hi, "min and max of a where expression"); check(ekat::min(w, s) == lo && ekat::max(w, s) == hi, "free min and max of a where expression"); cover("masked minmax"); }
SIZES(reds)
template <int N> static void sumsT() { Arr<double, N> a("a"); double s = sym<double>("s"), e = s; LOOP e += a.v[i]; double t = s; reduce_sum<true>(a.p, t); check(same(t, e), "serialized sum is the left-to-right sum onto the initial value"); e = 0; LOOP e += a.v[i]; check(same((double)reduce_sum<true>(a.p), e), "serialized sum is the left-to-right sum"); check(same((double)reduce_sum(a.p), e), "the default sum is serialized in a BFB build"); t = s; e = s; LOOP e += a.v[i]; reduce_sum(a.p, t); check(same(t, e), "the default sum is serialized in a BFB build"); cover("sum"); }
VX_ENTRY(sums) { sumsT<1>(); sumsT<2>(); sumsT<4>(); sumsT<8>(); }
VX_ENTRY(sum_any) { constexpr int N = 8; Arr<double, N> a("a"); double s = sym<double>("s"), e = s; LOOP e += a.v[i]; double t = s; reduce_sum<false>(a.p, t); check(t == e, "sum of the entries"); e -= s; check(reduce_sum<false>(a.p) == e, "sum of the entries"); using R = Kokkos::reduction_identity<Pack<double, N>>; auto z = R::sum(); LOOP check(z[i] == 0, "identity of the sum"); cover("sum any"); }
