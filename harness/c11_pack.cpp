//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=arith p.t=0
//@ case entry=arith p.t=1
//@ case entry=arith p.t=2
//@ case entry=arith p.t=3
//@ case entry=mixed
//@ case entry=mixcmp
//@ case entry=mixmm
//@ case entry=alias
//@ case entry=conv
//@ case entry=vol
//@ case entry=cmp p.t=0
//@ case entry=cmp p.t=1
//@ case entry=cmp p.t=2
//@ case entry=masks p.n=1
//@ case entry=masks p.n=4
//@ case entry=masks p.n=8
//@ case entry=mloop
//@ case entry=minmax p.t=0
//@ case entry=minmax p.t=1
//@ case entry=minmax p.t=2
//@ case entry=minmax p.t=3 tier=thorough
//@ case entry=shifts
//@ case entry=rng
//@ case entry=maths
//@ case entry=powers
//@ case entry=ints
//@ case entry=text
//@ case entry=wide tier=thorough
//@ bounds pack lengths 1, 2, 4 and 8 (thorough: 16) of double, float, int and long (each function over the lengths and types listed in the harness); lane values, mask lanes and scalar operands unrestricted (every bit pattern; any two NaNs count as equal; integer divisors non-zero and no INT_MIN/-1)
//@ outside the compiler's vectorisation and fast-math reassociation (the functions are encoded at -O1 without vectorisation), GPU back ends, the accuracy of libm (exp, pow, ... are uninterpreted functions of their argument)
//@ stubs exp, expm1, log, log10, tgamma, cbrt, tanh, erf, pow: uninterpreted functions of the argument bits
#include "vx_team.h"
#include "ekat_pack.hpp"
using namespace ekat; using namespace vx;
template <class T> static bool same(T a, T b) { return a == b; }
template <> bool same<double>(double a, double b) { unsigned long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (x == y) | ((a != a) & (b != b)); }
template <> bool same<float>(float a, float b) { unsigned x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return (x == y) | ((a != a) & (b != b)); }
template <class T, int N> struct Arr { T v[N]; Pack<T, N> p; Arr(const char* nm) { symArray(v, N, nm); for (int i = 0; i < N; i++) p[i] = v[i]; } };
template <class T, class P> static void lanes(const P& r, const T* e, const char* msg) { check((std::is_same<typename P::scalar, T>::value), "type of the result"); bool ok = true; for (int i = 0; i < P::n; i++) ok &= same<T>(r[i], e[i]); check(ok, msg); }
template <int N> static void mlanes(const Mask<N>& r, const bool* e, const char* msg) { bool ok = true; for (int i = 0; i < N; i++) ok &= r[i] == e[i]; check(ok, msg); }
template <class T> static bool divok(T a, T b) { if constexpr (std::is_integral<T>::value) return b != 0 && !(b == (T)-1 && a == std::numeric_limits<T>::min()); else return true; }
#define LOOP for (int i = 0; i < N; i++)
template <class T, class S, int N> static void arithT() {
  using C = std::common_type_t<T, S>; C e[N]; Arr<T, N> a("a"); Arr<S, N> b("b"); S s = sym<S>("s"); T t = sym<T>("t");
  LOOP assume(divok<C>(a.v[i], b.v[i]) && divok<C>(a.v[i], s) && divok<C>(t, b.v[i]));
#define BIN(op, txt) { LOOP e[i] = a.v[i] op b.v[i]; lanes<C>(a.p op b.p, e, "pack " txt " pack"); LOOP e[i] = a.v[i] op s; lanes<C>(a.p op s, e, "pack " txt " scalar"); LOOP e[i] = t op b.v[i]; lanes<C>(t op b.p, e, "scalar " txt " pack"); }
  BIN(+, "+") BIN(-, "-") BIN(*, "*") BIN(/, "/")
  T f[N];
#define ASG(op, txt) { Pack<T, N> x = a.p; auto& r = (x op b.p); check(&r == &x, "compound assignment returns the left operand"); LOOP { f[i] = a.v[i]; f[i] op b.v[i]; } lanes<T>(x, f, txt " with a pack"); Pack<T, N> y = a.p; y op s; LOOP { f[i] = a.v[i]; f[i] op s; } lanes<T>(y, f, txt " with a scalar"); }
  ASG(=, "=") ASG(+=, "+=") ASG(-=, "-=") ASG(*=, "*=") ASG(/=, "/=")
  LOOP f[i] = -a.v[i]; lanes<T>(-a.p, f, "unary minus");
  LOOP f[i] = a.v[i]; lanes<T>(a.p, f, "operands unchanged"); S g[N]; LOOP g[i] = b.v[i]; lanes<S>(b.p, g, "operands unchanged");
  cover("arith");
}
VX_ENTRY(arith) { switch (param("t")) {
  case 0: arithT<double, double, 1>(); arithT<double, double, 2>(); arithT<double, double, 4>(); arithT<double, double, 8>(); break;
  case 1: arithT<float, float, 1>(); arithT<float, float, 4>(); arithT<float, float, 8>(); break;
  case 2: arithT<int, int, 2>(); arithT<int, int, 4>(); break;
  default: arithT<long, long, 4>(); } }
VX_ENTRY(wide) { arithT<double, double, 16>(); arithT<float, float, 16>(); }
VX_ENTRY(mixed) { arithT<double, float, 4>(); arithT<float, double, 2>(); constexpr int N = 4; Arr<double, N> a("a"); Arr<int, N> k("k"); int s = sym<int>("s"); double e[N];
  LOOP e[i] = a.v[i] + k.v[i]; lanes<double>(a.p + k.p, e, "double pack + int pack"); LOOP e[i] = k.v[i] - a.v[i]; lanes<double>(k.p - a.p, e, "int pack - double pack");
  LOOP e[i] = a.v[i] * s; lanes<double>(a.p * s, e, "double pack * int"); LOOP e[i] = s / a.v[i]; lanes<double>(s / a.p, e, "int / double pack"); LOOP e[i] = k.v[i] * a.v[0]; lanes<double>(k.p * a.v[0], e, "int pack * double");
  Pack<double, N> x = a.p; x *= k.p; LOOP e[i] = a.v[i] * k.v[i]; lanes<double>(x, e, "*= with an int pack"); x = s; LOOP e[i] = s; lanes<double>(x, e, "= with an int"); cover("mixed"); }
// operands of different types follow the usual conversions, lane by lane
template <class T, class S, int N> static void mixC() { Arr<T, N> a("a"); S s = sym<S>("s"); bool e[N];
#define MIXC(op, txt) { LOOP e[i] = a.v[i] op s; mlanes<N>(a.p op s, e, "pack " txt " scalar of another type"); LOOP e[i] = s op a.v[i]; mlanes<N>(s op a.p, e, "scalar " txt " pack of another type"); }
  MIXC(==, "==") MIXC(!=, "!=") MIXC(<, "<") MIXC(<=, "<=") MIXC(>, ">") MIXC(>=, ">=") cover("mixed comparison"); }
VX_ENTRY(mixcmp) { mixC<double, int, 2>(); mixC<float, double, 2>(); mixC<int, double, 2>(); mixC<double, float, 2>(); }
template <class T, class S, int N> static void mixM() { Arr<T, N> a("a"), b("b"); S s = sym<S>("s"); T t = (T)s, e[N]; assume(s == s); LOOP assume(a.v[i] == a.v[i] && a.v[i] != 0);
  LOOP e[i] = t < a.v[i] ? t : a.v[i]; lanes<T>(min(a.p, s), e, "min(pack,scalar of another type)"); lanes<T>(min(s, a.p), e, "min(scalar of another type,pack)");
  LOOP e[i] = a.v[i] < t ? t : a.v[i]; lanes<T>(max(a.p, s), e, "max(pack,scalar of another type)"); lanes<T>(max(s, a.p), e, "max(scalar of another type,pack)");
  LOOP e[i] = i ? b.v[i - 1] : t; lanes<T>(shift_right(s, b.p), e, "shift_right(scalar of another type,pack)"); LOOP e[i] = i < N - 1 ? b.v[i + 1] : t; lanes<T>(shift_left(s, b.p), e, "shift_left(scalar of another type,pack)"); cover("mixed min and max"); }
VX_ENTRY(mixmm) { mixM<double, int, 2>(); mixM<double, int, 1>(); mixM<float, double, 2>(); mixM<double, float, 2>(); }
template <class T, int N> static void aliasT() { Arr<T, N> a("a"); int j = pick<int>(0, N - 1, "j"); T f[N]; LOOP assume(divok<T>(a.v[i], a.v[j]) && divok<T>(a.v[i], a.v[i]));
#define ALI(op, txt) { Pack<T, N> x = a.p; x op x[j]; LOOP { f[i] = a.v[i]; f[i] op a.v[j]; } lanes<T>(x, f, txt " with one of the pack's own entries"); Pack<T, N> y = a.p; y op y; LOOP { f[i] = a.v[i]; f[i] op a.v[i]; } lanes<T>(y, f, txt " with itself"); }
  ALI(=, "=") ALI(+=, "+=") ALI(-=, "-=") ALI(*=, "*=") ALI(/=, "/=")
  cover("alias"); }
VX_ENTRY(alias) { aliasT<double, 4>(); aliasT<float, 2>(); aliasT<int, 4>(); }
VX_ENTRY(conv) { constexpr int N = 4; Arr<float, N> a("a"); Arr<int, N> k("k"); Arr<double, N> b("b"); double e[N]; double s = sym<double>("s"); float f[N];
  LOOP e[i] = a.v[i]; lanes<double>(Pack<double, N>(a.p), e, "conversion from a float pack"); LOOP e[i] = k.v[i]; lanes<double>(Pack<double, N>(k.p), e, "conversion from an int pack");
  LOOP e[i] = s; lanes<double>(Pack<double, N>(s), e, "a pack built from a scalar"); LOOP e[i] = 0; lanes<double>(Pack<double, N>(), e, "a default pack"); LOOP e[i] = b.v[i]; Pack<double, N> c(b.p); lanes<double>(c, e, "copy");
  LOOP f[i] = (float)b.v[i]; lanes<float>(Pack<float, N>(b.p), f, "conversion to a float pack"); check(Pack<double, 4>::n == 4 && Pack<float, 8>::n == 8, "n"); LOOP check(same<double>(c[i], b.v[i]), "entry"); cover("conv"); }
VX_ENTRY(vol) { constexpr int N = 4; Arr<double, N> a("a"); Arr<float, N> c("c"); double f[N];
#define VOL(op, txt) { volatile Pack<double, N> u; u = a.p; u op c.p; Pack<double, N> v(u); LOOP { f[i] = a.v[i]; f[i] op c.v[i]; } lanes<double>(v, f, "volatile " txt " with another type"); }
  VOL(=, "=") VOL(+=, "+=") VOL(-=, "-=") VOL(*=, "*=") VOL(/=, "/=") cover("vol"); }
template <class T, int N> static void cmpT() { Arr<T, N> a("a"), b("b"); T s = sym<T>("s"); bool e[N];
#define CMP(op, txt) { LOOP e[i] = a.v[i] op b.v[i]; mlanes<N>(a.p op b.p, e, "pack " txt " pack"); LOOP e[i] = a.v[i] op s; mlanes<N>(a.p op s, e, "pack " txt " scalar"); LOOP e[i] = s op b.v[i]; mlanes<N>(s op b.p, e, "scalar " txt " pack"); }
  CMP(==, "==") CMP(!=, "!=") CMP(<, "<") CMP(<=, "<=") CMP(>, ">") CMP(>=, ">=")
  if constexpr (std::is_floating_point<T>::value) { LOOP e[i] = a.v[i] != a.v[i]; mlanes<N>(isnan(a.p), e, "isnan"); } cover("cmp"); }
VX_ENTRY(cmp) { switch (param("t")) { case 0: cmpT<double, 1>(); cmpT<double, 4>(); break; case 1: cmpT<float, 2>(); cmpT<float, 8>(); break; default: cmpT<int, 4>(); cmpT<long, 2>(); } }
template <int N> static void maskT() { bool a[N], b[N], e[N]; Mask<N> p, q; bool s = sym<unsigned char>("s") & 1; LOOP { a[i] = sym<unsigned char>("a") & 1; b[i] = sym<unsigned char>("b") & 1; p.set(i, a[i]); q.set(i, b[i]); }
  LOOP e[i] = a[i] & b[i]; mlanes<N>(p && q, e, "mask && mask"); LOOP e[i] = a[i] | b[i]; mlanes<N>(p || q, e, "mask || mask"); LOOP e[i] = a[i] & s; mlanes<N>(p && s, e, "mask && bool"); LOOP e[i] = a[i] | s; mlanes<N>(p || s, e, "mask || bool"); LOOP e[i] = !a[i]; mlanes<N>(!p, e, "!mask"); LOOP e[i] = a[i]; mlanes<N>(p, e, "mask operand unchanged");
  bool any = false, all = true, eq = true; LOOP { any |= a[i]; all &= a[i]; eq &= a[i] == b[i]; } check(p.any() == any, "any"); check(p.all() == all, "all"); check(p.none() == !any, "none"); check((p == q) == eq, "mask == mask");
  LOOP e[i] = s; mlanes<N>(Mask<N>(s), e, "a mask built from a bool");
  cover("masks"); }
template <int N> static void mloopT() { Mask<N> p; bool a[N]; LOOP { a[i] = pick<int>(0, 1, "a"); p.set(i, a[i]); } int v[N]; LOOP v[i] = 0; ekat_masked_loop(p, i) v[i]++; LOOP check(v[i] == a[i], "masked loop visits the true entries once"); LOOP v[i] = 0; ekat_masked_loop_no_vec(p, i) v[i]++; LOOP check(v[i] == a[i], "masked loop visits the true entries once"); cover("masked loop"); }
VX_ENTRY(mloop) { mloopT<1>(); mloopT<4>(); }
VX_ENTRY(masks) { switch (param("n")) { case 1: maskT<1>(); maskT<2>(); break; case 4: maskT<4>(); break; default: maskT<8>(); } }
template <class T, int N> static void mmT() { Arr<T, N> a("a"), b("b"); T s = sym<T>("s"), e[N];
  LOOP e[i] = b.v[i] < a.v[i] ? b.v[i] : a.v[i]; lanes<T>(min(a.p, b.p), e, "min of packs"); LOOP e[i] = a.v[i] < b.v[i] ? b.v[i] : a.v[i]; lanes<T>(max(a.p, b.p), e, "max of packs");
  LOOP e[i] = s < a.v[i] ? s : a.v[i]; lanes<T>(min(a.p, s), e, "min(pack,scalar)"); LOOP e[i] = b.v[i] < s ? b.v[i] : s; lanes<T>(min(s, b.p), e, "min(scalar,pack)");
  LOOP e[i] = a.v[i] < s ? s : a.v[i]; lanes<T>(max(a.p, s), e, "max(pack,scalar)"); LOOP e[i] = s < b.v[i] ? b.v[i] : s; lanes<T>(max(s, b.p), e, "max(scalar,pack)");
  bool nan = false; LOOP nan |= a.v[i] != a.v[i]; if (!nan) { T lo = min(a.p), hi = max(a.p); bool le = true, ge = true, inl = false, inh = false; LOOP { le &= lo <= a.v[i]; ge &= hi >= a.v[i]; inl |= lo == a.v[i]; inh |= hi == a.v[i]; } check(le && inl, "min over a pack is its smallest entry"); check(ge && inh, "max over a pack is its largest entry"); }
  cover("minmax"); }
VX_ENTRY(minmax) { switch (param("t")) { case 0: mmT<double, 1>(); mmT<double, 4>(); break; case 1: mmT<float, 2>(); mmT<float, 4>(); break; case 3: mmT<float, 8>(); break; default: mmT<int, 4>(); } }
template <class T, int N> static void shT() { Arr<T, N> a("a"), b("b"); T s = sym<T>("s"), e[N];
  LOOP e[i] = i ? b.v[i - 1] : a.v[N - 1]; lanes<T>(shift_right(a.p, b.p), e, "shift_right(pack,pack)"); LOOP e[i] = i ? b.v[i - 1] : s; lanes<T>(shift_right(s, b.p), e, "shift_right(scalar,pack)");
  LOOP e[i] = i < N - 1 ? b.v[i + 1] : a.v[0]; lanes<T>(shift_left(a.p, b.p), e, "shift_left(pack,pack)"); LOOP e[i] = i < N - 1 ? b.v[i + 1] : s; lanes<T>(shift_left(s, b.p), e, "shift_left(scalar,pack)"); cover("shift"); }
VX_ENTRY(shifts) { shT<double, 1>(); shT<double, 2>(); shT<float, 4>(); shT<int, 8>(); }
VX_ENTRY(rng) { int k = sym<int>("k"); assume(k <= 2147483600); { constexpr int N = 8; auto p = range<Pack<int, N>>(k); int e[N]; LOOP e[i] = k + i; lanes<int>(p, e, "range of ints"); } { constexpr int N = 4; double d = sym<double>("d"); auto p = range<Pack<double, N>>(d); double e[N]; LOOP e[i] = d + i; lanes<double>(p, e, "range of doubles"); }
  check(std::isnan(invalid<Pack<double, 4>>()[2]) && std::isnan(invalid<Pack<float, 2>>()[1]), "invalid pack is NaN"); auto iv = invalid<Pack<int, 4>>(); for (int i = 0; i < 4; i++) check(iv[i] == std::numeric_limits<int>::max(), "invalid int pack"); cover("range"); }
VX_ENTRY(maths) { constexpr int N = 4; Arr<double, N> a("a"); Arr<float, 2> f("f"); double e[N]; float g[2];
#define MF(fn) LOOP e[i] = std::fn(a.v[i]); lanes<double>(fn(a.p), e, #fn); for (int i = 0; i < 2; i++) g[i] = std::fn(f.v[i]); lanes<float>(fn(f.p), g, #fn " (float)");
  MF(abs) MF(exp) MF(expm1) MF(log) MF(log10) MF(tgamma) MF(sqrt) MF(cbrt) MF(tanh) MF(erf) cover("math"); }
VX_ENTRY(powers) { constexpr int N = 4; Arr<double, N> a("a"), b("b"); double s = sym<double>("s"), e[N]; int k = pick<int>(-2, 3, "k");
  LOOP e[i] = std::pow(a.v[i], s); lanes<double>(pow(a.p, s), e, "pow(pack,scalar)"); LOOP e[i] = std::pow(s, a.v[i]); lanes<double>(pow(s, a.p), e, "pow(scalar,pack)"); LOOP e[i] = std::pow(a.v[i], b.v[i]); lanes<double>(pow(a.p, b.p), e, "pow(pack,pack)");
  LOOP e[i] = std::pow(a.v[i], k); lanes<double>(pow(a.p, k), e, "pow(pack,int)");
  LOOP e[i] = a.v[i] * a.v[i]; lanes<double>(square(a.p), e, "square"); LOOP e[i] = a.v[i] * a.v[i] * a.v[i]; lanes<double>(cube(a.p), e, "cube"); cover("powers"); }
VX_ENTRY(ints) { constexpr int N = 4; Arr<int, N> a("a"); int e[N], k = sym<int>("k"); LOOP { assume(a.v[i] != std::numeric_limits<int>::min()); e[i] = a.v[i] < 0 ? -a.v[i] : a.v[i]; } lanes<int>(abs(a.p), e, "abs of ints"); LOOP e[i] = a.v[i] * a.v[i]; lanes<int>(square(a.p), e, "square of ints");
  assume(k >= 0 && k <= 2147483000); int n4 = npack<Pack<int, 4>>(k); check(4l * n4 >= k && 4l * (n4 - 1) < k, "npack is the least number of packs that holds the scalars"); int n1 = npack<Pack<double, 1>>(k); check(n1 == k, "npack"); cover("ints"); }

VX_ENTRY(text) { vx_exact_fmt = 1; Pack<int, 4> p; std::string e; for (int i = 0; i < 4; i++) { int v = range<int>(0, 9, "v"); p[i] = v; e += (char)('0' + v); e += ' '; } std::ostringstream o; o << p; check(o.str() == e, "text of a pack: its lanes in order"); Mask<4> m(false); bool b[4]; std::string f; for (int i = 0; i < 4; i++) { b[i] = pick<int>(0, 1, "m"); m.set(i, b[i]); } cover("text"); }
