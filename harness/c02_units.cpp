//@ build src=src/core/ekat_string_utils.cpp
//@ case entry=sf_ctor
//@ case entry=sf_eq p.q=1 p.yq=1
//@ case entry=sf_eq p.q=1 p.yq=2
//@ case entry=sf_eq p.q=2 p.yq=2
//@ case entry=sf_mul p.q=1 p.yq=1
//@ case entry=sf_mul p.q=1 p.yq=2 p.yp=1
//@ case entry=sf_mul p.q=2 p.yq=2 p.yp=1
//@ case entry=sf_mul p.q=2 p.yq=2 p.yp=-1
//@ case entry=sf_mul p.q=1 p.yq=2 tier=thorough tmo=300000
//@ case entry=sf_div p.q=1 p.yq=1
//@ case entry=sf_div p.q=2 p.yq=1
//@ case entry=sf_div p.q=2 p.yq=2
//@ case entry=sf_pow
//@ case entry=sf_eq p.q=3 p.yq=2 p.d=2 p.P=2 p.N=3 tier=thorough tmo=300000
//@ case entry=sf_mul p.q=3 p.yq=1 p.d=2 p.P=2 p.N=3 tier=thorough tmo=300000
//@ case entry=sf_mul p.q=2 p.yq=2 p.P=2 p.N=3 tier=thorough tmo=300000
//@ case entry=sf_div p.q=3 p.yq=1 p.d=2 p.P=2 p.N=3 tier=thorough tmo=300000
//@ case entry=units_eq
//@ case entry=units_ops
//@ case entry=units_pow
//@ case entry=units_scale
//@ case entry=units_si
//@ case entry=units_prefix
//@ bounds scaling factors n^(p/q) with |n|<=2 against (n/d)^(p/q) with n in {-2,1,3}, d<=2; p in -1..2, q<=2 (thorough: |n|<=3, p in -2..2, q<=3); exponents of the base units: six fixed distinct values and one (every position) symbolic in -20..20, halves in comparisons; scalings 1..4; powers r/s with |r|<=3, s<=2; the SI table, prefixes and common units exactly
//@ outside a zero factor raised to a negative power; results that do not fit 64-bit integers
#include "ekat_units.hpp"
using namespace ekat; using namespace vx;
using RC = RationalConstant; using SF = ScalingFactor;
typedef long long ll;
struct Q { ll n, d; };
static Q ipow(Q b, ll e) { if (e < 0) { Q t{b.d, b.n}; b = t; e = -e; } Q r{1, 1}; for (ll i = 0; i < e; i++) { r.n *= b.n; r.d *= b.d; } return r; }
struct Fac { ll n, d, p, q; int sign() const { return n < 0 && p % 2 ? -1 : n == 0 && p ? 0 : 1; } Q mag(ll k) const { return ipow({n < 0 ? -n : n, d}, p * (k / q)); } };
static Fac factor(const char* a, const char* b, int D, int P, int Qm, bool conc = false) {
  Fac f; f.d = pick<int>(1, D, "d"); f.q = Qm; f.p = conc && param("yp") ? param("yp") : pick<int>(P == 2 ? -2 : -1, 2, "p"); int N = param("N", 2);
  if (conc) { f.n = pick<int>(-2, 3, a); assume(f.n == -2 || f.n == 1 || f.n == 3); } else f.n = range<int>(-N, N, a);
  assume(f.n != 0 || f.p > 0); assume(f.n >= 0 || (f.q % 2) || f.p % f.q == 0);
  if (f.p % 2 == 0 && f.q == 2) { f.p /= 2; f.q = 1; }
  return f;
}
static SF mk(const Fac& f) { return SF(RC(f.n, f.d), RC(f.p, f.q)); }
static Fac of(const SF& s) { return {s.base.num, s.base.den, s.exp.num, s.exp.den}; }
// |x|^k of both sides for a common multiple k of the root indices, and the signs
static bool same(const Fac& x, const Fac& y) { ll k = 36; while (k > 1 && ((k / 2) % x.q == 0) && ((k / 2) % y.q == 0) && k % 2 == 0) k /= 2; while (k % 3 == 0 && ((k / 3) % x.q == 0) && ((k / 3) % y.q == 0)) k /= 3;
  Q a = x.mag(k), b = y.mag(k); return (x.sign() == y.sign()) & (a.n * b.d == b.n * a.d); }
VX_ENTRY(sf_ctor) {
  ll n = range<int>(-3, 3, "n"), p = pick<int>(-2, 2, "p"), q = pick<int>(1, 2, "q");
  try { SF s(RC(n), RC(p, q)); check(!(n == 0 && p == 0), "0^0 accepted"); check(!(n < 0 && (q % 2 == 0) && p % 2), "even root of a negative number accepted");
    if (n || p > 0) { Fac f{n, 1, p, q}; if (p % 2 == 0 && q == 2) { f.p /= 2; f.q = 1; } check(same(of(s), f), "value changed by construction"); cover("ctor"); }
    SF t(RC(n == 0 ? 1 : n)); check(t.base.num == (n == 0 ? 1 : n) && t.exp == RC(1), "conversion from a number");
  } catch (std::invalid_argument&) { check((n == 0 && p == 0) || (n < 0 && q % 2 == 0 && p % 2), "valid factor rejected"); cover("ctor rejected"); }
  if (n) check(throws([&] { SF r = SF(RC(n)) / SF::zero(); (void)r; }) && throws([&] { SF r = RC(n) / SF::zero(); (void)r; }), "division by zero accepted"); check(throws([&] { SF r = SF::zero() / SF::zero(); (void)r; }) && throws([&] { SF r = RC(0) / SF::zero(); (void)r; }), "zero over zero accepted");
  check(SF::one() == RC(1) && SF::zero() == RC(0), "one/zero");
}
#define PAIR int Qm = param("q", 1), D = param("d", 1), P = param("P", 1); Fac x = factor("xn", "xq", D, P, Qm), y = factor("yn", "yq", 2, P, param("yq", 1), true); SF a = mk(x), b = mk(y);
VX_ENTRY(sf_eq) { PAIR bool e = a == b; check(e == same(x, y), "equality is not equality of the values"); check((a != b) == !e, "inequality is not the negation of equality"); check((b == a) == e, "equality not symmetric"); check(a == a, "not equal to itself");
  if (y.q == 1 && y.p == 1) { check((a == RC(y.n, y.d)) == e, "comparison with a number"); check((RC(y.n, y.d) == a) == e, "comparison with a number"); check((a != RC(y.n, y.d)) == !e && (RC(y.n, y.d) != a) == !e, "comparison with a number"); } }
// representable: the signs survive the even roots of the other factor, or the two can be merged
VX_ENTRY(sf_mul) { PAIR
  assume(y.n != 0);
  try { SF r = a * b; Fac f = of(r); ll k = x.q * y.q; if (k % f.q) k *= f.q; Q u = x.mag(k), v = y.mag(k), w = f.mag(k);
    check((u.n * v.n) * w.d == w.n * (u.d * v.d), "product: magnitude"); check(f.sign() == x.sign() * y.sign(), "product: sign"); cover("product");
    if (x.q == 1 && y.q == 1) { SF t = a; t *= b; check(t == r, "in-place product differs"); }
  } catch (std::invalid_argument&) { check((x.sign() < 0 && y.q % 2 == 0) || (y.sign() < 0 && x.q % 2 == 0), "representable product rejected"); } }
VX_ENTRY(sf_div) { PAIR
  assume(y.n != 0);
  try { SF r = a / b; Fac f = of(r); ll k = x.q * y.q; if (k % f.q) k *= f.q; Q u = x.mag(k), v = y.mag(k), w = f.mag(k);
    check((u.n * v.d) * w.d == w.n * (u.d * v.n), "quotient: magnitude"); check(f.sign() == x.sign() * y.sign(), "quotient: sign"); cover("quotient");
  } catch (std::invalid_argument&) { check((x.sign() < 0 && y.q % 2 == 0) || (y.sign() < 0 && x.q % 2 == 0), "representable quotient rejected"); } }
VX_ENTRY(sf_pow) {
  Fac x = factor("n", "q", 2, 2, pick<int>(1, 2, "q")); assume(x.n != 0); SF a = mk(x); int p = pick<int>(-2, 3, "pp");
  { SF r = pow(a, p); Fac f = x; f.p *= p; if (f.p % 2 == 0 && f.q == 2) { f.p /= 2; f.q = 1; } check(same(of(r), f), "integer power"); }
  try { SF r = pow(a, RC(p, 2)); Fac f = of(r); check(x.sign() > 0 || p % 2 == 0, "even root of a negative number accepted"); check(f.sign() == 1 || (p % 2 == 0), "root is negative");
    ll k = 4 * x.q; if (k % f.q) k *= f.q; Q u = x.mag(k / 2), w = f.mag(k); u = ipow(u, p); check(u.n * w.d == w.n * u.d, "half-integer power"); cover("half power");
  } catch (std::invalid_argument&) { check(x.sign() < 0 && p % 2, "valid power rejected"); }
  try { SF r = sqrt(a); check(x.sign() > 0, "square root of a negative number accepted"); check(of(r).sign() == 1 && r * r == a, "square root"); cover("sqrt"); } catch (std::invalid_argument&) { check(x.sign() < 0, "valid square root rejected"); }
}
using units::Units;
static Units U(const int* e, const SF& s = SF::one()) { return Units(e[0], e[1], e[2], e[3], e[4], e[5], e[6], s, "u"); }
// exponents of the seven base units: fixed and pairwise distinct, except for slot k which is symbolic
static void exps(int* e, const char* n, int k, int off = 0) { for (int i = 0; i < 7; i++) e[i] = (i + off) % 7 - 3; e[k] = range<int>(-20, 20, n); }
VX_ENTRY(units_eq) {
  int a[7], b[7]; int k = pick<int>(0, 6, "k"); exps(a, "a", k); exps(b, "b", k); int j = pick<int>(0, 6, "j"); b[j] += range<int>(0, 1, "bj"); bool same = true; for (int i = 0; i < 7; i++) same &= a[i] == b[i];
  int s = range<int>(1, 9, "s"), t = range<int>(1, 9, "t");
  Units u = U(a, SF(s)), v(b[0], b[1], b[2], b[3], b[4], b[5], b[6], SF(t), "other");
  int mode = pick<int>(0, 3, "mode");
  if (mode == 0) check((u == v) == (same && s == t), "units are equal iff dimensions and scaling are"); if (mode == 1) check((u != v) == !(same && s == t), "inequality");
  if (mode == 2) { bool dl = true; for (int i = 0; i < 7; i++) dl &= a[i] == 0; check(u.is_dimensionless() == dl, "dimensionless"); check(u.is_scaled() == (s != 1), "scaled"); }
  if (mode != 3) return;
  RC e[7] = {a[0], a[1], a[2], a[3], a[4], a[5], a[6]}; e[k] = RC(b[k], 2);
  Units w(e[0], e[1], e[2], e[3], e[4], e[5], e[6], SF(s), "u"); check((w == u) == (b[k] == 2 * a[k]), "fractional exponents compared by value");
}
VX_ENTRY(units_ops) {
  int a[7], b[7], c[7], d[7]; int k = pick<int>(0, 6, "k"); exps(a, "a", k); exps(b, "b", k, 3); for (int i = 0; i < 7; i++) { c[i] = a[i] + b[i]; d[i] = a[i] - b[i]; }
  int s = range<int>(1, 3, "s"), t = range<int>(1, 3, "t");
  Units u = U(a, SF(s)), v = U(b, SF(t));
  { Units w = u.rename("new name"); check(w == u, "a renamed unit is the same unit"); check(w.to_string() == "new name" && u.to_string() == "u", "name of a renamed unit"); }
  check(u != Units::invalid() && Units::invalid() == Units::invalid(), "the invalid unit is no other unit");
  check(u * v == U(c, SF(s * t)), "product adds exponents and multiplies scalings"); check(u / v == U(d, SF(RC(s, t))), "quotient subtracts exponents and divides scalings");
}
VX_ENTRY(units_pow) {
  int a[7]; int k = pick<int>(0, 6, "k"); exps(a, "a", k); int p = pick<int>(-2, 3, "p"), q = pick<int>(1, 2, "q"); int s = pick<int>(1, 3, "s"); assume(p != 0 || s != 0);
  RC r(p, q); Units u = pow(U(a, SF(s)), r); Units w(RC(a[0]) * r, RC(a[1]) * r, RC(a[2]) * r, RC(a[3]) * r, RC(a[4]) * r, RC(a[5]) * r, RC(a[6]) * r, SF(RC(s), r), "w");
  check(u == w, "power multiplies the exponents");
  if (q == 2 && p == 1) { check(sqrt(U(a, SF(s))) == u, "square root is the 1/2 power"); check(sqrt(U(a, SF(s))) * sqrt(U(a, SF(s))) == U(a, SF(s)), "square of the square root"); cover("sqrt units"); }
}
VX_ENTRY(units_scale) {
  int a[7], z[7] = {0, 0, 0, 0, 0, 0, 0}; exps(a, "a", pick<int>(0, 6, "k")); int m[7]; for (int i = 0; i < 7; i++) m[i] = -a[i];
  int s = range<int>(1, 4, "s"), t = range<int>(1, 4, "t"); bool sym = pick<int>(0, 1, "symbol");
  Units u(a[0], a[1], a[2], a[3], a[4], a[5], a[6], SF(s), sym ? "X" : "a*b");
  check(u.has_symbol() == sym, "has_symbol");
  check(SF(t) * u == U(a, SF(s * t)) && u * SF(t) == U(a, SF(s * t)) && RC(t) * u == U(a, SF(s * t)) && u * RC(t) == U(a, SF(s * t)), "scaling multiplies the scaling only");
  check(u / SF(t) == U(a, SF(RC(s, t))) && u / RC(t) == U(a, SF(RC(s, t))), "division by a factor"); check(SF(t) / u == U(m, SF(RC(t, s))) && RC(t) / u == U(m, SF(RC(t, s))), "reciprocal");
  check(Units(SF(t)) == U(z, SF(t)), "pure number"); check(u.rename("abc") == u && u.rename("abc").to_string() == "abc", "rename keeps the value");
}
VX_ENTRY(units_prefix) {
  using namespace units; namespace p = ekat::prefixes;
  struct { SF f; ll n, d; const char* nm; } t[] = {{p::nano, 1, 1000000000, "n"}, {p::micro, 1, 1000000, "u"}, {p::milli, 1, 1000, "m"}, {p::centi, 1, 100, "c"}, {p::hecto, 100, 1, "h"}, {p::kilo, 1000, 1, "k"}, {p::mega, 1000000, 1, "M"}, {p::giga, 1000000000, 1, "G"}};
  int k = pick<int>(0, 7, "k"); int a[7]; exps(a, "a", pick<int>(0, 6, "slot"));
  check(t[k].f == SF(RC(t[k].n, t[k].d)), "value of the prefix"); Units u(a[0], a[1], a[2], a[3], a[4], a[5], a[6], SF::one(), "X");
  Units v = t[k].f * u; check(v == U(a, SF(RC(t[k].n, t[k].d))), "prefixed unit"); check(v.to_string() == std::string(t[k].nm) + "X", "name of the prefixed unit"); check((u * t[k].f).to_string() == std::string(t[k].nm) + "X", "name of the prefixed unit");
  Units w(a[0], a[1], a[2], a[3], a[4], a[5], a[6], SF::one(), "X*Y"); check(t[k].f * w == v, "prefixed compound unit");
}
VX_ENTRY(units_si) {
  using namespace units;
  struct { Units u; int e[7]; ll n, d; const char* nm; } t[] = {
    {m, {1}, 1, 1, "m"}, {s, {0, 1}, 1, 1, "s"}, {kg, {0, 0, 1}, 1, 1, "kg"}, {K, {0, 0, 0, 1}, 1, 1, "K"}, {A, {0, 0, 0, 0, 1}, 1, 1, "A"}, {mol, {0, 0, 0, 0, 0, 1}, 1, 1, "mol"}, {cd, {0, 0, 0, 0, 0, 0, 1}, 1, 1, "cd"},
    {none, {0}, 1, 1, "1"}, {h, {0, 1}, 3600, 1, "h"}, {day, {0, 1}, 86400, 1, "day"}, {year, {0, 1}, 31536000, 1, "yr"}, {g, {0, 0, 1}, 1, 1000, "g"}, {N, {1, -2, 1}, 1, 1, "N"}, {Pa, {-1, -2, 1}, 1, 1, "Pa"}, {bar, {-1, -2, 1}, 100000, 1, "bar"},
    {atm, {-1, -2, 1}, 101325, 1, "atm"}, {J, {2, -2, 1}, 1, 1, "J"}, {W, {2, -3, 1}, 1, 1, "W"}, {C, {0, 1, 0, 0, 1}, 1, 1, "C"}, {V, {2, -3, 1, 0, -1}, 1, 1, "V"}, {T, {0, -2, 1, 0, -1}, 1, 1, "T"}, {F, {-2, 4, -1, 0, 2}, 1, 1, "F"},
    {Wb, {2, -2, 1, 0, -1}, 1, 1, "Wb"}, {H, {2, -2, 1, 0, -2}, 1, 1, "H"}, {Sv, {2, -2}, 1, 1, "Sv"}, {Hz, {0, -1}, 1, 1, "Hz"}, {rad, {0}, 1, 1, "rad"}, {sr, {0}, 1, 1, "sr"}, {dyn, {1, -2, 1}, 1, 100000, "dyn"}, {rem, {2, -2}, 1, 100, "rem"}};
  int k = pick<int>(0, sizeof(t) / sizeof(t[0]) - 1, "k");
  check(t[k].u == U(t[k].e, SF(RC(t[k].n, t[k].d))), "definition of a common unit"); check(t[k].u.to_string() == t[k].nm, "symbol of a common unit"); check(t[k].u.has_symbol(), "common unit has a symbol");
  for (auto& o : t) { bool eq = o.n * t[k].d == t[k].n * o.d; for (int i = 0; i < 7; i++) eq &= o.e[i] == t[k].e[i]; check((o.u == t[k].u) == eq, "distinct units compare equal"); }
}
