//@ case entry=rc_ctor_types
//@ case entry=rc_ctor p.N=40 p.D=12
//@ case entry=rc_ctor tier=thorough p.N=127 p.D=127
//@ case entry=rc_ctor_int
//@ case entry=rc_sum
//@ case entry=rc_diff
//@ case entry=rc_prod
//@ case entry=rc_quot p.R=2
//@ case entry=rc_quot tier=thorough p.back=1
//@ case entry=rc_cmp
//@ case entry=rc_pow p.lo=-3 p.hi=-3 p.N=2
//@ case entry=rc_pow p.lo=-2 p.hi=2
//@ case entry=rc_pow p.lo=3 p.hi=3
//@ case entry=rc_pow p.lo=4 p.hi=4
//@ case entry=rc_pow tier=thorough p.lo=5 p.hi=6
//@ case entry=rc_big tier=thorough tmo=300000
//@ case entry=rc_ops tier=thorough p.R=5 tmo=300000
//@ bounds constructor: every numerator in [-40,40] and denominator in [-12,12] (thorough: all pairs of 8-bit signed integers; numerators of 20 bits over denominators of 6 bits); arithmetic operands: every fraction n/d with |n|<=4, 1<=|d|<=2 (quotients |n|,|d|<=2; thorough |n|,|d|<=5); powers: |n|<=3, |d|<=2, exponents -3..4; conversion from integers: all 32-bit values
//@ outside results that do not fit 64-bit integers
#include "ekat_rational_constant.hpp"
using namespace ekat; using namespace vx;
using RC = RationalConstant;
typedef long long ll;
static void canonical(const RC& r) {
  check(r.den > 0, "denominator is not positive");
  ll g = range<int>(2, 127, "g");
  check(!(r.num % g == 0 && r.den % g == 0), "not in lowest terms");
}
VX_ENTRY(rc_ctor) {
  int N = param("N"), D = param("D"); ll n = range<int>(-N, N, "n"), d = range<int>(-D, D, "d");
  try {
    RC r(n, d);
    check(d != 0, "zero denominator accepted");
    cover("constructed");
    check(r.num * d == r.den * n, "value of the fraction changed");
    canonical(r);
  } catch (std::invalid_argument&) { check(d == 0, "valid fraction rejected"); cover("rejected"); }
}
VX_ENTRY(rc_ctor_int) {
  int n = sym<int>("n");
  RC r(n); check(r.num == n && r.den == 1, "integer is not n/1");
  RC m = -r; check(m.num == -(ll)n && m.den == 1, "negation");
  check(RC::one().num == 1 && RC::one().den == 1 && RC::zero().num == 0 && RC::zero().den == 1, "one/zero");
}
VX_ENTRY(rc_ctor_types) {
  ll n = sym<ll>("n"); assume(n > -(1ll << 62) && n < (1ll << 62)); { RC r(n); check(r.num == n && r.den == 1, "integer is not n/1"); RC q((long)n); check(q.num == n && q.den == 1, "integer is not n/1"); }
  unsigned u = sym<unsigned>("u"); { RC r(u); check(r.num == (ll)u && r.den == 1, "unsigned integer is not n/1"); RC t(u, 1u); check(t.num == (ll)u && t.den == 1, "unsigned integer is not n/1"); } short h = sym<short>("h"); signed char c = sym<signed char>("c"); { RC r(h), t(c); check(r.num == h && r.den == 1 && t.num == c && t.den == 1, "short integer is not n/1"); }
  RC a(1000000007ll * 4096, 4096ll * 3); check(a.num == 1000000007ll && a.den == 3, "large terms"); RC b(-(1ll << 40), 1ll << 33); check(b.num == -128 && b.den == 1, "large terms");
}
VX_ENTRY(rc_big) {
  ll n = range<int>(-500000, 500000, "n"), d = range<int>(-32, 32, "d"); assume(d != 0);
  RC r(n, d);
  check(r.num * d == r.den * n, "value of the fraction changed");
  canonical(r);
}
static RC operand(const char* a, const char* b, ll& n, ll& d, int N, int D) {
  n = range<int>(-N, N, a); d = pick<int>(-D, D, b); assume(d != 0);
  return RC(n, d);
}
#define TWO ll an, ad, bn, bd; int R = param("R", 0); RC a = operand("an", "ad", an, ad, R ? R : 4, R ? R : 2), b = operand("bn", "bd", bn, bd, R ? R : 4, R ? R : 2);
static bool ck(const RC& s, ll n, ll d) { return s.num * d == s.den * n; }
VX_ENTRY(rc_sum) { TWO auto s = a + b; check(ck(s, an * bd + bn * ad, ad * bd), "sum"); check(s.den > 0, "sum: denominator not positive"); auto t = b + a; check(s.num == t.num && s.den == t.den, "sum depends on the order"); }
VX_ENTRY(rc_diff) { TWO auto s = a - b; check(ck(s, an * bd - bn * ad, ad * bd), "difference"); check(s.den > 0, "difference: denominator not positive"); auto z = s + b; check(z.num == a.num && z.den == a.den, "(a-b)+b is not a"); }
VX_ENTRY(rc_prod) { TWO auto s = a * b; check(ck(s, an * bn, ad * bd), "product"); canonical(s); }
VX_ENTRY(rc_quot) {
  TWO
  try { auto s = a / b; check(bn != 0, "division by zero accepted"); check(ck(s, an * bd, ad * bn), "quotient"); check(s.den > 0, "quotient: denominator not positive"); cover("quotient");
    if (param("back")) { auto z = s * b; check(z.num == a.num && z.den == a.den, "(a/b)*b is not a"); } }
  catch (std::invalid_argument&) { check(bn == 0, "valid division rejected"); cover("div by zero"); }
}
VX_ENTRY(rc_cmp) { TWO
  check((a == b) == (an * bd == bn * ad), "equality is not equality of values");
  check((a != b) == !(a == b), "inequality is not the negation of equality");
  check((a == b) == (a.num == b.num && a.den == b.den), "equal values with different representations");
  check((a == -a) == (an == 0), "negation");
  check((RC(an) == an) && (RC(an) * 2 == 2 * an), "mixing with integers");
}
VX_ENTRY(rc_pow) {
  ll n, d; RC a = operand("n", "d", n, d, param("N", 3), 2); int p = pick<int>(param("lo"), param("hi"), "p"); 
  try {
    auto s = pow(a, p);
    check(!(n == 0 && p <= 0), "0 to a non-positive power accepted");
    ll x = 1, y = 1; for (int i = 0; i < (p < 0 ? -p : p); i++) { x *= n; y *= d; }
    if (p < 0) { ll t = x; x = y; y = t; }
    check(ck(s, x, y), "power"); check(s.den > 0, "power: denominator not positive");
    cover("pow");
  } catch (std::invalid_argument&) { check(n == 0 && p <= 0, "valid power rejected"); cover("pow rejected"); }
}
VX_ENTRY(rc_ops) { TWO
  check(ck(a + b, an * bd + bn * ad, ad * bd), "sum"); check(ck(a - b, an * bd - bn * ad, ad * bd), "difference"); check(ck(a * b, an * bn, ad * bd), "product");
  check((a == b) == (an * bd == bn * ad), "equality"); canonical(a * b); canonical(a + b);
}
