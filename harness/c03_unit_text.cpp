//@ build src=src/core/ekat_string_utils.cpp
//@ case entry=rat_float
//@ case entry=rat_text p.N=120 p.D=3
//@ case entry=rat_text_den
//@ case entry=rat_text_big
//@ case entry=rat_text p.N=999 p.D=12 tier=thorough tmo=300000
//@ case entry=rat_text_den tier=thorough p.full=1
//@ case entry=sf_text p.c=0 p.d=1
//@ case entry=sf_text p.c=0 p.d=2
//@ case entry=sf_text p.c=1
//@ case entry=units_text
//@ case entry=units_concat
//@ case entry=units_prefix
//@ case entry=units_si_text
//@ case entry=units_len
//@ bounds numerators -120..120 with denominators 1..3 (thorough: -999..999, 1..12), numerators {-7,5} over every denominator up to 120 (thorough: -9..9 over 1..999), and numerators k*10^e + j (e<=17, k<=9, j in {0,1,7}); scaling factors with |n|<=12, d<=2 and exponents p/q with |p|<=20, q in {1,11}; unit symbols of up to 2 characters over {a . * / ^ space ( ) +}; SI text with one symbolic exponent in -12..12 or halves
//@ outside decimal text of other rationals; a build with assertions disabled for texts longer than the fixed buffer (with assertions: rejected, checked at the boundary)
#include "ekat_units.hpp"
using namespace ekat; using namespace vx;
using RC = RationalConstant; using SF = ScalingFactor; using units::Units;
typedef long long ll;
// decimal digits of v, independent of the code under test
static std::string dec(ll v) { bool neg = v < 0; if (neg) v = -v; int nd = 1; ll t = 10; while (nd < 18 && v >= t) { nd++; t *= 10; } std::string s(neg ? "-" : ""); for (int i = nd - 1; i >= 0; i--) { t = 1; for (int j = 0; j < i; j++) t *= 10; s += (char)('0' + (v / t) % 10); } return s; }
static std::string txt(const RC& r) { return r.den == 1 ? dec(r.num) : dec(r.num) + "/" + dec(r.den); }
static bool isRat(const std::string& s, ll n, ll d) { return s == (d == 1 ? dec(n) : dec(n) + "/" + dec(d)); }
template <size_t N> static std::string cs(const std::array<char, N>& a) { return std::string(a.data()); }
VX_ENTRY(rat_text) { vx_exact_fmt = 1; ll n = range<int>(-(int)param("N"), (int)param("N"), "n"), d = pick<int>(1, param("D"), "d"); RC r(n, d);
  int m = pick<int>(0, 1, "mode"); if (m == 0) check(isRat(cs(r.string_repr<64>()), r.num, r.den), "compact text of a rational"); else { check(isRat(r.to_string(), r.num, r.den), "text of a rational");
  if (d == 1) { std::ostringstream o; o << r; check(o.str() == r.to_string(), "stream output"); } } }
VX_ENTRY(rat_float) { int n = pick<int>(-12, 12, "n"), d = pick<int>(1, 9, "d"); RC r(n, d); std::ostringstream o; o << (double)n / d; check(r.to_string(ekat::Format::Float) == o.str(), "decimal text of a rational"); check(r.to_string(ekat::Format::Rat) == r.to_string(), "the fraction by default"); if (n > 0) { SF f(r, RC(d == 9 ? 1 : d, 2)); std::string t = f.base.to_string(ekat::Format::Float); if (f.exp != RC(1)) t += "^" + f.exp.to_string(ekat::Format::Float); check(f.to_string(ekat::Format::Float) == t, "decimal text of a scaling factor"); } }
VX_ENTRY(rat_text_den) { int full = param("full"); ll d = range<int>(1, full ? 999 : 120, "d"), n = full ? pick<int>(-9, 9, "n") : pick<int>(0, 1, "n") ? -7 : 5; assume(n != 0); RC r(n, d);
  check(isRat(cs(r.string_repr<64>()), r.num, r.den), "compact text of a rational"); }
VX_ENTRY(rat_text_big) { int e = pick<int>(2, 17, "e"); ll k = pick<int>(1, 9, "k"), j = pick<int>(0, 2, "j"), t = 1; for (int i = 0; i < e; i++) t *= 10; ll n = k * t + (j == 2 ? 7 : j); if (pick<int>(0, 1, "neg")) n = -n;
  check(isRat(cs(RC(n).string_repr<64>()), n, 1), "compact text of a large number"); }
static std::string paren(const RC& r) { std::string t = txt(r); return r.den != 1 || r.num < 0 ? "(" + t + ")" : t; }
VX_ENTRY(sf_text) {
  vx_exact_fmt = 1; ll n = range<int>(-12, 12, "n"); ll d = param("d", 1); int c = param("c"); int p, q;
  if (c) { p = range<int>(-20, 20, "p"); q = pick<int>(0, 1, "q") ? 1 : 11; d = 1; n = pick<int>(0, 1, "nn") ? 15 : -7; } else { q = pick<int>(1, 2, "q"); p = q == 2 ? 3 : pick<int>(-1, 2, "p"); assume(p); }
  assume(n != 0 && (n > 0 || q % 2)); RC b(n, d), e(p, q); SF s(b, e); 
  std::string exp = e == RC(1) ? "" : "^" + paren(s.exp);
  check(cs(s.string_repr<96>()) == paren(s.base) + (s.exp == RC(1) ? std::string() : "^" + paren(s.exp)), "compact text of a scaling factor");
  std::string t = txt(s.base); if (!(s.exp == RC(1))) { t += "^"; t += s.exp.den != 1 ? "(" + txt(s.exp) + ")" : txt(s.exp); }
  check(s.to_string() == t, "text of a scaling factor"); if (c) return; std::ostringstream o; o << s; check(o.str() == t, "stream output");
}
static const char* AL = "a.*/^ ()+";
static std::string trimmed(std::string s) { size_t a = 0, b = s.size(); while (a < b && s[a] == ' ') a++; while (b > a && s[b - 1] == ' ') b--; return s.substr(a, b - a); }
VX_ENTRY(units_text) {
  std::string a = strOf(0, 3, AL, "a"); Units u(1, 0, 0, 0, 0, 0, 0, SF::one(), a);
  bool sym = true; for (char c : a) if (c == '*' || c == '/' || c == '^' || c == ' ' || c == '(' || c == ')') sym = false;
  check(u.has_symbol() == sym, "has_symbol"); check(u.to_string() == trimmed(a), "name given at construction"); check(units::m.rename(a).to_string() == trimmed(a), "renamed"); std::ostringstream o; o << u; check(o.str() == trimmed(a), "stream output");
}
static std::string wrap(const std::string& s) { for (char c : s) if (c == '*' || c == '/' || c == '^') return "(" + s + ")"; return s; }
VX_ENTRY(units_concat) {
  std::string a = strOf(1, 2, "a*/^+", "a"), b = strOf(1, 2, "b*/^", "b"); Units u(1, 0, 0, 0, 0, 0, 0, SF::one(), a), v(0, 1, 0, 0, 0, 0, 0, SF::one(), b);
  int m = pick<int>(0, 3, "mode");
  if (m == 0) { check((u * v).to_string() == wrap(a) + "*" + wrap(b), "name of a product"); cover("product"); }
  if (m == 1) { check((u / v).to_string() == wrap(a) + "/" + wrap(b), "name of a quotient"); }
  if (m == 2) { int p = pick<int>(-3, 12, "p"), q = pick<int>(1, 2, "q"); RC e(p, q); check(pow(u, e).to_string() == wrap(a) + "^" + wrap(e.to_string()), "name of a power"); if (p == 1 && q == 2) check(sqrt(u).to_string() == wrap(a) + "^(1/2)", "name of a root"); }
  if (m == 3) { static const int ns[] = {2, 360, 1001}; int n = ns[pick<int>(0, 2, "n")]; SF f(n); std::string t = f.to_string(); check((f * u).to_string() == t + "*" + wrap(a), "name of a multiple"); check((u / f).to_string() == wrap(a) + "/" + t, "name of a fraction"); check((f / u).to_string() == t + "/" + wrap(a), "name of a reciprocal"); check(Units(f).to_string() == t, "name of a pure number"); }
}
// the eight named prefixes put their letter in front of a one-word symbol; anything else is multiplied out
VX_ENTRY(units_prefix) {
  using namespace prefixes; static const SF pf[] = {nano, micro, milli, centi, hecto, kilo, mega, giga}; static const int ex[] = {-9, -6, -3, -2, 2, 3, 6, 9}; static const char* le[] = {"n", "u", "m", "c", "h", "k", "M", "G"};
  std::string a = strOf(1, 2, "am*/^( ", "a"); Units u(1, 0, 0, 0, 0, 0, 0, SF::one(), a); bool sym = true; for (char c : a) if (c != 'a' && c != 'm') sym = false;
  int k = pick<int>(0, 8, "prefix"); if (k == 8) { int n = pick<int>(1, 8, "n"); assume(n != 2 && n != 3 && n != 6); SF f(RC(10), RC(n)); std::string t = wrap(cs(f.string_repr<96>())) + "*" + wrap(a); check((f * u).to_string() == trimmed(t), "name of a multiple without a prefix"); cover("none"); return; }
  SF f(RC(10), RC(ex[k])); check(pf[k] == f, "value of a prefix"); std::string e = sym ? le[k] + a : trimmed(wrap(cs(f.string_repr<96>())) + "*" + wrap(a));
  Units x = pf[k] * u; check(x.to_string() == e, "name of a prefixed unit"); check((u * pf[k]).to_string() == e && (f * u).to_string() == e, "name of a prefixed unit, other forms"); check(x == Units(1, 0, 0, 0, 0, 0, 0, f), "value of a prefixed unit"); if (sym) { check((x / u).to_string() == e + "/" + a, "a prefixed symbol is used like any other"); cover("letter"); } else cover("multiplied out");
}
VX_ENTRY(units_si_text) {
  vx_exact_fmt = 1; static const char* sy[] = {"m", "s", "kg", "K", "A", "mol", "cd"};
  int k = pick<int>(0, 6, "k"); int e[7]; int base = pick<int>(0, 1, "base"); for (int i = 0; i < 7; i++) e[i] = base ? i - 3 : 0; int hv = pick<int>(0, 1, "half"); e[k] = range<int>(-12, 12, "e"); int sc = pick<int>(0, 2, "scaling");
  RC r[7] = {e[0], e[1], e[2], e[3], e[4], e[5], e[6]}; if (hv) r[k] = RC(e[k], 2); SF f = sc == 0 ? SF::one() : sc == 1 ? SF(1000) : SF(RC(10), RC(-3));
  Units u(r[0], r[1], r[2], r[3], r[4], r[5], r[6], f, "zz"); std::string t; bool any = false;
  for (int i = 0; i < 7; i++) if (r[i].num != 0) { if (any) t += " "; any = true; t += sy[i]; if (!(r[i].num == 1 && r[i].den == 1)) t += "^" + txt(r[i]); }
  if (sc || !any) t = f.to_string() + (any ? " " + t : "");
  check(u.get_si_string() == t, "SI text"); cover("si");
}
// names up to the capacity of the fixed buffer are kept whole; one character more is rejected
VX_ENTRY(units_len) {
  const int MAX = units::UNITS_MAX_STR_LEN - 1; int over = pick<int>(0, 1, "over"), m = pick<int>(0, 3, "mode"), c1 = pick<int>(0, 1, "c1"), c2 = pick<int>(0, 1, "c2"); if (m == 3) c2 = 0; if (m == 2) c1 = c2 = 0;
  // p: length of the left name, q: of the right one
  int q = m == 2 ? 0 : m == 3 ? 5 : pick<int>(0, 1, "short") ? 3 : 40, p = MAX - q - (m == 2 ? 0 : 1) - 2 * c1 - 2 * c2 + over;
  std::string a(p, 'a'), b(q, 'b'); if (c1) a[1] = '*'; if (c2) b[1] = '/'; if (m == 3) b = "(1/2)";
  auto run = [&](const std::string& A) { Units u(1, 0, 0, 0, 0, 0, 0, SF::one(), A); if (m == 2) return u.to_string(); if (m == 3) return pow(u, RC(1, 2)).to_string(); Units v(0, 1, 0, 0, 0, 0, 0, SF::one(), b); return (m ? u / v : u * v).to_string(); };
  std::string e = m == 2 ? a : wrap(a) + (m == 3 ? "^" : m ? "/" : "*") + (m == 3 ? b : wrap(b));
  cover(over ? "too long" : "longest"); if (over && p > MAX && m != 2) return;
  if (over) __vx_expect_abort(1);
  std::string r; try { r = run(a); } catch (...) { return; } if (over) { __vx_expect_abort(0); check(false, "name longer than the buffer accepted"); }
  check((int)r.size() == MAX && r == e, "longest name kept whole"); }
