//@ build src=src/parser/ekat_yaml.cpp,src/core/ekat_string_utils.cpp,src/core/ekat_parameter_list.cpp inc=shim/yaml
//@ case entry=yw_int p.base=0 p.r=12
//@ case entry=yw_int p.base=2147483635 p.r=12
//@ case entry=yw_int p.base=-2147483636 p.r=12
//@ case entry=yw_int p.base=0 p.r=100 tier=thorough
//@ case entry=yw_int p.base=2147483547 p.r=100 tier=thorough
//@ case entry=yw_int p.base=-2147483548 p.r=100 tier=thorough
//@ case entry=yw_int p.base=1000000 p.r=100 tier=thorough
//@ case entry=yw_int p.base=-12345678 p.r=100 tier=thorough
//@ case entry=yw_real15 p.X=-5 p.neg=0
//@ case entry=yw_real15 p.X=-4 p.neg=0
//@ case entry=yw_real15 p.X=-1 p.neg=1
//@ case entry=yw_real15 p.X=0 p.neg=0
//@ case entry=yw_real15 p.X=13 p.neg=0
//@ case entry=yw_real15 p.X=14 p.neg=1
//@ case entry=yw_real15 p.X=15 p.neg=0
//@ case entry=yw_real15 p.X=20 p.neg=1
//@ case entry=yw_real15 p.X=-300 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=-100 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=-20 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=-5 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=-4 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=0 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=1 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=7 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=11 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=12 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=13 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=15 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=16 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=17 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=99 p.neg=1 tier=thorough
//@ case entry=yw_real15 p.X=300 p.neg=1 tier=thorough
//@ case entry=yw_real17 p.X=0 p.neg=0
//@ case entry=yw_real17 p.X=3 p.neg=1
//@ case entry=yw_real17 p.X=20 p.neg=0
//@ case entry=yw_real17 p.X=0 p.neg=1 p.fix=11 tier=thorough
//@ case entry=yw_real17 p.X=3 p.neg=0 p.fix=11 tier=thorough
//@ case entry=yw_real17 p.X=20 p.neg=1 p.fix=11 tier=thorough
//@ case entry=yw_real_special
//@ case entry=yw_string p.L=2
//@ case entry=yw_string p.L=3 tier=thorough
//@ case entry=yw_string_lines
//@ case entry=yw_string_num p.L=3
//@ case entry=yw_string_num p.L=4 tier=thorough
//@ case entry=yw_seq
//@ case entry=yw_seq_long
//@ case entry=yw_nested
//@ case entry=yw_unsupported
//@ bounds integers within 12 (thorough 100) of 0 and of both ends of the int range (thorough: also around 1000000 and -12345678); reals with every choice of up to 15 significant digits, 16 exponents between -300 and 300 and both signs; reals with 17 digits of which the last 4 (thorough 6) are arbitrary, and 3 exponents; special values, the largest and the smallest numbers; strings of up to 2 (thorough 3) characters out of letters, digits, blanks, newlines, quotes and YAML punctuation, strings that look like numbers and logicals, multi-line texts; sequences of up to 2 entries of each type, short and longer than a line; lists nested twice with every choice of present entries
//@ outside the text that yaml-cpp makes of its events (checked against yaml-cpp 0.8 separately), other digits counts and exponents, strings with characters outside printable ASCII and newline, parameter names that need quotes
//@ stubs yaml-cpp is replaced by a stand-in whose emitter builds the tree that yaml-cpp reads back from the emitted text (quoting, literal blocks); conversion between doubles and decimal text is modelled by an uninterpreted function of the exact decimal value, with correct rounding of the digits
#include "ekat_yaml.hpp"
#include "ekat_parameter_list.hpp"
#include <yaml-cpp/yaml.h>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace ekat; using namespace vx; using std::string; using std::vector;
static unsigned long bits(double d) { unsigned long u; memcpy(&u, &d, 8); return u; }
#ifdef VX_NATIVE
static string fileName() { static string n; if (n.empty()) { char t[] = "/tmp/vx_yaml_XXXXXX"; int f = mkstemp(t); if (f >= 0) close(f); n = t; } return n; }
static string fileText() { std::ifstream f(fileName()); std::stringstream s; s << f.rdbuf(); return s.str(); }
struct Cleanup { ~Cleanup() { unlink(fileName().c_str()); } };
#else
static string fileName() { return "/tmp/vx_yaml"; }
static string fileText() { return std::vx_last_file_name == fileName() ? std::vx_last_file : string(); }
struct Cleanup {};
#endif
// write, then read what was written
static ParameterList trip(const ParameterList& p) { Cleanup c; YAML::g_file = YAML::null(); YAML::g_bad_file = false; write_yaml_file(fileName(), p); string t = fileText(); check(t.find("<document>") != string::npos && t.find("---") < t.find("<document>"), "the document is not in the file"); return parse_yaml_file(fileName()); }
static void one(const ParameterList& r) { check(r.param_names().size() == 1 && r.sublist_names().empty() && r.isParameter("k"), "entries of the file"); }

VX_ENTRY(yw_int) { vx_exact_fmt = 1; int R = param("r"), o = range<int>(-R, R, "offset"); int v = (int)param("base") + o; ParameterList p; p.set("k", v); if (pick<int>(0, 1, "bool")) { bool b = pick<int>(0, 1, "value"); p.set("b", b); auto r = trip(p); check(r.isType<bool>("b") && r.get<bool>("b") == b && r.param_names().size() == 2, "logical"); } else { auto r = trip(p); one(r); check(r.isType<int>("k") && r.get<int>("k") == v, "integer comes back with the same type and value"); } cover("int"); }

// ---- reals: the double nearest to  (-) D0.D1D2... x 10^X, with symbolic digits
struct Num { unsigned char g[20]; int k, X; bool neg, up; long thr; double d; };
static Num N; static bool haveN = false;
// text of the first n significant digits: style 'g' (with or without all zeros), 'f', 'e'
static int put(char* b, const unsigned char* g, int n, int X, bool neg, bool expo, bool zeros) {
  unsigned char t[40]; int m = n; for (int i = 0; i < n; i++) t[i] = i < 20 ? g[i] : 0; if (!zeros) while (m > 1 && t[m - 1] == 0) m--;
  int l = 0; if (neg) b[l++] = '-';
  if (expo) { b[l++] = '0' + t[0]; if (m > 1 || zeros) b[l++] = '.'; for (int i = 1; i < m; i++) b[l++] = '0' + t[i]; b[l++] = 'e'; int a = X < 0 ? -X : X; b[l++] = X < 0 ? '-' : '+'; if (a >= 100) b[l++] = '0' + a / 100; b[l++] = '0' + a / 10 % 10; b[l++] = '0' + a % 10; return l; }
  if (X < 0) { b[l++] = '0'; b[l++] = '.'; for (int i = 1; i < -X; i++) b[l++] = '0'; for (int i = 0; i < m; i++) b[l++] = '0' + t[i]; return l; }
  for (int i = 0; i <= X; i++) b[l++] = i < n ? '0' + t[i] : '0'; if (m > X + 1 || zeros) b[l++] = '.'; for (int i = X + 1; i < m; i++) b[l++] = '0' + t[i]; return l; }
#ifndef VX_NATIVE
extern "C" int __vx_is_symbolic_val(unsigned long); extern "C" int __vx_fmt_double(double, int, unsigned, char*, int); extern "C" double __vx_parse_double(const char*, unsigned long);
static int fmtHook(double v, int prec, unsigned fl, char* b, int) {
  if (!haveN || !__vx_is_symbolic_val(bits(v))) return -1;
  bool fx = fl & std::ios_base::fixed, sc = fl & std::ios_base::scientific; if (fx && sc) __vx_fail("hexadecimal output is not modelled"); if (prec == 0 && !fx && !sc) prec = 1; int n = fx ? N.X + 1 + prec : sc ? prec + 1 : prec; int X = N.X; unsigned char t[20]; for (int i = 0; i < 20; i++) t[i] = N.g[i];
  if (n < 1) __vx_fail("too few digits to be modelled"); 
  if (n < 17) { bool rest = false; for (int i = n + 1; i < 17; i++) rest |= t[i] != 0; unsigned c = (t[n] > 5) | ((t[n] == 5) & (rest | N.up)); for (int i = n; i < 20; i++) t[i] = 0; for (int i = n - 1; i >= 0; i--) { unsigned s = t[i] + c; c = s > 9; t[i] = c ? 0 : s; } if (c) { t[0] = 1; X++; if (fx) n++; } }
  bool expo = sc || (!fx && (X < -4 || X >= n)); return put(b, t, n, X, N.neg, expo, fx || sc || (fl & std::ios_base::showpoint)); }
// the value depends on the exact decimal value of the text only
static double parseHook(const char* p, unsigned long n) {
  if (!haveN) return __vx_parse_double(p, n);
  bool sym_ = false; for (unsigned long i = 0; i < n; i++) sym_ |= __vx_is_symbolic_val((unsigned char)p[i]); if (!sym_) return __vx_parse_double(p, n);
  unsigned long i = 0; bool neg = false; if (p[i] == '-' || p[i] == '+') neg = p[i++] == '-'; unsigned char d[20] = {}; int nd = 0, pt = -1, pos = 0, X = 0; bool lead = true, exact = true;
  for (; i < n && p[i] != 'e' && p[i] != 'E'; i++) { if (p[i] == '.') { pt = pos; continue; } int x = p[i] - '0'; if (lead && x == 0) { pos++; continue; } if (lead) { X = pos; lead = false; } if (nd < 20) d[nd++] = x; else if (x) exact = false; pos++; }
  if (!exact) __vx_fail("more digits than modelled"); if (pt < 0) pt = pos; X = pt - X - 1; int e = 0; if (i < n) { i++; bool en = false; if (p[i] == '-' || p[i] == '+') en = p[i++] == '-'; for (; i < n; i++) e = e * 10 + (p[i] - '0'); if (en) e = -e; } X += e;
  char c[32]; c[0] = neg ? '-' : '+'; for (int j = 0; j < 20; j++) c[1 + j] = d[j]; c[21] = (char)(X & 255); c[22] = (char)(X >> 8); c[23] = 'e'; double v = __vx_parse_double(c, 24); unsigned long vb = bits(v); assume((vb >> 52 & 2047) - 1 < 2046 && (vb >> 63) == neg);
  if (N.d == N.d) { // different decimal values are different numbers, unless both have more than 15 digits
    if (X != N.X) assume(v != N.d); else { bool eq = true, top = true; for (int j = 0; j < 17; j++) { eq &= d[j] == N.g[j]; if (j < 9) top &= d[j] == N.g[j]; } int diff = 0; if (N.thr > 1) for (int j = 9; j < 17; j++) diff = diff * 10 + (d[j] - N.g[j]); bool far = N.thr <= 1 ? !eq : !top || diff >= N.thr || -diff >= N.thr; assume(!far || v != N.d); } }
  return v; }
#endif
// choose the number: k symbolic digits
static double number(int k, int X, bool neg, long thr) {
  N = Num(); N.k = k; N.X = X; N.neg = neg; N.thr = thr; N.up = sym<unsigned char>("up") & 1; N.d = __builtin_nan(""); unsigned char g[20] = {}; int fx = thr > 1 ? param("fix", 13) : 0; symArray(g + fx, k - fx, "digit"); if (fx) { for (int i = 0; i < fx; i++) g[i] = i < 9 ? i + 1 : 0; } for (int i = 0; i < k; i++) { assume(g[i] <= 9); N.g[i] = g[i]; } assume(g[0] != 0);
  char b[64]; int l = put(b, N.g, k, X, neg, true, true); b[l] = 0;
#ifdef VX_NATIVE
  N.d = strtod(b, nullptr);
#else
  vx_fmt_hook = fmtHook; vx_parse_hook = parseHook; haveN = true; double d = parseHook(b, l); N.d = d;
#endif
  return N.d; }
static void done() { haveN = false; }
// at least one decimal, no superfluous zeros
static void realText(const string& s) { size_t e = s.find('e'); string m = s.substr(0, e); size_t pt = m.find('.'); check(pt != string::npos && pt + 1 < m.size(), "real without decimals"); check(m.back() != '0' || pt + 2 == m.size(), "trailing zeros"); }
static void real(double d) { ParameterList p; p.set("k", d); auto r = trip(p); one(r); check(r.isType<double>("k"), "a real comes back as another type"); check(bits(r.get<double>("k")) == bits(d), "a real comes back with another value"); realText(YAML::g_file["k"].Scalar()); }
VX_ENTRY(yw_real15) { double d = number(15, param("X"), param("neg"), 1); real(d); done(); cover("15 digits"); }
VX_ENTRY(yw_real17) { double d = number(17, param("X"), param("neg"), 3);
  // rounding to fewer digits changes the number by at least 3 units of the last digit, or not at all
  assume(N.g[16] >= 3 && N.g[16] <= 7); real(d); done(); cover("17 digits"); }
VX_ENTRY(yw_real_special) { double inf = __builtin_inf(); double t[] = {0.0, -0.0, 1.0, -1.0, 10.0, 100.0, 1e10, 1e13, 1e14, 1e15, 1e20, 1e200, -1e-200, 0.1, 1.0 / 3, 2.5, 1e-5, 1e-4, 123456789.0, 1.7976931348623157e308, -1.7976931348623157e308, 4.9e-324, -3e-310, 2.2250738585072014e-308, 9007199254740993.0, 0.1 + 0.2, inf, -inf}; int i = pick<int>(0, sizeof t / 8 - 1, "which"); double d = t[i]; ParameterList p; p.set("k", d); p.set("v", vector<double>{1.5, d}); auto r = trip(p); check(r.isType<double>("k") && bits(r.get<double>("k")) == bits(d), "real"); auto& v = r.get<vector<double>>("v"); check(v.size() == 2 && v[0] == 1.5 && bits(v[1]) == bits(d), "real entry"); if (d - d == 0) realText(YAML::g_file["k"].Scalar());
  ParameterList q; q.set("k", __builtin_nan("")); auto n = trip(q); check(n.isType<double>("k") && n.get<double>("k") != n.get<double>("k"), "nan"); }
static void text(const string& s) { ParameterList p; p.set("k", s); p.set("v", vector<string>{s}); auto r = trip(p); check(r.isType<string>("k") && r.get<string>("k") == s, "a string comes back with the same type and value"); check(r.isType<vector<string>>("v") && r.get<vector<string>>("v").size() == 1 && r.get<vector<string>>("v")[0] == s, "a string entry comes back with the same type and value"); }
VX_ENTRY(yw_string) { string s = strOf(0, param("L"), "aZ 1-:#\n'\"[{,&%~.", "text"); text(s); cover("text"); }
VX_ENTRY(yw_string_lines) { static const char* F[] = {"\n", "a\n", "a\n\n", "\na", "a\nb", "a\n\nb\n", " a\nb\n", "a\n b\n", "a\r\nb\n", "a:b\n#c\n", "a b", "\n\na\n", "a\nb ", "a \nb\n", "\n a\n", "\n\n  a\nb\n", "\n a\nb"}; string s = F[pick<int>(0, 16, "form")]; for (char& c : s) if (c == 'a') { c = sym<char>("c"); assume(c >= 33 && c < 127); } text(s); cover("lines"); }
VX_ENTRY(yw_string_num) { int w = pick<int>(0, 3, "form"); string s; if (w == 0) s = strOf(1, param("L"), "019-+.eE", "text"); else { s = w == 1 ? "true" : w == 2 ? "false" : ".inf"; if (w == 3 && pick<int>(0, 1, "nan")) s = ".nan"; unsigned char m = sym<unsigned char>("case"); for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i] - ((m >> i) & 1) * 32); } text(s); cover("looks like a number"); }
VX_ENTRY(yw_seq) { vx_exact_fmt = 1; int t = pick<int>(0, 4, "type"), n = pick<int>(1, 2, "n"); ParameterList p; 
  if (t == 0) { vector<int> v(n); for (auto& x : v) x = range<int>(-12, 12, "x"); p.set("k", v); auto r = trip(p); one(r); check(r.isType<vector<int>>("k") && r.get<vector<int>>("k") == v, "sequence of integers"); }
  if (t == 1) { vector<char> v(n); for (auto& x : v) x = pick<int>(0, 1, "x"); p.set("k", v); auto r = trip(p); one(r); check(r.isType<vector<char>>("k") && r.get<vector<char>>("k") == v, "sequence of logicals"); }
  if (t == 2) { vector<double> v(n); static const int E[] = {-7, 0, 13, 22}; int ex = pick<int>(0, 3, "exponent"); v[0] = number(4, E[ex], false, 1); if (n > 1) v[1] = pick<int>(0, 1, "whole") ? 3.0 : 1e25; p.set("k", v); auto r = trip(p); one(r); check(r.isType<vector<double>>("k"), "sequence of reals"); auto& w = r.get<vector<double>>("k"); check(w.size() == (size_t)n && bits(w[0]) == bits(v[0]) && (n < 2 || w[1] == v[1]), "values of a sequence of reals"); for (int i = 0; i < n; i++) realText(YAML::g_file["k"][i].Scalar()); done(); }
  if (t == 3) { vector<string> v(n); static const char* W[] = {"1", "true", "1.5", "a", "", "a, b", "[", "x\ny"}; for (auto& x : v) x = W[pick<int>(0, 7, "x")]; p.set("k", v); auto r = trip(p); one(r); check(r.isType<vector<string>>("k") && r.get<vector<string>>("k") == v, "sequence of strings"); }
  if (t == 4) { if (n == 1) p.set("k", ParameterList::EmptySeq()); else p.set("k", vector<int>()); auto r = trip(p); one(r); check(r.isType<ParameterList::EmptySeq>("k") && r.get<vector<string>>("k").empty(), "empty sequence"); } cover("seq"); }
VX_ENTRY(yw_seq_long) { vector<int> v; vector<string> s; vector<char> b; vector<double> d; for (int i = 0; i < 40; i++) { v.push_back(1000 + i); s.push_back(i % 3 ? "word" : "12"); b.push_back(i % 3 == 0); d.push_back(i * 0.5 + 100); } int o = range<int>(0, 9, "offset"); vx_exact_fmt = 1; v[7] = o; s[4] = string("#[-,:'!"[pick<int>(0, 6, "c")] + string("x")); ParameterList p; p.set("v", v); p.set("s", s); p.set("b", b); p.set("d", d); auto r = trip(p); check(r.get<vector<int>>("v") == v && r.get<vector<string>>("s") == s && r.get<vector<char>>("b") == b && r.get<vector<double>>("d") == d && r.param_names().size() == 4, "long sequences"); }
VX_ENTRY(yw_nested) { int m = pick<int>(0, 63, "content"); int a = 11, b = 22, x = 33, y = 44; vx_exact_fmt = 1; y = range<int>(0, 9, "y"); ParameterList p("P"); if (m & 1) p.set("a", a); if (m & 2) { auto& s = p.sublist("s"); if (m & 4) s.set("a", x); if (m & 8) { auto& n = s.sublist("n"); n.set("z", y); n.set("q", vector<int>{x, y}); } } if (m & 16) p.set("z", b); if (m & 32) p.sublist("t").set<string>("w", "text"); auto r = trip(p);
  check(r.isParameter("a") == bool(m & 1) && r.isParameter("z") == bool(m & 16) && r.isSublist("s") == bool(m & 2) && r.isSublist("t") == bool(m & 32) && r.param_names().size() == size_t((m & 1) + !!(m & 16)) && r.sublist_names().size() == size_t(!!(m & 2) + !!(m & 32)), "top level entries"); if (m & 1) check(r.get<int>("a") == a, "value"); if (m & 16) check(r.get<int>("z") == b, "value"); if (m & 32) check(r.sublist("t").get<string>("w") == "text", "value");
  if (m & 2) { auto& s = r.sublist("s"); check(s.isParameter("a") == bool(m & 4) && s.isSublist("n") == bool(m & 8), "nested entries"); if (m & 4) check(s.get<int>("a") == x, "nested value"); if (m & 8) check(s.sublist("n").get<int>("z") == y && s.sublist("n").get<vector<int>>("q") == vector<int>{x, y} && s.sublist("n").param_names().size() == 2, "doubly nested value"); } }
VX_ENTRY(yw_unsupported) { Cleanup c; struct Own { int x; }; int w = pick<int>(0, 5, "type"); ParameterList p; p.set("a", 1); auto& q = pick<int>(0, 1, "nested") ? p.sublist("s") : p; if (w == 0) q.set("k", 1.0f); if (w == 1) q.set("k", 1ul); if (w == 2) q.set("k", vector<float>{1.0f}); if (w == 3) q.set("k", Own{1}); if (w == 4) q.set("k", std::make_shared<int>(1)); if (w == 5) q.set("k", vector<long>{1}); check(throws([&] { write_yaml_file(fileName(), p); }), "a parameter that cannot be written was dropped silently"); ParameterList g; g.set("a", 1); check(throws([&] { write_yaml_file("/nonexistent/dir/f.yaml", g); }), "a file that cannot be opened"); cover("rejected"); }
