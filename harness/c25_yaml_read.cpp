//@ build src=src/parser/ekat_yaml.cpp,src/core/ekat_string_utils.cpp,src/core/ekat_parameter_list.cpp inc=shim/yaml
//@ case entry=yr_plain p.L=3
//@ case entry=yr_plain p.L=5 tier=thorough
//@ case entry=yr_words
//@ case entry=yr_blank p.L=2
//@ case entry=yr_int_range p.K=3
//@ case entry=yr_real_special
//@ case entry=yr_tags p.L=3
//@ case entry=yr_tags p.L=4 tier=thorough
//@ case entry=yr_seq p.N=2 p.L=2
//@ case entry=yr_seq p.N=3 p.L=1
//@ case entry=yr_seq p.N=3 p.L=2 tier=thorough
//@ case entry=yr_nested
//@ case entry=yr_import
//@ case entry=yr_errors
//@ bounds texts of two words of up to 2 characters with a blank between them: never a logical or a number; untagged scalars: every text of 1..3 (thorough 5) characters out of digits, signs, dot, exponent letters and letters; every capitalisation of true/false with one more symbolic character; every integer text with 10 and 11 digits around the ends of the int range; every tag named in the documentation (short and full form), the quote tag and an unknown one, with the same texts; sequences of 1..3 entries of 1..2 characters, each quoted or not; documents with two nested maps, every choice of present entries, null entries; import over lists with symbolic contents
//@ outside the grammar of YAML (text to node tree: yaml-cpp), anchors, numbers with more characters, texts with leading or trailing blanks, sequences of sequences
//@ stubs yaml-cpp is replaced by a stand-in that hands the harness' node tree to the parser (shim/yaml; compared with yaml-cpp 0.8 on all short texts); conversion of decimal text to double is an uninterpreted function of the characters
#include "ekat_yaml.hpp"
#include "ekat_parameter_list.hpp"
#include <yaml-cpp/yaml.h>
#include <cstdlib>
using namespace ekat; using namespace vx; using std::string; using std::vector;
static const char* ALPH = "0129-+.eExtT";
enum Kind { B = 1, I = 2, D = 4, S = 8 };
static bool dig(char c) { return c >= '0' && c <= '9'; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool same(const string& s, const char* w) { size_t n = strlen(w); if (s.size() != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r &= low(s[i]) == w[i]; return r; }
static bool isInt(const string& s, long& v) { size_t b = !s.empty() && s[0] == '-'; bool ok = s.size() > b; v = 0; for (size_t i = b; i < s.size(); i++) { ok &= dig(s[i]); v = v * 10 + (s[i] - '0'); } if (b) v = -v; return ok && v >= -2147483648L && v <= 2147483647L; }
static bool isReal(const string& s) { // sign? digits with at most one dot, exponent? with digits
  size_t i = 0, n = s.size(); if (i < n && (s[i] == '+' || s[i] == '-')) i++; bool m = false, dot = false; while (i < n && (dig(s[i]) || (s[i] == '.' && !dot))) { if (s[i] == '.') dot = true; else m = true; i++; } if (!m) return false; if (i == n) return true; if (s[i] != 'e' && s[i] != 'E') return false; i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; if (i == n) return false; for (; i < n; i++) if (!dig(s[i])) return false; return true; }
// which types may hold the value of an untagged text
static int kinds(const string& s) { long v; if (same(s, "true") || same(s, "false")) return B; if (isInt(s, v)) return I; if (s.size() > 1 && s[0] == '+' && isInt(s.substr(1), v) && s[1] != '-') return I | D; if (isReal(s)) return D; if (same(s, ".inf") || same(s, "+.inf") || same(s, "-.inf") || same(s, ".nan")) return D; return S; }
static unsigned long bits(double d) { unsigned long u; memcpy(&u, &d, 8); return u; }
static bool eqReal(double d, const string& s) { double e = strtod(s.c_str(), nullptr); return bits(d) == bits(e); }
static void value(const ParameterList& p, const char* k, const string& s, int kd, const char* what) {
  check(p.isParameter(k), "parameter missing"); bool b = p.isType<bool>(k), i = p.isType<int>(k), d = p.isType<double>(k), t = p.isType<string>(k); check(b + i + d + t == 1, "type of a scalar"); check(((kd & B) && b) || ((kd & I) && i) || ((kd & D) && d) || ((kd & S) && t), what);
  if (b) check(p.get<bool>(k) == same(s, "true"), "value of a logical"); if (i) { long v; isInt(s[0] == '+' ? s.substr(1) : s, v); check(p.get<int>(k) == v, "value of an integer"); } if (d && isReal(s)) check(eqReal(p.get<double>(k), s), "value of a real"); if (t) check(p.get<string>(k) == s, "text of a string"); }
static ParameterList load(YAML::Node r) { YAML::g_bad_file = false; YAML::g_file = r; ParameterList p = parse_yaml_file("some.yaml"); check(YAML::g_loaded == "some.yaml", "another file was read"); return p; }
static ParameterList load1(const string& t, const string& tag) { auto m = YAML::map(); YAML::put(m, "k", YAML::scalar(t, tag)); return load(m); }

VX_ENTRY(yr_plain) { string s = strOf(1, param("L"), ALPH, "text"); if (s.size() == 5) assume(low(s[1]) != 'e'); auto p = load1(s, "?"); int kd = kinds(s); value(p, "k", s, kd, "type of an untagged scalar"); if (kd == B) cover("logical"); if (kd == I) cover("integer"); if (kd == D) cover("real"); if (kd == S) cover("string"); check(p.param_names().size() == 1 && p.sublist_names().empty(), "extra entries"); }
VX_ENTRY(yr_words) { string w = pick<int>(0, 1, "word") ? "true" : "false"; string s = w; unsigned char m = sym<unsigned char>("case"); for (size_t i = 0; i < s.size(); i++) s[i] = (char)(s[i] - ((m >> i) & 1) * 32); int ch = pick<int>(-2, 4, "change"); if (ch == -2) s += sym<char>("c"); else if (ch >= 0 && ch < (int)s.size()) s[ch] = sym<char>("c"); for (char c : s) assume(c >= 33 && c < 127); auto p = load1(s, "?"); int kd = kinds(s); value(p, "k", s, kd, "a word"); if (kd == B) cover("logical"); else cover("no logical"); }
VX_ENTRY(yr_blank) { int w = pick<int>(0, 3, "where"); string a = strOf(1, param("L"), "07-.ex", "first"), b = w == 1 ? "" : strOf(1, param("L"), "07-.ex", "second"), s = a + " " + (w == 1 ? "true" : b); if (w == 0) { auto p = load1(s, "?"); value(p, "k", s, S, "a text of two words"); cover("untagged"); return; } if (w == 1) { auto p = load1(s, "?"); value(p, "k", s, S, "a text of two words"); cover("word"); return; }
  if (w == 2) { int g = pick<int>(0, 2, "tag"); check(throws([&] { load1(s, g == 0 ? "!!int" : g == 1 ? "!!float" : "!!bool"); }), "two words with the tag of another type are rejected"); cover("tagged"); return; }
  auto sq = YAML::seq(); sq.d->vals.push_back(YAML::scalar("1", "?")); sq.d->vals.push_back(YAML::scalar(s, "?")); auto m = YAML::map(); YAML::put(m, "k", sq); auto p = load(m); check(p.isType<vector<string>>("k"), "sequence with an entry of two words"); auto v = p.get<vector<string>>("k"); check(v.size() == 2 && v[0] == "1" && v[1] == s, "string entry"); cover("sequence"); }
VX_ENTRY(yr_int_range) { int e = pick<int>(0, 2, "lead"); string s = pick<int>(0, 1, "neg") ? "-" : ""; s += e == 0 ? "21474836" : e == 1 ? "021474836" : "99999999"; for (int i = 0, n = pick<int>(1, param("K"), "digits"); i < n; i++) { char c = sym<char>("c"); assume(c >= '0' && c <= '9'); s += c; } auto p = load1(s, "?"); long v; bool in = isInt(s, v); value(p, "k", s, in ? I : D, "integers that fit are ints, others reals"); if (in) cover("fits"); else cover("does not fit"); auto t = load1("-0", "?"); check(t.isType<int>("k") && t.get<int>("k") == 0, "-0"); check(throws([&] { load1(s, "!!int"); }) == !in, "tagged integer out of range"); }
VX_ENTRY(yr_real_special) { // the YAML names of the special values, the largest numbers, tiny numbers
  const char* t[] = {".inf", "+.inf", "-.inf", ".nan", ".INF", ".Nan", "1e-310", "4.9e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "-1e-320", "1e22", "123456789012345678", "0.1", "-0.0"}; for (const char* s : t) for (int tag = 0; tag < 2; tag++) { auto p = load1(s, tag ? "!!float" : "?"); check(p.isType<double>("k"), s); double d = p.get<double>("k"); double e = s[0] == '.' || s[1] == '.' ? (strchr(s, 'n') && strlen(s) > 2 && low(s[1]) == 'n' ? __builtin_nan("") : strtod(s, nullptr)) : strtod(s, nullptr); if (low(s[strlen(s) - 1]) == 'f') e = s[0] == '-' ? -__builtin_inf() : __builtin_inf(); check((d != d && e != e) || bits(d) == bits(e), s); }
  for (const char* s : {"inf", "nan", "1e999", "0x10", "infinity", "1e", "1e+", ".", "-", "+", "1.2.3", "1-2", "--5", "1e5.0", "5-", "- 5"}) { auto p = load1(s, "?"); check(p.isType<string>("k") && p.get<string>("k") == s, s); check(throws([&] { load1(s, "!!int"); }), s); check(throws([&] { load1(s, "!!float"); }), s); check(throws([&] { load1(s, "!!bool"); }), s); } cover("special"); }
VX_ENTRY(yr_tags) {
  static const char* T[] = {"!!bool", "tag:yaml.org,2002:bool", "!!int", "tag:yaml.org,2002:int", "!!float", "tag:yaml.org,2002:float", "!!str", "tag:yaml.org,2002:str", "!", "!!other", "!x"}; int t = pick<int>(0, 10, "tag"); string s = strOf(1, param("L"), "012-+.eEtTrueU", "text"); if (t < 2 && pick<int>(0, 1, "word")) { s = "false"; unsigned char m = sym<unsigned char>("case"); for (size_t i = 0; i < s.size(); i++) s[i] = (char)(s[i] - ((m >> i) & 1) * 32); }
  long v; int k = kinds(s); bool ok = t < 2 ? k == B : t < 4 ? (k & I) : t < 6 ? (k & (I | D)) : t < 9; bool lenient = t < 4 && t >= 2 && k == (I | D);
  ParameterList p; bool thrown = throws([&] { p = load1(s, T[t]); }); if (lenient) { if (thrown) return; } check(thrown == !ok, "a tagged scalar is accepted exactly if its text has the tag's type"); if (thrown) { cover("rejected"); return; } value(p, "k", s, t < 2 ? B : t < 4 ? I : t < 6 ? D : S, "type of a tagged scalar"); if (t < 2) cover("logical"); else if (t < 4) cover("integer"); else if (t < 6) cover("real"); else cover("string"); }
VX_ENTRY(yr_seq) {
  int N = param("N"), L = param("L"); int n = pick<int>(0, N, "n"); vector<string> s; vector<bool> q; auto sq = YAML::seq(); bool allB = true, allI = true, allN = true, lenient = false; for (int i = 0; i < n; i++) { string x = strOf(1, L, "05-.+e", "text"); int w = pick<int>(0, 3, "quote/word"); if (w >= 2) { x = w == 2 ? "True" : "false"; } s.push_back(x); q.push_back(w == 1); sq.d->vals.push_back(YAML::scalar(x, w == 1 ? "!" : "?")); int k = w == 1 ? S : kinds(x); lenient |= k == (I | D); allB &= k == B; allI &= k == I || k == (I | D); allN &= (k & (I | D)) != 0; }
  auto m = YAML::map(); YAML::put(m, "k", sq); auto p = load(m); check(p.isParameter("k"), "sequence missing");
  if (n == 0) { check(p.isType<ParameterList::EmptySeq>("k"), "empty sequence"); cover("empty"); return; }
  bool c = p.isType<vector<char>>("k"), i = p.isType<vector<int>>("k"), d = p.isType<vector<double>>("k"), t = p.isType<vector<string>>("k"); check(c + i + d + t == 1, "type of a sequence");
  if (allB) check(c, "sequence of logicals"); else if (allI) { if (lenient) check(i || d, "sequence of integers"); else check(i, "sequence of integers"); } else if (allN) check(d, "sequence of numbers"); else check(t, "sequence of strings");
  for (int j = 0; j < n; j++) { long v; if (c) check(p.get<vector<char>>("k").size() == (size_t)n && p.get<vector<char>>("k")[j] == (same(s[j], "true") ? 1 : 0), "logical entry"); if (i) { isInt(s[j][0] == '+' ? s[j].substr(1) : s[j], v); check(p.get<vector<int>>("k").size() == (size_t)n && p.get<vector<int>>("k")[j] == v, "integer entry"); } if (d) check(p.get<vector<double>>("k").size() == (size_t)n && eqReal(p.get<vector<double>>("k")[j], s[j]), "real entry"); if (t) check(p.get<vector<string>>("k").size() == (size_t)n && p.get<vector<string>>("k")[j] == s[j], "string entry"); }
  if (c) cover("logicals"); if (i) cover("integers"); if (d) cover("reals"); if (t) cover("strings"); }
// text of a one digit number; the others are fixed (their values are the subject of the entries above)
static string num(int& v, const char* n) { char c = sym<char>(n); assume(c == '3' || c == '8'); v = c - '0'; return string(1, c); }
static string fixed_(int& v, int x) { v = x; return string(1, '0' + x / 10) + char('0' + x % 10); }
VX_ENTRY(yr_nested) {
  int m = pick<int>(0, 63, "content"), va, vb, vx_, vy; string ta = fixed_(va, 41), tb = fixed_(vb, 52), tx = fixed_(vx_, 63), ty = num(vy, "y"); auto root = YAML::map(), s = YAML::map(), n = YAML::map(), e = YAML::map();
  if (m & 8) YAML::put(n, "a", YAML::scalar(ty)); if (m & 4) YAML::put(s, "n", n); if (m & 32) YAML::put(s, "void", YAML::null()); YAML::put(s, "a", YAML::scalar(tx)); if (m & 1) YAML::put(root, "a", YAML::scalar(ta)); if (m & 32) YAML::put(root, "nothing", YAML::null()); if (m & 2) YAML::put(root, "s", s); YAML::put(root, "b", YAML::scalar(tb)); if (m & 16) YAML::put(root, "e", e);
  ParameterList p = load(root); check(p.isParameter("a") == bool(m & 1) && p.isParameter("b") && p.isSublist("s") == bool(m & 2) && p.isSublist("e") == bool(m & 16), "top level entries"); check(p.get<int>("b") == vb, "top level value"); if (m & 1) check(p.get<int>("a") == va, "top level value"); check(p.sublist_names().size() == size_t(!!(m & 2) + !!(m & 16)) && p.param_names().size() <= size_t(1 + (m & 1) + !!(m & 32)), "extra entries"); if (m & 16) check(p.sublist("e").param_names().empty() && p.sublist("e").sublist_names().empty(), "empty map");
  if (m & 2) { auto& q = p.sublist("s"); check(q.name() == "s" && q.get<int>("a") == vx_ && q.isSublist("n") == bool(m & 4) && !q.isParameter("b"), "nested map"); if (m & 4) { check(q.sublist("n").isParameter("a") == bool(m & 8), "doubly nested map"); if (m & 8) check(q.sublist("n").get<int>("a") == vy, "doubly nested value"); } } }
VX_ENTRY(yr_import) {
  int m = pick<int>(0, 63, "content"), va, vx_; int oa = sym<int>("oa"), ox = sym<int>("ox"), oz = sym<int>("oz"); string ta = num(va, "a"), tx = fixed_(vx_, 63); string nm = pick<int>(0, 1, "name") ? "P" : "s"; ParameterList p(nm); p.set("z", oz); if (m & 1) p.set("a", oa); if (m & 2) p.sublist("s").set("x", ox); p.sublist("s").set("z", oz); p.sublist("t").set("z", oz); if (m & 32) p.set<string>("a", "old");
  auto root = YAML::map(), s = YAML::map(); if (m & 4) YAML::put(root, "a", YAML::scalar(ta)); if (m & 16) YAML::put(s, "x", YAML::scalar(tx)); if (m & 8) YAML::put(root, "s", s); YAML::g_file = root; YAML::g_bad_file = false; parse_yaml_file("f.yaml", p); check(p.name() == nm, "name of the list"); check(p.get<int>("z") == oz && p.sublist("s").get<int>("z") == oz && p.sublist("t").get<int>("z") == oz, "parameters not in the file are lost");
  check(p.isParameter("a") == bool(m & (1 | 4 | 32)), "parameters"); if (m & 4) check(p.isType<int>("a") && p.get<int>("a") == va, "the file has precedence"); else if (m & 32) check(p.get<string>("a") == "old", "old value lost"); else if (m & 1) check(p.get<int>("a") == oa, "old value lost"); bool fx = (m & 8) && (m & 16); check(p.sublist("s").isParameter("x") == (fx || (m & 2)), "nested parameters"); if (fx) check(p.sublist("s").get<int>("x") == vx_, "the file has precedence"); else if (m & 2) check(p.sublist("s").get<int>("x") == ox, "old nested value lost"); check(p.sublist_names().size() == 2 && p.param_names().size() == 1u + p.isParameter("a"), "extra entries"); cover("import"); }
VX_ENTRY(yr_errors) { ParameterList p("P"); int v = sym<int>("v"); p.set("a", v); p.sublist("s").set("x", v);
  YAML::g_bad_file = true; check(throws([&] { parse_yaml_file("none.yaml", p); }) && throws([&] { parse_yaml_file("none.yaml"); }), "unreadable file accepted"); YAML::g_bad_file = false; YAML::g_file = YAML::scalar("x"); check(throws([&] { parse_yaml_file("f", p); }), "a scalar document accepted"); auto sq = YAML::seq(); sq.d->vals.push_back(YAML::scalar("1")); YAML::g_file = sq; check(throws([&] { parse_yaml_file("f", p); }), "a sequence document accepted");
  auto r = YAML::map(); YAML::put(r, "a", YAML::scalar("77")); auto s = YAML::map(); YAML::put(s, "x", YAML::scalar("78")); YAML::put(r, "s", s); YAML::put(r, "t", YAML::scalar("5.0", "!!int")); YAML::g_file = r; check(throws([&] { parse_yaml_file("f", p); }), "a bad entry accepted"); check(p.get<int>("a") == v && p.sublist("s").get<int>("x") == v && !p.isParameter("t"), "a rejected file changed the list"); cover("errors"); }
