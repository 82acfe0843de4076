//@ build src=src/core/ekat_string_utils.cpp,src/core/ekat_parameter_list.cpp
//@ case entry=nl_valid p.L=6
//@ case entry=nl_valid p.L=8 tier=thorough
//@ case entry=nl_mixed p.L=3
//@ case entry=nl_mixed p.L=4 tier=thorough
//@ case entry=nl_char
//@ case entry=nl_kinds
//@ case entry=nl_parse p.L=7
//@ case entry=nl_parse p.L=9 tier=thorough
//@ case entry=nl_parse_bad p.L=4
//@ case entry=nl_gen p.D=3 p.E=2
//@ case entry=nl_gen p.D=3 p.E=3 tier=thorough
//@ case entry=nl_gen p.D=4 p.E=1 tier=thorough
//@ bounds validation: every string of up to 6 (thorough 8) characters over {[ ] , a}, of up to 3 (4) characters over {( ) [ ] < , a}, every 1-byte item in a list; parsing: every string of up to 7 (9) characters over {[ ] , a blank}, and every list of up to 2 (thorough 3) entries with sublists of up to 2 entries nested up to depth 3
#include "ekat_string_utils.hpp"
using namespace ekat; using namespace vx; using std::string;
// list := open item (, item)* close ; item := name | list
struct P { const string& s; char o, c; size_t i; int depth; 
  bool name() { size_t b = i; while (i < s.size() && s[i] != o && s[i] != c && s[i] != ',') i++; return i > b; }
  bool item(int d) { if (i < s.size() && s[i] == o) return list(d + 1); return name(); }
  bool list(int d) { if (i >= s.size() || s[i] != o) return false; i++; if (d > depth) depth = d; if (!item(d)) return false; while (i < s.size() && s[i] == ',') { i++; if (!item(d)) return false; } if (i >= s.size() || s[i] != c) return false; i++; return true; } };
static bool ok(const string& s, char o, char c, int* depth = nullptr) { P p{s, o, c, 0, 0}; bool r = p.list(1) && p.i == s.size(); if (depth) *depth = p.depth; return r; }
VX_ENTRY(nl_valid) { string s = strOf(0, param("L"), "[],a", "s"); bool e = ok(s, '[', ']'); check(valid_nested_list_format(s) == e, "validity"); cover(e ? "valid" : "invalid"); }
VX_ENTRY(nl_mixed) { string s = strOf(0, param("L"), "()[]<,a", "s"); bool p = false, b = false, a = false; for (char c : s) { p |= c == '(' || c == ')'; b |= c == '[' || c == ']'; a |= c == '<' || c == '>'; }
  bool e = p + b + a == 1 && (p ? ok(s, '(', ')') : b ? ok(s, '[', ']') : ok(s, '<', '>')); check(valid_nested_list_format(s) == e, "mixed brackets"); }
VX_ENTRY(nl_char) { char c = sym<char>("c"); assume(c != 0); string s = string("[a") + c + "]"; static const char sp[] = "_.-!@#$%^&*+=?"; bool good = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); for (int i = 0; sp[i]; i++) if (c == sp[i]) good = true; check(valid_nested_list_format(s) == good, "characters allowed in an item"); cover(good ? "good" : "bad"); }
VX_ENTRY(nl_kinds) { static const char* k[] = {"()", "[]", "{}", "<>"}; int i = pick<int>(0, 3, "kind"), j = pick<int>(0, 3, "kind2"); string s = string(1, k[i][0]) + "x," + k[j][0] + "y" + k[j][1] + k[i][1]; check(valid_nested_list_format(s) == (i == j), "bracket kinds"); if (i == j) { auto l = parse_nested_list(s); check(l.get<int>("Num Entries") == 2 && l.get<int>("Depth") == 2, "parsed"); check(l.get<string>("Entry 0") == "x" && l.sublist("Entry 1").get<string>("Entry 0") == "y", "entries"); } }
static void verify(const ParameterList& l, const string& s) {
  P p{s, '[', ']', 1, 0}; int n = 0, dmax = 1;
  while (p.i < s.size()) {
    size_t b = p.i; string key = std::to_string(n);
    if (s[b] == '[') { P q{s, '[', ']', b, 0}; q.list(1); string sub = s.substr(b, q.i - b); check(l.get<string>("Type " + key) == "List", "type of a list entry"); verify(l.sublist("Entry " + key), sub); check(l.sublist("Entry " + key).name() == "Entry " + key, "name of a sublist"); if (q.depth + 1 > dmax) dmax = q.depth + 1; p.i = q.i; cover("sublist"); }
    else { p.name(); check(l.get<string>("Type " + key) == "Value", "type of a value entry"); check(l.get<string>("Entry " + key) == s.substr(b, p.i - b), "text of a value entry"); }
    n++; p.i++;
  }
  check(l.get<int>("Num Entries") == n, "number of entries"); check(l.get<int>("Depth") == dmax, "depth"); check(l.get<string>("String") == s, "text");
  check(!l.isParameter("Entry " + std::to_string(n)) && !l.isSublist("Entry " + std::to_string(n)), "extra entry");
}
VX_ENTRY(nl_parse) { string s = strOf(2, param("L"), "[],a ", "s"); string t; for (char c : s) if (c != ' ') t += c; assume(ok(t, '[', ']')); verify(parse_nested_list(s), t); }
VX_ENTRY(nl_parse_bad) { string s = strOf(0, param("L"), "[],a ", "s"); string t; for (char c : s) if (c != ' ') t += c; bool e = ok(t, '[', ']'); check(throws([&] { parse_nested_list(s); }) == !e, "malformed list accepted or valid list rejected"); }
// every list of up to E entries at the top and 2 below, nested up to depth 3 (thorough 4): long lists with sublists of different depths
static string gen(int d, int D, int E, int& k) { int n = pick<int>(1, E, "n"); string s = "["; for (int i = 0; i < n; i++) { if (i) s += ","; if (d < D && pick<int>(0, 1, "sub")) s += gen(d + 1, D, 2, k); else { s += char('a' + k % 26); if (k % 3 == 1) s += "Xy"; k++; } } return s + "]"; }
VX_ENTRY(nl_gen) { int k = 0; string s = gen(1, param("D"), param("E"), k); check(valid_nested_list_format(s), "valid list rejected"); verify(parse_nested_list(s), s); }
