//@ build src=src/core/ekat_string_utils.cpp
//@ case entry=split_char p.L=5
//@ case entry=split_str p.L=5
//@ case entry=split_char p.L=8 tier=thorough
//@ case entry=split_str p.L=7 tier=thorough
//@ case entry=trim_any p.L=5
//@ case entry=trim_any p.L=8 tier=thorough
//@ case entry=strip_any p.L=5
//@ case entry=strip_any p.L=8 tier=thorough
//@ case entry=prefix_any p.L=4
//@ case entry=prefix_any p.L=6 tier=thorough
//@ case entry=upper_any p.L=3
//@ case entry=join_any
//@ case entry=join_sel
//@ case entry=strint_any
//@ bounds strings of up to 5 characters (thorough 8) with every character value, delimiters of 1 or 2 (thorough 3) characters; joins of up to 3 items of up to 2 characters; numbers -99..99
//@ outside an empty delimiter
#include "ekat_string_utils.hpp"
using namespace ekat; using namespace vx; using std::string;
static void chkSplit(const string& s, const string& d) {
  auto t = split(s, d); string back = join(t, d);
  check(back == s, "joining the pieces does not give back the string");
  // independent count of the non-overlapping occurrences, left to right
  size_t n = 1, i = 0; while (i + d.size() <= s.size()) { if (s.compare(i, d.size(), d) == 0) { n++; i += d.size(); } else i++; }
  check(t.size() == n, "number of pieces"); if (n > 1) cover("split");
  for (auto& x : t) check(x.find(d) == string::npos, "a piece contains the delimiter");
}
VX_ENTRY(split_char) { string s = str(0, param("L"), "s"); char d = sym<char>("d"); chkSplit(s, string(1, d)); auto a = split(s, d), b = split(s, string(1, d)); check(a == b, "char and string delimiters differ"); }
VX_ENTRY(split_str) { string s = strOf(0, param("L"), "ab,", "s"); string d = strOf(2, param("L") > 5 ? 3 : 2, "ab,", "d"); chkSplit(s, d); }
VX_ENTRY(trim_any) { string s = str(0, param("L"), "s"); char c = sym<char>("c"); string t = trim(s, c);
  size_t a = 0, b = s.size(); while (a < b && s[a] == c) a++; while (b > a && s[b - 1] == c) b--;
  check(t == s.substr(a, b - a), "trimmed text"); check(trim(t, c) == t, "trim is not idempotent"); if (c == ' ') check(trim(s) == t, "default character is not the blank"); }
VX_ENTRY(strip_any) { string s = str(0, param("L"), "s"), o = s; char c = sym<char>("c"); strip(s, c); string t; for (char x : o) if (x != c) t += x; check(s == t, "stripped text"); }
VX_ENTRY(prefix_any) { string s = str(0, param("L"), "s"), p = str(0, 3, "p"); bool e = p.size() <= s.size(); for (size_t i = 0; e && i < p.size(); i++) if (s[i] != p[i]) e = false; check(starts_with(s, p) == e, "starts_with"); check(starts_with(p + s, p), "prefix of a concatenation"); if (e) cover("prefix"); }
VX_ENTRY(upper_any) { string s = str(0, param("L"), "s"), u = upper_case(s); check(u.size() == s.size(), "size"); for (size_t i = 0; i < s.size(); i++) check(u[i] == (s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]), "upper case letter"); check(upper_case(u) == u, "not idempotent"); }
VX_ENTRY(join_any) {
  std::vector<string> v; size_t n = pick<int>(0, 3, "n"); string e, sep = strOf(0, 2, ",;", "sep"); 
  for (size_t i = 0; i < n; i++) { v.push_back(strOf(0, i ? 1 : 2, "ab", "item")); if (i) e += sep; e += v.back(); }
  check(join(v, sep) == e, "join"); string f; for (size_t i = 0; i < n; i++) { if (i) f += sep; f += v[i] + "!"; }
  check(join(v, [](const string& x) { return x + "!"; }, sep) == f, "join with a transformation");
  std::list<string> l(v.begin(), v.end()); check(join(l, sep) == e, "join of a list");
}
VX_ENTRY(join_sel) {
  std::vector<string> v; size_t n = pick<int>(0, 3, "n"); string e, f; bool first = true;
  for (size_t i = 0; i < n; i++) { v.push_back(strOf(0, 1, "ab", "item")); bool sel = !v.back().empty() && v.back()[0] == 'a'; if (!v.back().size()) sel = true; if (sel) { if (!first) { e += "--"; f += "--"; } first = false; e += v.back(); f += v.back() + "!"; } }
  auto pred = [](const string& x) { return x.empty() || x[0] == 'a'; };
  check(join_if(v, pred, "--") == e, "join of the selected items"); check(join_if(v, pred, [](const string& x) { return x + "!"; }, "--") == f, "join of the selected items with a transformation");
}
VX_ENTRY(strint_any) { vx_exact_fmt = 1; string s = strOf(0, 1, "a b", "s"); int i = range<int>(-99, 99, "i"); string r = strint(s, i); int a = i < 0 ? -i : i; string d; if (i < 0) d += '-'; if (a > 9) d += (char)('0' + a / 10); d += (char)('0' + a % 10); check(r == s + " " + d, "text followed by a number"); }
