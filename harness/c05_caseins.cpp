//@ build src=src/core/ekat_string_utils.cpp
//@ case entry=ci_pair p.L=3
//@ case entry=ci_pair p.L=4 tier=thorough
//@ case entry=ci_triple p.L=1 tier=quickonly
//@ case entry=ci_triple p.L=2 tier=thorough
//@ case entry=ci_ops p.L=2
//@ case entry=ci_alpha p.L=2
//@ bounds strings of up to 3 characters (thorough 4; triples up to 1, thorough 2), every character code 0..127
//@ outside characters above 127, whose case is locale dependent
#include "ekat_string_utils.hpp"
using namespace ekat; using namespace vx; using std::string;
static string s7(size_t L, const char* n) { string s = str(0, L, n); for (char c : s) assume(c >= 0); return s; }
static int up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int cmp(const string& a, const string& b) { size_t n = a.size() < b.size() ? a.size() : b.size(); for (size_t i = 0; i < n; i++) { if (up(a[i]) < up(b[i])) return -1; if (up(a[i]) > up(b[i])) return 1; } return a.size() < b.size() ? -1 : a.size() > b.size(); }
VX_ENTRY(ci_pair) { string a = s7(param("L"), "a"), b = s7(param("L"), "b"); int c = cmp(a, b);
  check(caseInsensitiveEqualString(a, b) == (c == 0), "equality ignoring case"); check(caseInsensitiveLessString(a, b) == (c < 0), "order ignoring case"); check(caseInsensitiveLessEqualString(a, b) == (c <= 0), "weak order ignoring case");
  if (c == 0) cover("equal"); if (c > 0) cover("greater"); }
VX_ENTRY(ci_triple) { size_t L = param("L"); string a = s7(L, "a"), b = s7(L, "b"), c = s7(L, "c");
  bool ab = caseInsensitiveLessString(a, b), bc = caseInsensitiveLessString(b, c); if (ab && bc) check(caseInsensitiveLessString(a, c), "order not transitive");
  if (caseInsensitiveEqualString(a, b) && caseInsensitiveEqualString(b, c)) check(caseInsensitiveEqualString(a, c), "equality not transitive");
  check(!(ab && caseInsensitiveLessString(b, a)), "order not asymmetric"); check(ab + caseInsensitiveLessString(b, a) + caseInsensitiveEqualString(a, b) == 1, "not exactly one of <, >, =="); }
VX_ENTRY(ci_ops) { size_t L = param("L"); string a = s7(L, "a"), b = s7(L, "b"); CaseInsensitiveString A(a), B(b); int c = cmp(a, b);
  int m = pick<int>(0, 2, "mode");
  if (m == 0) { check((A == B) == (c == 0), "=="); check((A != B) == (c != 0), "!="); check((A < B) == (c < 0), "<"); check((A <= B) == (c <= 0), "<="); }
  if (m == 1) { check((A == b) == (c == 0), "== string"); check((A != b) == (c != 0), "!= string"); check((A < b) == (c < 0), "< string"); check((A <= b) == (c <= 0), "<= string"); }
  if (m == 2) { check((a == B) == (c == 0), "string =="); check((a != B) == (c != 0), "string !="); check((a < B) == (c < 0), "string <"); check((a <= B) == (c <= 0), "string <="); } }
VX_ENTRY(ci_alpha) { string a = s7(param("L"), "a"); string u = upper_case(a); check(caseInsensitiveEqualString(a, u), "a string differs from its upper case"); CaseInsensitiveString A(a); check(A == u && A == A && string(A) == a, "text kept as given"); }
