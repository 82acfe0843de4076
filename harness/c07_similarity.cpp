//@ build src=src/core/ekat_string_utils.cpp
//@ case entry=tokens_overlap
//@ case entry=jaro p.L=3 p.M=4
//@ case entry=jaro p.L=4 p.M=3
//@ case entry=jaro p.L=5 p.M=5 p.two=1
//@ case entry=jaro p.L=6 p.M=6 p.two=1 tier=thorough
//@ case entry=jaro p.L=4 p.M=5 tier=thorough
//@ case entry=jaro_long
//@ case entry=winkler p.L=3
//@ case entry=winkler p.L=4 tier=thorough
//@ case entry=winkler_bad
//@ case entry=jaccard p.L=3 p.M=3
//@ case entry=jaccard_one p.L=4
//@ case entry=jaccard p.L=5 p.M=4 tier=thorough
//@ case entry=jaccard_one p.L=6 tier=thorough
//@ case entry=tokens p.L=5
//@ case entry=tokens p.L=7 tier=thorough
//@ case entry=tokens_atomic p.L=5
//@ case entry=tokens_atomic p.L=7 tier=thorough
//@ outside atomic texts that begin or end with a delimiter
//@ bounds Jaro: all pairs of strings of up to 3 and 4 (thorough 4 and 5) characters over three letters, up to 5 (thorough 6) over two; one pair family of length 7 over 8; Winkler: up to 3 (4) characters, prefix limit 0..4, weight in {0, 0.1, 0.25}, threshold in {0.3, 0.7, 0.9}; tokens and Jaccard: token lists of strings of up to 5 (7) characters, Jaccard of up to 3 and 3 (5 and 4) characters over {a b _} or {a - _}, two delimiters, atomic texts a, aa, a_b (and a_a, aaa), phrase of up to 4 (6) characters against a, aa, ab, a_b kept whole
#include "ekat_string_utils.hpp"
#include <set>
using namespace ekat; using namespace vx; using std::string; using std::vector;
// textbook Jaro
static double refJaro(const string& a, const string& b) {
  int n = a.size(), m = b.size(); if (a == b) return 1; int w = (n > m ? n : m) / 2 - 1; bool ta[16] = {}, tb[16] = {}; int k = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (!ta[i] && !tb[j] && i - j <= w && j - i <= w && a[i] == b[j]) { ta[i] = tb[j] = true; k++; }
  if (!k) return 0; int t = 0, j = 0; for (int i = 0; i < n; i++) if (ta[i]) { while (!tb[j]) j++; if (a[i] != b[j]) t++; j++; }
  double M = k; return (M / n + M / m + (M - t / 2.0) / M) / 3; }
static bool near(double x, double y) { double d = x - y; return d < 1e-12 && d > -1e-12; }
VX_ENTRY(jaro) { const char* al = param("two") ? "ab" : "abc"; string a = strPick(0, param("L"), al, "a"), b = strPick(0, param("M"), al, "b"); double s = jaro_similarity(a, b);
  check(s >= 0 && s <= 1, "similarity outside [0,1]"); check(near(s, refJaro(a, b)), "Jaro similarity"); check((s == 1) == (a == b), "similarity 1 exactly for equal strings"); bool common = false; for (char x : a) for (char y : b) common |= x == y; if (!common && !(a == b)) check(s == 0, "similarity of strings with no common letter"); if (s > 0 && s < 1) cover("partial"); }
VX_ENTRY(jaro_long) { string a = "abcdefg", b = "abcdefgh"; int i = pick<int>(0, 6, "i"), j = pick<int>(0, 7, "j"); a[i] = strPick(1, 1, "abgh", "c")[0]; b[j] = strPick(1, 1, "abgx", "d")[0]; double s = jaro_similarity(a, b), t = jaro_similarity(b, a); check(near(s, refJaro(a, b)) && near(t, refJaro(b, a)), "Jaro similarity"); check(s >= 0 && s < 1, "range"); }
VX_ENTRY(winkler) { string a = strOf(0, param("L"), "ab", "a"), b = strOf(0, param("L"), "ab", "b"); int l = pick<int>(0, 4, "l"); static const double ps[] = {0, 0.1, 0.25}, ts[] = {0.3, 0.7, 0.9}; double p = ps[pick<int>(0, 2, "p")], th = ts[pick<int>(0, 2, "t")];
  double s = jaro_winkler_similarity(a, b, l, p, th), j = refJaro(a, b); int k = 0; while (k < l && k < (int)a.size() && k < (int)b.size() && a[k] == b[k]) k++;
  check(s >= 0 && s <= 1, "similarity outside [0,1]"); check(near(s, j > th ? j + k * p * (1 - j) : j), "Jaro-Winkler similarity"); check(s >= j - 1e-12, "prefix bonus lowers the similarity"); if (double q = jaro_similarity(a, b); q > 0 && q < 1) check(jaro_winkler_similarity(a, b, l, p, q) == q, "no bonus at the threshold itself"); if (l == 4 && p == 0.1 && th == 0.7) check(jaro_winkler_similarity(a, b) == s, "default arguments"); }
// prefix lengths, weights and thresholds that could push the index out of [0,1] are rejected (builds with assertions enabled)
VX_ENTRY(winkler_bad) { int l = range<int>(-3, 9, "l"); static const double ps[] = {-0.1, 0, 0.1, 0.25, 0.4, 0.75, 1, 1.5}, ts[] = {-0.5, 0, 0.3, 1, 1.5}; double p = ps[pick<int>(0, 7, "p")], th = ts[pick<int>(0, 4, "t")]; string a = strOf(0, 2, "ab", "a"), b = strOf(1, 2, "ab", "b");
  bool ok = l >= 0 && l <= 4 && p >= 0 && (l == 0 || p * l <= 1) && th > 0 && th < 1; double s = 0; bool t = throws([&] { s = jaro_winkler_similarity(a, b, l, p, th); }); check(t == !ok, "parameters outside their range"); if (!t) check(s >= 0 && s <= 1, "similarity outside [0,1]"); cover(ok ? "ok" : "rejected"); }
static std::set<string> toks(const string& s) { std::set<string> r; string c; for (char x : s) { if (x == '-' || x == '_') { if (c.size()) r.insert(c); c.clear(); } else c += x; } if (c.size()) r.insert(c); return r; }
static vector<string> tokl(const string& s) { vector<string> r; string c; for (char x : s) { if (x == '-' || x == '_') { if (c.size()) r.push_back(c); c.clear(); } else c += x; } if (c.size()) r.push_back(c); return r; }
// scan from the left for the atomic text delimited on both sides
static vector<string> tokAtomic(const string& s, const string& at) { vector<string> r; size_t i = 0, from = 0; auto dl = [&](size_t k) { return s[k] == '-' || s[k] == '_'; };
  string rest; vector<string> out; size_t last = 0; while (i + at.size() <= s.size()) { bool m = s.compare(i, at.size(), at) == 0 && (i == 0 || dl(i - 1)) && (i + at.size() == s.size() || dl(i + at.size())); if (m) { for (auto& x : tokl(s.substr(last, i - last))) out.push_back(x); out.push_back(at); i += at.size(); last = i; } else i++; }
  for (auto& x : tokl(s.substr(last))) out.push_back(x); return out; }
static const vector<char> D{'-', '_'};
static bool sameBag(vector<string> a, const std::list<string>& b) { if (a.size() != b.size()) return false; for (auto& x : b) { bool f = false; for (auto& y : a) if (!f && y == x && !(y.size() == 1 && y[0] == '\1')) { y = "\1"; f = true; } if (!f) return false; } return true; }
VX_ENTRY(tokens) { string s = strOf(0, param("L"), "a-_", "s"); auto t = gather_tokens(s, D); vector<string> e = tokl(s); check(t.size() == e.size() && std::equal(t.begin(), t.end(), e.begin()), "tokens"); auto u = gather_tokens(s, {'-'}); for (auto& x : u) check(x.size() && x.find('-') == string::npos, "token with a delimiter"); }
VX_ENTRY(tokens_overlap) { string s = strOf(6, 7, "ab_", "s"), at = pick<int>(0, 1, "at") ? "a_a" : "a_b"; check(sameBag(tokAtomic(s, at), gather_tokens(s, D, at)), "tokens around overlapping occurrences"); for (auto& x : gather_tokens(s, D, at)) if (x == at) cover("atomic"); }
VX_ENTRY(tokens_atomic) { string s = strOf(0, param("L"), "ab_", "s"), at = strOf(1, param("L") > 5 ? 3 : 2, "a_", "at"); assume(at[0] == 'a' && at[at.size() - 1] == 'a'); if (pick<int>(0, 1, "three")) at = "a_b"; check(sameBag(tokAtomic(s, at), gather_tokens(s, D, at)), "tokens around the atomic text"); for (auto& x : gather_tokens(s, D, at)) if (x == at) cover("atomic"); }
static double ratio(const std::set<string>& a, const std::set<string>& b) { int i = 0; for (auto& x : a) i += b.count(x); int u = a.size() + b.size() - i; return u ? double(i) / u : 1; }
VX_ENTRY(jaccard) { string a = strPick(0, param("L"), "ab_", "a"), b = strPick(0, param("M"), "ab_", "b"); double s = jaccard_similarity(a, b, D); check(s >= 0 && s <= 1, "similarity outside [0,1]"); check(near(s, ratio(toks(a), toks(b))), "Jaccard similarity"); check(jaccard_similarity(b, a, D) == s, "not symmetric"); check(jaccard_similarity(a, a, D) == 1, "identity"); check(jaccard_similarity(a, b, D, true, true) == s && jaccard_similarity(a, b, D, true) == s, "default arguments"); }
VX_ENTRY(jaccard_one) { string a = strPick(0, param("L"), "ab_", "a"), b; static const char* bs[] = {"a", "aa", "a_b", "ab"}; b = bs[pick<int>(0, 3, "b")]; auto e = tokAtomic(a, b); std::set<string> A(e.begin(), e.end()), B{b}; double r = ratio(A, B); check(near(jaccard_similarity(a, b, D, true, false), r), "second phrase kept whole"); check(jaccard_similarity(b, a, D) == jaccard_similarity(b, a, D, true, true) && jaccard_similarity(b, a, D, false) == jaccard_similarity(b, a, D, false, true), "both phrases are split by default"); check(near(jaccard_similarity(b, a, D, false, true), r), "first phrase kept whole"); check(jaccard_similarity(a, b, D, false, false) == (a == b), "both kept whole"); }
