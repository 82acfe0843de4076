//@ build src=src/core/ekat_parameter_list.cpp
//@ case entry=pl_types
//@ case entry=pl_seq p.K=3
//@ case entry=pl_seq p.K=4 tier=thorough
//@ case entry=pl_copy
//@ case entry=pl_assign
//@ case entry=pl_import
//@ case entry=pl_import_types
//@ case entry=pl_emptyseq
//@ case entry=pl_print
//@ case entry=pl_print_types
//@ bounds every sequence of 3 (thorough 4) operations out of {set int, set double, set string, get, get with default, typed query, name lists} with two symbolic 1-letter keys and symbolic values; copies, assignments and imports of lists with up to 2 parameters and 2 nested sublists whose presence, keys and values are symbolic
#include "ekat_parameter_list.hpp"
#include "ekat_std_utils.hpp"
#include <map>
using namespace ekat; using namespace vx; using std::string; using std::vector;
static string key(const char* n) { return strPick(1, 1, "ab", n); }
VX_ENTRY(pl_types) {
  ParameterList p("L"); check(p.name() == "L", "name"); int i = sym<int>("i"); double d = sym<double>("d"); bool b = sym<unsigned char>("b") & 1; vector<int> v{sym<int>("v0"), sym<int>("v1")};
  p.set("i", i); p.set("d", d); p.set("b", b); p.set<string>("s", "txt"); p.set("v", v); const auto& c = p;
  check(p.get<int>("i") == i && c.get<int>("i") == i, "int"); unsigned long x, y; double e = p.get<double>("d"), g = c.get<double>("d"); memcpy(&x, &e, 8); memcpy(&y, &d, 8); check(x == y, "double"); memcpy(&x, &g, 8); check(x == y, "double"); check(p.get<bool>("b") == b && p.get<string>("s") == "txt" && p.get<vector<int>>("v") == v && c.get<vector<int>>("v") == v, "values");
  check(p.isType<int>("i") && !p.isType<double>("i") && !p.isType<bool>("i") && p.isType<string>("s") && p.isType<bool>("b") && p.isType<vector<int>>("v") && !p.isType<vector<double>>("v") && p.isType<double>("d") && !p.isType<float>("d"), "type queries");
  check(throws([&] { p.get<int>("d"); }) && throws([&] { p.get<double>("i"); }) && throws([&] { c.get<bool>("i"); }) && throws([&] { c.get<vector<double>>("v"); }) && throws([&] { p.get<vector<double>>("v"); }) && throws([&] { p.get<unsigned>("i"); }), "wrong type not rejected");
  check(throws([&] { p.get<int>("zz"); }) && throws([&] { c.get<int>("zz"); }) && throws([&] { p.isType<int>("zz"); }) && throws([&] { c.sublist("zz"); }), "missing entry not rejected"); check(!p.isParameter("zz") && !p.isSublist("zz"), "a failed query created an entry");
  p.get<int>("i") = i + 1; check(c.get<int>("i") == i + 1, "reference does not alias the stored value"); p.set<string>("i", "now text"); check(c.get<string>("i") == "now text" && !p.isType<int>("i"), "overwriting with another type");
  check(p.get<int>("n", i) == i && p.isParameter("n") && p.get<int>("n", i + 1) == i, "default value"); check(throws([&] { p.get<double>("n", 1.0); }), "default of another type accepted"); check(p.get<int>("n") == i, "value changed by a failed query");
  p.rename("M"); check(p.name() == "M" && p.get<int>("n") == i, "rename"); cover("types");
}
struct Ref { int kind = 0; int iv = 0; string sv; };
VX_ENTRY(pl_seq) {
  ParameterList p("L"); std::map<string, Ref> m; int K = param("K");
  for (int s = 0; s < K; s++) {
    int op = pick<int>(0, 5, "op"); string k = key("key"); int val = range<int>(-4, 4, "val"); auto it = m.find(k); bool has = it != m.end();
    if (op == 0) { p.set(k, val); m[k] = Ref{1, val, ""}; }
    if (op == 1) { p.set<string>(k, val > 0 ? "pos" : "neg"); m[k] = Ref{2, 0, val > 0 ? "pos" : "neg"}; }
    if (op == 2) { if (has && it->second.kind == 1) check(p.get<int>(k) == it->second.iv, "stored int"); else check(throws([&] { p.get<int>(k); }), "bad query accepted"); }
    if (op == 3) { if (has && it->second.kind == 2) check(p.get<string>(k) == it->second.sv, "stored text"); else check(throws([&] { p.get<string>(k); }), "bad query accepted"); }
    if (op == 4) { if (!has) { check(p.get<int>(k, val) == val, "default"); m[k] = Ref{1, val, ""}; } else if (it->second.kind == 1) check(p.get<int>(k, val) == it->second.iv, "default replaced a stored value"); else check(throws([&] { p.get<int>(k, val); }), "bad query accepted"); }
    if (op == 5) { p.sublist(k).set("x", val); check(p.isSublist(k) && p.sublist(k).get<int>("x") == val && p.sublist(k).name() == k, "sublist"); check(p.isParameter(k) == has, "a sublist became a parameter"); }
  }
  auto names = p.param_names(); check(names.size() == m.size(), "number of parameters"); size_t i = 0; for (auto& x : m) check(names[i++] == x.first, "parameter names"); 
  for (auto& x : m) { check(p.isParameter(x.first) && p.isType<int>(x.first) == (x.second.kind == 1) && p.isType<string>(x.first) == (x.second.kind == 2), "entries"); if (x.second.kind == 1) check(p.get<int>(x.first) == x.second.iv, "final value"); }
}
// up to two parameters, up to one sublist with up to one parameter and a nested sublist
struct Desc { bool a, b, s, sa, sn; int va, vb, vs, vn; bool w = false; int vw = 0; };
static Desc desc(const char* n, int bits) { Desc d; d.a = bits & 1; d.b = bits & 2; d.s = bits & 4; d.sa = bits & 8; d.sn = bits & 16; d.va = sym<int>("va"); d.vb = sym<int>("vb"); d.vs = sym<int>("vs"); d.vn = sym<int>("vn"); return d; }
static void fill(ParameterList& p, const Desc& d) { if (d.a) p.set("a", d.va); if (d.b) p.set("b", d.vb); if (d.s) { auto& q = p.sublist("s"); if (d.sa) q.set("x", d.vs); if (d.sn) q.sublist("n").set("y", d.vn); if (d.sn && d.w) q.sublist("n").set("w", d.vw); } }
static void has(const ParameterList& p, const Desc& d, const char* what) {
  check(p.isParameter("a") == d.a && p.isParameter("b") == d.b && p.isSublist("s") == d.s && p.param_names().size() == size_t(d.a + d.b) && p.sublist_names().size() == size_t(d.s), what);
  if (d.a) check(p.get<int>("a") == d.va, what); if (d.b) check(p.get<int>("b") == d.vb, what);
  if (d.s) { const auto& q = p.sublist("s"); check(q.name() == "s", what); check(q.isParameter("x") == d.sa && q.isSublist("n") == d.sn, what); if (d.sa) check(q.get<int>("x") == d.vs, what); if (d.sn) check(q.sublist("n").get<int>("y") == d.vn, what); if (d.sn && d.w) check(q.sublist("n").get<int>("w") == d.vw && q.sublist("n").name() == "n", what); } }
VX_ENTRY(pl_copy) {
  Desc d = desc("d", pick<int>(0, 31, "content")); ParameterList p("P"); fill(p, d); ParameterList c(p); check(c.name() == "P", "name of the copy"); has(c, d, "copy differs");
  int z = sym<int>("z"); p.set("a", z); p.sublist("s").set("x", z); p.sublist("s").sublist("n").set("y", z); p.sublist("s2"); has(c, d, "changing the original changed the copy"); Desc e = d; ParameterList q("Q"); fill(q, d); ParameterList c2(q); c2.set("b", z); c2.sublist("s").set("x", z); c2.sublist("s").sublist("n").set("y", z); has(q, e, "changing the copy changed the original"); }
VX_ENTRY(pl_assign) {
  Desc d = desc("d", pick<int>(0, 31, "content")), e = desc("e", pick<int>(0, 3, "old") * 9); ParameterList p("P"), q("Q"); fill(p, d); fill(q, e); auto& r = (q = p); check(&r == &q && q.name() == "P", "assignment result"); has(q, d, "assigned list differs"); has(p, d, "assignment changed its source");
  q = q; has(q, d, "self assignment"); p.set("a", 7); p.sublist("s").set("x", 8); has(q, d, "assigned list shares state with its source"); cover("assign"); }
VX_ENTRY(pl_import) {
  Desc d = desc("d", pick<int>(0, 31, "content")), e = desc("e", pick<int>(0, 31, "old")); assume(d.s || (!d.sa && !d.sn)); assume(e.s || (!e.sa && !e.sn)); e.w = e.sn; e.vw = sym<int>("vw"); ParameterList p("P"), q("Q"); fill(p, d); fill(q, e); q.import(p); check(q.name() == "Q", "import renamed the list");
  Desc u = e; if (d.a) { u.a = true; u.va = d.va; } if (d.b) { u.b = true; u.vb = d.vb; } if (d.s) { u.s = true; if (d.sa) { u.sa = true; u.vs = d.vs; } if (d.sn) { u.sn = true; u.vn = d.vn; } }
  has(q, u, "import is not the union with the source taking precedence"); has(p, d, "import changed its source"); p.set("a", 7); p.sublist("s").set("x", 8); p.sublist("s").sublist("n").set("y", 9); has(q, u, "imported content shares state with its source"); }
VX_ENTRY(pl_emptyseq) {
  ParameterList p("P"); p.set("e", ParameterList::EmptySeq()); const auto& c = p; check(c.get<vector<int>>("e").empty() && c.get<vector<string>>("e").empty() && p.isType<ParameterList::EmptySeq>("e"), "empty sequence reads as any empty vector"); check(throws([&] { p.get<int>("e"); }) && throws([&] { c.get<int>("e"); }), "empty sequence read as a scalar");
  int v = sym<int>("v"); p.get<vector<int>>("e").push_back(v); check(c.get<vector<int>>("e").size() == 1 && c.get<vector<int>>("e")[0] == v, "vector obtained from an empty sequence is stored"); check(throws([&] { c.get<vector<string>>("e"); }) && throws([&] { p.get<vector<string>>("e"); }), "type fixed after the first access"); }
VX_ENTRY(pl_print) {
  vx_exact_fmt = 1; ParameterList p("P"); int i = range<int>(0, 9, "i"); bool b = pick<int>(0, 1, "b"); p.set("k", i); p.set("f", b); p.set<string>("t", "x y"); p.set("v", vector<int>{1, 2}); p.sublist("z").set("q", i); int ind = pick<int>(0, 2, "indent"), inc = pick<int>(1, 2, "inc"); std::ostringstream o; p.print(o, ind, inc);
  string t(ind, ' '), u(inc, ' '), n; n += char('0' + i); check(o.str() == t + "P:\n" + t + u + "f: " + (b ? "true" : "false") + "\n" + t + u + "k: " + n + "\n" + t + u + "t: x y\n" + t + u + "v: 1 2\n" + t + u + "z:\n" + t + u + u + "q: " + n + "\n", "printed list"); }
// the value of a name is replaced whatever its old and new types are, also in sublists and also when the list is its own copy
static void setT(ParameterList& p, const char* n, int t, int v) { switch (t) { case 0: p.set(n, v); break; case 1: p.set(n, (double)v); break; case 2: p.set(n, v > 0); break; case 3: p.set(n, string(v > 0 ? "yes" : "no")); break; default: p.set(n, std::vector<int>{v, 2}); } }
static bool isT(ParameterList& p, const char* n, int t, int v) { bool r = p.isParameter(n) && p.isType<int>(n) == (t == 0) && p.isType<double>(n) == (t == 1) && p.isType<bool>(n) == (t == 2) && p.isType<string>(n) == (t == 3) && p.isType<std::vector<int>>(n) == (t == 4); if (!r) return false;
  switch (t) { case 0: return p.get<int>(n) == v; case 1: return p.get<double>(n) == (double)v; case 2: return p.get<bool>(n) == (v > 0); case 3: return p.get<string>(n) == (v > 0 ? "yes" : "no"); default: { auto& x = p.get<std::vector<int>>(n); return x.size() == 2 && x[0] == v && x[1] == 2; } } }
VX_ENTRY(pl_import_types) { int o = pick<int>(0, 4, "old type"), n = pick<int>(0, 4, "new type"), v = range<int>(-100, 100, "old"), w = range<int>(-100, 100, "new"); bool sub = pick<int>(0, 1, "sublist"); vx_exact_fmt = 0; ParameterList p("P"), q("Q"); auto& a = sub ? p.sublist("s") : p; auto& b = sub ? q.sublist("s") : q; setT(a, "x", n, w); setT(b, "x", o, v); setT(b, "kept", o, v); q.import(p); auto& r = sub ? q.sublist("s") : q; check(isT(r, "x", n, w), "import is not the union with the source taking precedence"); check(isT(r, "kept", o, v), "import changed another parameter"); check(isT(sub ? p.sublist("s") : p, "x", n, w), "import changed its source");
  q.import(q); check(isT(r, "x", n, w) && isT(r, "kept", o, v), "importing a list into itself changes nothing"); setT(r, "x", o, v); check(isT(r, "x", o, v), "a parameter may be set again with another type"); cover("types"); }
// every type that can be printed; what cannot is named by its type
struct Opaque { int x; };
VX_ENTRY(pl_print_types) { vx_exact_fmt = 1; ParameterList p("P"); int w = pick<int>(0, 9, "type"); string e; switch (w) {
    case 0: { int v = pick<int>(0, 1, "v"); p.set<float>("k", v ? 1.5f : -2.0f); e = v ? "1.50000" : "-2.00000"; break; }
    case 1: { int v = pick<int>(0, 1, "v"); p.set<double>("k", v ? 0.25 : 3.0); e = v ? "0.250000" : "3.00000"; break; }
    case 2: p.set("k", vector<float>{1.0f, 0.5f}); e = "1.00000 0.500000"; break;
    case 3: p.set("k", vector<double>{2.0, -0.125}); e = "2.00000 -0.125000"; break;
    case 4: { bool b = pick<int>(0, 1, "b"); p.set("k", vector<bool>{b, !b}); e = b ? "true false" : "false true"; break; }
    case 5: p.set("k", vector<string>{"a", "b c"}); e = "a b c"; break;
    case 6: p.set("k", vector<int>{}); e = ""; break;
    case 7: { int v = range<int>(-9, -1, "v"); p.set("k", vector<int>{v, 3}); e = string("-") + char('0' - v) + " 3"; break; }
    case 8: p.set("k", string("")); e = ""; break;
    default: p.set("k", Opaque{1}); e = string(" (Cannot print type '") + typeid(Opaque).name() + "')"; }
  p.set<string>("l", "z"); std::ostringstream o; p.print(o); check(o.str() == "P:\n k: " + e + "\n l: z\n", "printed value of every type"); cover("print types"); }
