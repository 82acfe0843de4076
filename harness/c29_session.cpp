//@ build src=src/core/ekat_test_utils.cpp,src/core/ekat_string_utils.cpp,src/core/ekat_comm.cpp,src/core/ekat_arch.cpp,src/core/ekat_fpe.cpp def=EKAT_ENABLE_MPI,EKAT_MPI_ERRORS_ARE_FATAL,EKAT_HAVE_FEENABLEEXCEPT inc=shim/mpi,shim/catch
//@ case entry=parse p.N=1 p.L=5
//@ case entry=parse p.N=2 p.L=3
//@ case entry=parse p.N=3 p.L=2
//@ case entry=parse p.N=2 p.L=4 tier=thorough
//@ case entry=parse p.N=3 p.L=3 tier=thorough
//@ case entry=parse_eq
//@ case entry=parse_list
//@ case entry=matches
//@ case entry=catch_main
//@ bounds command lines of 1 argument of up to 5, 2 of up to 3 (thorough 4) and 3 of up to 2 (thorough 3) arbitrary characters; key=value arguments with a key of up to 2 and a value of up to 3 characters; 2 to 4 arguments of the documented forms; main: up to 4 arguments, every result of the test run
//@ stubs Catch2 (records arguments), MPI (model), the test session hooks
#include "ekat_test_utils.hpp"
#include <cstdio>
#define main ekat_main
#include "ekat_catch_main.cpp"
#undef main
using namespace vx; using std::string; using std::vector; using std::map;
typedef map<string, bool> Fl; typedef map<string, string> Pa; typedef map<string, vector<string>> Ve;
static bool isKey(const string& s) { return !s.empty() && s[0] == '-'; }
static string keyOf(const string& s) { return s.size() > 1 && s[1] == '-' ? s.substr(2) : s.substr(1); }
// what the arguments mean, written down independently; false: they are malformed
static bool meaning(const vector<string>& args, Fl& f, Pa& p, Ve& v) {
  string key; bool have = false; int n = 0;
  auto close = [&] { if (have && n == 0) f[key] = true; };
  auto list = [&](const string& s) { string cur; bool ok = true; for (size_t i = 0; i <= s.size(); i++) { if (i == s.size() || s[i] == ',') { if (isKey(cur)) ok = false; v[key].push_back(cur); n++; cur.clear(); } else cur += s[i]; } return ok; };
  for (size_t i = 0; i < args.size(); i++) { const string& a = args[i]; size_t e = a.find('='), c = a.find(',');
    if (e != string::npos) { string k = a.substr(0, e), r = a.substr(e + 1); if (r.find('=') != string::npos || !isKey(k)) return false; close(); key = keyOf(k); have = true; n = 0; if (!list(r)) return false; }
    else if (c != string::npos) { for (size_t j = 0; j < a.size(); j++) if (a[j] == '-' && (j == 0 || a[j - 1] == ',')) return false; if (!have) return false; list(a); }
    else if (isKey(a)) { close(); key = keyOf(a); have = true; n = 0; }
    else { if (!have) return false; v[key].push_back(a); n++; } }
  close(); for (auto& x : v) if (x.second.size() == 1) p[x.first] = x.second[0]; return true; }
static void run(const vector<string>& args) {
  Fl f; Pa p; Ve v; bool ok = meaning(args, f, p, v); vector<char*> a; for (auto& s : args) a.push_back((char*)s.c_str()); auto& ts = ekat::TestSession::get(); check(&ts == &ekat::TestSession::get(), "one session"); check(throws([&] { ts.parse_test_args(a); }) == !ok, "malformed arguments are rejected, others are not"); if (!ok) { cover("malformed"); return; }
  check(ts.flags == f, "flags"); check(ts.vec_params == v, "values of each parameter"); check(ts.params == p, "single values"); cover("parsed"); }
static string text(int lo, int hi, const char* n) { string s = str(lo, hi, n); for (char c : s) assume(c != 0); return s; }
VX_ENTRY(parse) { int N = param("N"); vector<string> args; for (int i = 0; i < N; i++) args.push_back(text(0, param("L"), "arg")); run(args); }
VX_ENTRY(parse_eq) { string a = text(0, 2, "key"), b = text(0, 3, "value"); vector<string> args{a + "=" + b}; if (pick<int>(0, 1, "more")) args.push_back(text(1, 2, "next")); run(args); }
VX_ENTRY(parse_list) { vector<string> args; int n = pick<int>(2, 4, "n"); for (int i = 0; i < n; i++) { const char* w[6] = {"-a", "--b", "-a=x", "y", "u,w", "--b=r,s"}; args.push_back(w[pick<int>(0, 5, "arg")]); } run(args); }
VX_ENTRY(matches) { string s = strOf(0, 4, "-ab", "s"), o = strOf(0, 2, "-ab", "short"), l = strOf(0, 3, "-ab", "long"); bool want = s == o || s == l || (s.size() == o.size() + 1 && s[0] == '-' && s.compare(1, string::npos, o) == 0); check(ekat::argv_matches(s, o, l) == want, "an option matches its short form, its long form, or the short form with one more dash"); cover("matches"); }
static int g_seq, g_init, g_fini; static bool g_print; static int g_argc; void ekat_initialize_test_session(int c, char**, const bool p) { g_init = ++g_seq; g_print = p; g_argc = c; check(mpim::inits == 1 && !mpim::finalized, "MPI is up when the session starts"); } void ekat_finalize_test_session() { g_fini = ++g_seq; check(!mpim::finalized, "MPI is up when the session ends"); }
VX_ENTRY(catch_main) { using C = Catch::Session; mpim::reset(1); mpim::inited = false; g_seq = g_init = g_fini = 0; C::applied = C::ran = 0; C::args.clear(); static int runAt; runAt = 0; C::on_run = [] { runAt = ++g_seq; }; C::result = sym<int>("failed"); assume(C::result >= 0); C::parse_result = pick<int>(0, 1, "parse"); int n = pick<int>(1, 5, "argc"); vector<string> a{"prog"}; const char* w[4] = {"tag", "--args", "-x", "v"}; for (int i = 1; i < n; i++) a.push_back(w[pick<int>(0, 3, "arg")]); vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(nullptr);
  size_t at = a.size(); for (size_t i = 1; i < a.size(); i++) if (a[i] == "--args") { at = i; break; } vector<string> before(a.begin(), a.begin() + at), after; for (size_t i = at + 1; i < a.size(); i++) after.push_back(a[i]); Fl f; Pa p; Ve ve; bool ok = meaning(after, f, p, ve); int ret = -1; bool t = throws([&] { ret = ekat_main(n, v.data()); }); check(t == (!ok || C::parse_result != 0), "malformed command lines are rejected"); if (t) { check(C::ran == 0, "no test runs then"); cover("rejected"); return; }
  check(C::applied == 1 && C::args == before && C::terminated, "Catch gets the arguments before --args"); auto& ts = ekat::TestSession::get(); check(ts.flags == f && ts.params == p && ts.vec_params == ve, "the session gets those after --args"); check(C::ran == 1 && g_init == 1 && runAt == 2 && g_fini == 3, "the tests run once, inside the session"); check(g_print && g_argc == n, "configuration printed by the root"); check(mpim::finals == 1, "MPI is finalised"); int code = ret & 255; check((code == 0) == (C::result == 0), "the exit status is zero exactly if no test failed"); cover("ran"); }
