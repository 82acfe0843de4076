//@ case entry=unwind_report
//@ case entry=require
//@ case entry=unwinding
//@ case entry=kernel
//@ case entry=kernel_abort
//@ variant release -DNDEBUG
//@ case entry=require variant=release
//@ case entry=kernel variant=release
//@ bounds messages of up to 2 arbitrary characters and an unrestricted number; up to 3 failures while an exception is in flight; debug and release builds
//@ outside the back trace (a library), the text of the message of SYCL kernels
#define EKAT_KOKKOS_ASSERT_TEST
#include "ekat_assert.hpp"
#include <cstdio>
static int g_aborts; namespace Kokkos { inline void abort(const char*) { g_aborts++; throw 77; } }
#include "ekat_kernel_assert.hpp"
using namespace vx; using std::string;
struct Own { string text; Own(const string& s) : text(s) {} }; struct Plain { int x = 3; }; struct None { None(int, int) {} }; struct Both { string text; Both(const string& s = "") : text(s) {} };
static int g_evals; static bool ev(bool b) { g_evals++; return b; }
VX_ENTRY(require) {
  int x = sym<int>("x"), k = pick<int>(0, 9, "macro"); int n = range<int>(-99, 99, "n"); string m = str(0, 2, "m"); bool ok = x > 3, thrown = false, asserts = k == 6 || k == 7; g_evals = 0; string what; int kind = 0;
  try { switch (k) { case 0: EKAT_REQUIRE(ev(x > 3)); break; case 1: EKAT_REQUIRE(ev(x > 3), m); break; case 2: EKAT_REQUIRE_MSG(ev(x > 3), "got " << m << "!"); break; case 3: EKAT_REQUIRE(ev(x > 3), "got " + m, std::logic_error); break; case 4: EKAT_REQUIRE(ev(x > 3), m, Own); break; case 5: EKAT_REQUIRE(ev(x > 3), m, Plain); break; case 6: EKAT_ASSERT_MSG(ev(x > 3), m); break; case 8: EKAT_REQUIRE(ev(x > 3), m, Both); break; case 9: EKAT_REQUIRE(ev(x > 3), m, None); break; default: EKAT_ASSERT(ev(x > 3)); } }
  catch (std::logic_error& e) { thrown = true; kind = 2; what = e.what(); } catch (std::runtime_error& e) { thrown = true; kind = 1; what = e.what(); } catch (Own& e) { thrown = true; kind = 3; what = e.text; } catch (Both& e) { thrown = true; kind = 5; what = e.text; } catch (Plain& e) { thrown = true; kind = 4; check(e.x == 3, "default constructed"); }
#ifdef NDEBUG
  if (asserts) { check(!thrown && g_evals == 0, "assertions do nothing in release builds"); cover("release"); return; }
#endif
  check(thrown == !ok, "an exception exactly if the condition fails"); check(g_evals == 1, "condition evaluated once"); if (!thrown) { cover("holds"); return; }
  check(kind == (k == 3 ? 2 : k == 4 ? 3 : k == 5 ? 4 : k == 8 ? 5 : 1), "type of the exception"); if (k == 5) return; string want = k == 0 || k == 7 ? "" : k == 2 ? "got " + m + "!" : k == 3 ? "got " + m : m; for (char c : m) assume(c != 0);
  check(what.size() >= want.size() && what.compare(0, want.size(), want) == 0, "the message starts with the given text"); check(what.find("ev(x > 3)") != string::npos, "the message shows the condition"); cover("fails"); }
struct CapturedErr {
#ifdef VX_NATIVE
  std::ostringstream o; std::streambuf* old; CapturedErr() { old = std::cerr.rdbuf(o.rdbuf()); } ~CapturedErr() { std::cerr.rdbuf(old); } std::string str() { return o.str(); }
#else
  CapturedErr() { std::cerr.null_ = false; std::cerr.b_.s.clear(); } ~CapturedErr() { std::cerr.null_ = true; } std::string str() { return std::cerr.b_.s; }
#endif
};
// the message of a failure that is passed over is not lost without a trace, each time it happens
VX_ENTRY(unwind_report) { int eps = pick<int>(1, 3, "episodes"), n = pick<int>(0, 2, "failures"); struct Guard { int n; ~Guard() noexcept { for (int i = 0; i < n; i++) EKAT_ERROR_MSG("second message"); } };
  for (int k = 0; k < eps; k++) { string out; { CapturedErr c; try { Guard g{n}; EKAT_ERROR_MSG("first"); } catch (std::runtime_error&) {} out = c.str(); } check((out.find("second message") != string::npos) == (n > 0), "the message of a failure passed over is reported on the error output"); } cover("reported"); }
VX_ENTRY(unwinding) { int n = pick<int>(0, 3, "failures"); bool err = pick<int>(0, 1, "error macro"); int ran = 0; struct Guard { int n; bool err; int& ran; ~Guard() noexcept { for (int i = 0; i < n; i++) { if (err) EKAT_ERROR_MSG("second"); else EKAT_REQUIRE_MSG(i < 0, "second"); ran++; } } }; string w;
  try { Guard g{n, err, ran}; EKAT_REQUIRE_MSG(n < 0, "first"); } catch (std::runtime_error& e) { w = e.what(); } check(w.compare(0, 5, "first") == 0, "the first exception arrives"); check(ran == n, "later failures are passed over while it is in flight"); check(throws([] { EKAT_ERROR_MSG("third"); }), "failures afterwards throw again"); cover("unwinding");
  if (n == 1) { ran = 0; try { EKAT_ERROR_MSG("a"); } catch (std::exception&) { check(throws([] { EKAT_ERROR_MSG("b"); }), "a failure inside a handler throws"); } } }
VX_ENTRY(kernel) { int x = sym<int>("x"), k = pick<int>(0, 4, "macro"); g_aborts = g_evals = 0; bool ok = x != 5, asserts = k == 2 || k == 3; 
  bool t = throws([&] { switch (k) { case 0: EKAT_KERNEL_REQUIRE(ev(x != 5)); break; case 1: EKAT_KERNEL_REQUIRE_MSG(ev(x != 5), "m"); break; case 2: EKAT_KERNEL_ASSERT(ev(x != 5)); break; case 3: EKAT_KERNEL_ASSERT_MSG(ev(x != 5), "m"); break; default: if (x == 5) EKAT_KERNEL_ERROR_MSG("m"); g_evals = 1; } });
#ifdef NDEBUG
  if (asserts) { check(!t && g_aborts == 0 && g_evals == 0, "assertions do nothing in release builds"); cover("release"); return; }
#endif
  check(t == !ok && g_aborts == (ok ? 0 : 1), "abort exactly if the condition fails"); check(k == 4 || g_evals == 1, "condition evaluated once"); cover(ok ? "holds" : "fails"); }
VX_ENTRY(kernel_abort) { if (pick<int>(0, 1, "else")) { bool b = false, c = sym<unsigned char>("c") & 1; try { if (c) EKAT_KERNEL_REQUIRE(true); else b = true; } catch (...) {} check(b == !c, "usable as a statement"); bool d = false; if (c) EKAT_REQUIRE(true); else d = true; check(d == !c, "usable as a statement"); } cover("statement"); check(true, "done"); }
