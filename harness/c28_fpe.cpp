//@ build src=src/core/ekat_fpe.cpp,src/core/ekat_arch.cpp,src/testing-support/ekat_test_session.cpp def=EKAT_HAVE_FEENABLEEXCEPT
//@ case entry=ops p.K=4
//@ case entry=ops p.K=5 tier=thorough
//@ case entry=text
//@ case entry=session
//@ variant mask -DEKAT_ENABLE_FPE_DEFAULT_MASK -DVX_MASK
//@ case entry=session variant=mask
//@ bounds every history of 4 (thorough 5) operations out of {enable, disable, disable all, raise flags by a computation} with unrestricted 32-bit masks, from any initial state; every enabled set for the text
//@ stubs feenableexcept, fedisableexcept, fegetexcept, feclearexcept: a model of the x86 floating point environment after the glibc manual, in which enabling a trap while its flag is still raised faults
#include "ekat_fpe.hpp"
#include <fenv.h>
using namespace vx; using std::string; using namespace ekat;
static unsigned g_on, g_raised; static bool g_trap;
extern "C" int feclearexcept(int m) noexcept { g_raised &= ~(m & FE_ALL_EXCEPT); return 0; }
extern "C" int feenableexcept(int m) noexcept { int o = g_on; g_on |= m & FE_ALL_EXCEPT; if (g_on & g_raised) g_trap = true; return o; }
extern "C" int fedisableexcept(int m) noexcept { int o = g_on; g_on &= ~(m & FE_ALL_EXCEPT); return o; }
extern "C" int fegetexcept() noexcept { return g_on; }
static void init() { g_trap = false; g_on = sym<int>("enabled") & FE_ALL_EXCEPT; g_raised = sym<int>("raised") & FE_ALL_EXCEPT; assume((g_on & g_raised) == 0); }
VX_ENTRY(ops) { init(); unsigned on = g_on, fl = g_raised; int K = param("K"); for (int i = 0; i < K; i++) { int m = sym<int>("mask"); switch (pick<int>(0, 3, "op")) { case 0: enable_fpes(m); on |= m & FE_ALL_EXCEPT; fl &= ~(m & FE_ALL_EXCEPT); break; case 1: disable_fpes(m); on &= ~(m & FE_ALL_EXCEPT); fl &= ~(m & FE_ALL_EXCEPT); break; case 2: disable_all_fpes(); on = 0; fl = 0; break; default: g_raised |= m & FE_ALL_EXCEPT & ~g_on; fl = g_raised; } check(g_raised == fl, "the flags of the named exceptions are cleared, no others"); check(g_on == on, "exactly the requested exceptions are enabled"); check(get_enabled_fpes() == (int)on, "query"); check(!g_trap, "enabling faults because of an earlier computation"); } cover("history"); }
VX_ENTRY(text) { g_on = 0; g_raised = 0; const char* n[5] = {"FE_INVALID", "FE_DIVBYZERO", "FE_OVERFLOW", "FE_UNDERFLOW", "FE_INEXACT"}; int b[5] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT}, k = 0; bool in[5]; for (int i = 0; i < 5; i++) { in[i] = pick<int>(0, 1, "in"); if (in[i]) { g_on |= b[i]; k++; } } bool other = pick<int>(0, 1, "other"); if (other) g_on |= 2; // the denormal flag of x86
  string s = fpe_config_string(); for (int i = 0; i < 5; i++) check((s.find(n[i]) != string::npos) == in[i], "the text names exactly the enabled exceptions"); check((s.find("OTHER") != string::npos) == other && (s.find("NONE") != string::npos) == (k == 0 && !other), "unknown or no exception"); int bars = 0; for (char c : s) bars += c == '|'; check(k + other == 0 ? bars == 0 : bars == k + other - 1, "separators"); cover("text"); }
void ekat_initialize_test_session(int, char**, const bool); void ekat_finalize_test_session();
VX_ENTRY(session) { init(); unsigned on = g_on; bool pr = pick<int>(0, 1, "print"); ekat_initialize_test_session(0, nullptr, pr);
#ifdef VX_MASK
  on |= FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW;
#endif
  check(g_on == on && !g_trap, "default mask as configured"); ekat_finalize_test_session(); cover("session"); }
