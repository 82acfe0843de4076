//@ build src=src/kokkos/ekat_kokkos_session.cpp kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB
//@ case entry=ks_init
//@ case entry=ks_args p.L=9
//@ case entry=ks_args p.L=11 tier=thorough
//@ case entry=ks_seq p.K=4
//@ case entry=ks_seq p.K=6 tier=thorough
//@ bounds up to 3 arguments out of a list with and without the Kokkos prefix; every argument text of 7 to 9 (thorough 11) characters; every sequence of 4 (thorough 6) initialisations and finalisations by EKAT and by the caller
//@ stubs Kokkos::initialize, finalize, is_initialized and is_finalized (record their arguments and the state)
#include "ekat_kokkos_session.hpp"
#include <Kokkos_Core.hpp>
#include <stdexcept>
#include <string>
using namespace vx; using std::string;
static bool g_on, g_fin; static int g_inits, g_withArgs, g_finals, g_argc; static char** g_argv; static bool g_byRank, g_quiet;
namespace Kokkos {
bool is_initialized() noexcept { return g_on; }
bool is_finalized() noexcept { return g_fin; }
void initialize(InitializationSettings const& s) { check(!g_on, "Kokkos initialised twice"); g_on = true; g_inits++; g_byRank = s.has_map_device_id_by() && s.get_map_device_id_by() == "mpi_rank"; g_quiet = s.has_disable_warnings() && s.get_disable_warnings(); }
void initialize(int& argc, char* argv[]) { check(!g_on, "Kokkos initialised twice"); g_on = true; g_withArgs++; g_argc = argc; g_argv = argv; }
void finalize() { check(g_on, "Kokkos finalised while it is not initialised"); g_on = false; g_fin = true; g_finals++; }
}
static void reset() { g_on = g_fin = false; g_inits = g_withArgs = g_finals = g_argc = 0; g_argv = nullptr; g_byRank = g_quiet = false; }
static void expect(bool user, int argc, char** argv) { check(g_on, "Kokkos is initialised"); check(g_inits == !user && g_withArgs == user, "the user's Kokkos arguments are honoured exactly if there are some"); if (user) check(g_argc == argc && g_argv == argv, "arguments handed to Kokkos"); else check(g_byRank && g_quiet, "default settings: devices by rank, no warnings"); }
VX_ENTRY(ks_init) { static const char* A[] = {"prog", "--kokkos-num-threads=2", "x--kokkos", "--kokko", "--Kokkos", "-kokkos", "--kokkos", "", "--koko--kokkos-map=3"}; static const bool K[] = {0, 1, 1, 0, 0, 0, 1, 0, 1}; reset(); int n = pick<int>(0, 3, "argc"); char* v[4] = {}; bool user = false; for (int i = 0; i < n; i++) { int k = pick<int>(0, 8, "argument"); v[i] = (char*)A[k]; user |= K[k]; } ekat::initialize_kokkos_session(n, v, false); expect(user, n, v); cover(user ? "arguments" : "defaults"); }
VX_ENTRY(ks_args) { reset(); string s = str(7, param("L"), "argument"); for (char c : s) assume(c != 0); char p[] = "prog"; char* v[2] = {p, &s[0]}; bool user = false; for (size_t i = 0; i + 8 <= s.size(); i++) { bool eq = true; for (int j = 0; j < 8; j++) eq &= s[i + j] == "--kokkos"[j]; user |= eq; } ekat::initialize_kokkos_session(2, v, false); expect(user, 2, v); cover(user ? "arguments" : "defaults"); }
VX_ENTRY(ks_seq) { reset(); bool on = false; int in = 0, fin = 0, K = param("K"); for (int i = 0; i < K; i++) switch (pick<int>(0, 4, "step")) {
    case 0: ekat::initialize_kokkos_session(false); if (!on) in++; on = true; break;
    case 1: { char a[] = "p"; char* v[1] = {a}; ekat::initialize_kokkos_session(1, v, false); if (!on) in++; on = true; break; }
    case 2: ekat::finalize_kokkos_session(); if (on) fin++; on = false; break;
    case 3: g_on = on = true; break;   // the application initialised Kokkos itself
    case 4: g_fin |= g_on; g_on = on = false; break; }
  check(g_on == on && g_inits == in && g_withArgs == 0 && g_finals == fin, "initialised once, finalised once"); cover("sequence"); }
