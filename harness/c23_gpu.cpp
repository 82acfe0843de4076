//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/rand,shim/team
//@ case entry=slots
//@ case entry=factor
//@ case entry=gpolicy
//@ case entry=lock sched=1 p.teams=2 p.ts=1 p.C=2 p.rounds=1 p.draws=3
//@ case entry=lock sched=1 p.teams=3 p.ts=1 p.C=4 p.rounds=1 p.draws=1
//@ case entry=lock sched=1 p.teams=3 p.ts=1 p.C=4 p.rounds=1 p.draws=3 tier=thorough
//@ case entry=lock sched=1 p.teams=2 p.ts=1 p.C=2 p.rounds=2 p.draws=3
//@ case entry=lock sched=1 p.teams=2 p.ts=2 p.C=4 p.rounds=2 p.draws=3
//@ case entry=lock sched=1 p.teams=3 p.ts=2 p.C=8 p.rounds=1 p.draws=3 tier=thorough
//@ case entry=lock sched=1 p.teams=3 p.ts=1 p.C=4 p.rounds=2 p.draws=3 tier=thorough
//@ bounds the code for devices, encoded as host code: counts for pools of up to 2^20 threads, leagues and factors 1 to 8; slot locks for 2 and 3 teams of 1 and 2 threads competing for 1 and 2 slots, one or two rounds, every interleaving of their atomic operations, every outcome of 1 to 3 draws per run
//@ outside memory ordering of real devices (sequentially consistent interleavings), termination (a team may draw forever), back ends other than this model
//@ stubs Kokkos teams and atomics (host model), random numbers (unrestricted)
#include <Kokkos_Macros.hpp>
#undef KOKKOS_INTERNAL_NOT_PARALLEL  // real atomics, not those of a serial build
#include "vx_team.h"
#undef KOKKOS_ENABLE_OPENMP
namespace Kokkos { using SYCL = OpenMP; }
#define KOKKOS_ENABLE_SYCL
#define EKAT_ENABLE_GPU
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(vx::sym<long>("clock"))); } } } }
#include "ekat_team_policy_utils.hpp"
#undef KOKKOS_ENABLE_SYCL
using namespace ekat; using namespace vx; using O = Kokkos::OpenMP; using Pol = Kokkos::TeamPolicy<O>;
template <class T> struct Base : TeamUtilsCommonBase<T, O> { Base(const Pol& p) : TeamUtilsCommonBase<T, O>(p) {} };
VX_ENTRY(slots) { int C = range<int>(2, 1 << 20, "pool"), ts = 1 << pick<int>(0, 7, "log team size"), L = range<int>(1, 1 << 20, "league"); bool sp = pick<int>(0, 1, "single precision"); assume(ts <= C / 2); g_concurrency = C; long cap = sp ? C : C / 2; int n, mx; if (sp) { Base<float> tu(Pol(L, ts)); n = tu.get_num_concurrent_teams(); mx = tu.get_max_concurrent_threads(); } else { Base<double> tu(Pol(L, ts)); n = tu.get_num_concurrent_teams(); mx = tu.get_max_concurrent_threads(); } check(mx == cap, "number of threads: twice as many for single precision"); check(n >= 1 && n <= L && (long)n * ts <= cap && (n == L || (long)(n + 1) * ts > cap), "as many teams as can run, not more than there are"); cover("teams"); }
VX_ENTRY(factor) { int C = 2 * pick<int>(1, 3, "pool"), ts = pick<int>(1, 2, "team size"), L = pick<int>(1, 4, "league"); assume(ts <= C / 2); g_concurrency = C; double f = sym<double>("factor"); assume(f >= 0 && f < 8); int w = 0, t = 0; bool bad = throws([&] { TeamUtils<double, O> tu(Pol(L, ts), f); w = tu.get_num_ws_slots(); t = tu.get_num_concurrent_teams(); TeamMember m{L - 1, L, 0, ts, 1}; if (w == L) check(tu.get_workspace_idx(m) == L - 1, "a slot for each team: nothing to lock"); }); check(bad == !(f >= 1), "a factor below one is rejected"); if (bad) { cover("rejected"); return; } check(w >= t && w <= L, "as many slots as teams that run at the same time, not more than teams"); if (L > t) check(w <= f * t && (w == L || w + 1 > f * t), "the factor provides the slots"); cover("factor"); }
VX_ENTRY(gpolicy) { int L = range<int>(0, 1 << 28, "league"), nk = range<int>(1, 1 << 28, "size"), ts = range<int>(1, 1024, "team size"); using F = TeamPolicyFactory<O>; auto d = F::get_default_team_policy(L, nk); int t = d.team_size(); check(d.league_size() == L && t % 32 == 0 && t >= 32 && t <= 128 && (t == 128 || (t >= nk && t - nk < 32)), "default team: whole warps that hold the range, at most four"); check(F::get_team_policy_force_team_size(L, ts).team_size() == ts, "team size as requested"); int r = range<int>(1, 1 << 28, "request"); auto s = F::get_thread_range_parallel_scan_team_policy(L, r); int q = s.team_size(); check(s.league_size() == L && (q == 32 || q == 64 || q == 128), "scan: power of two"); check(q == 32 || q <= r, "scan: not more than requested"); check(q == 128 || 2 * q > r, "scan: the largest such"); cover("policy"); }
static TeamUtils<double, O>* g_tu; static int g_own[4], g_n, g_rounds; static volatile int g_dummy;
VX_ENTRY(lock) { int teams = param("teams"), ts = param("ts"); g_rounds = param("rounds"); g_concurrency = param("C"); __vx_lock_mode(1); Kokkos::vxr::g_draws = 0; Kokkos::vxr::g_max_draws = param("draws"); static TeamUtils<double, O> tu; tu = TeamUtils<double, O>(Pol(teams, ts)); g_tu = &tu; g_n = tu.get_num_ws_slots(); check(g_n == (int)param("C") / 2 / ts || g_n == teams, "number of slots"); for (auto& o : g_own) o = -1;
  run_teams(teams, ts, [](const TeamMember& m) { for (int r = 0; r < g_rounds; r++) { int i = g_tu->get_workspace_idx(m); check(i >= 0 && i < g_n, "the slot exists"); if (m.tr == 0) { check(g_own[i] == -1, "the slot is not in use by another team"); g_own[i] = m.lr; } m.team_barrier(); check(g_own[i] == m.lr, "all threads of the team use the same slot"); if (m.tr == 0) __sync_fetch_and_add((int*)&g_dummy, 1); check(g_own[i] == m.lr, "the slot stays the team's until released"); m.team_barrier(); if (m.tr == 0) g_own[i] = -1; g_tu->release_workspace_idx(m, i); } }, teams, 0); cover("lock"); }
