//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/rand,shim/team
//@ case entry=omp p.C=12
//@ case entry=omp p.C=40 tier=thorough
//@ case entry=count
//@ case entry=serial
//@ case entry=policy
//@ variant mimic -DEKAT_MIMIC_GPU
//@ case entry=policy variant=mimic
//@ variant release -DNDEBUG
//@ case entry=omp p.C=12 variant=release
//@ bounds thread pools of 1 to 12 (thorough 40) threads, every team size up to the pool's, every league size of at least 1, any pair of threads; counts and policies: pools of up to 2^20 threads
//@ stubs Kokkos' assignment of pool threads to teams (HostThreadTeamData::organize_team of Kokkos 3.7: floor(C/ts) teams of C/floor(C/ts) consecutive threads, of which the first ts take part; a team with fewer than ts threads is idle; without dynamic scheduling only the first league_size teams get work; compared once with the installed library for pools of 1 to 11 threads)
#include "vx_team.h"
#include "ekat_team_policy_utils.hpp"
using namespace ekat; using namespace vx; using O = Kokkos::OpenMP; using Pol = Kokkos::TeamPolicy<O>;
struct Org { int pools, alloc, team, rank; bool active; Org(int C, int ts, int t) { if (ts == 1) { pools = C; alloc = 1; team = t; rank = 0; active = true; return; } pools = C / ts; alloc = C / pools; team = t / alloc; rank = t % alloc; active = team * alloc + ts <= C && rank < ts; } };
VX_ENTRY(omp) { int C = pick<int>(1, param("C"), "pool"), ts = pick<int>(1, C, "team size"), L = range<int>(1, 1 << 28, "league"), t = range<int>(0, C - 1, "thread"), u = range<int>(0, C - 1, "thread"); g_concurrency = C; TeamUtils<double, O> tu0(Pol(L, ts)); TeamUtils<double, O> tu; tu = tu0; TeamUtils<float, O> tf(Pol(L, ts), 2.0); Org a(C, ts, t), b(C, ts, u); int n = tu.get_num_ws_slots();
  check(n >= 1 && n == tu.get_num_concurrent_teams() && n <= L && n <= C / ts, "number of slots"); check(tf.get_num_ws_slots() == n, "single precision makes no difference on the host"); check(tu.get_max_concurrent_threads() == C, "number of threads");
  if (!(a.active && a.team < L && b.active && b.team < L)) { cover("idle"); return; } TeamMember m{0, L, 0, ts, 1}; g_pool_rank[__vx_thread() & 15] = t; int i = tu.get_workspace_idx(m); g_pool_rank[__vx_thread() & 15] = u; int j = tu.get_workspace_idx(m); check(i >= 0 && i < n && j >= 0 && j < n, "the slot exists"); check((i == j) == (a.team == b.team), "threads share a slot exactly if they are in one team"); tu.release_workspace_idx(m, i); check(tf.get_workspace_idx(m) == j, "single precision makes no difference"); cover("active"); }
VX_ENTRY(count) { int C = range<int>(1, 1 << 20, "pool"), ts = 1 << pick<int>(0, 7, "log team size"), L = range<int>(1, 1 << 28, "league"); assume(ts <= C); g_concurrency = C; TeamUtils<double, O> tu(Pol(L, ts)); int n = tu.get_num_ws_slots(); check(n >= 1 && n <= L && (long)n * ts <= C, "slots fit the pool and the league"); check(n == L || (long)(n + 1) * ts > C, "no fewer slots than teams that can run"); cover("count"); }
VX_ENTRY(serial) { using S = Kokkos::Serial; struct P { int l, t; int league_size() const { return l; } int team_size() const { return t; } }; P p{range<int>(1, 1 << 28, "league"), 1}; TeamUtils<double, S> tu(p); TeamMember m{0, 1, 0, 1, 1}; check(tu.get_num_ws_slots() == 1 && tu.get_num_concurrent_teams() == 1 && tu.get_max_concurrent_threads() == 1 && tu.get_workspace_idx(m) == 0, "one thread, one slot"); tu.release_workspace_idx(m, 0);
#ifndef NDEBUG
  TeamUtils<double, S> none; int w = pick<int>(0, 2, "query"); check(throws([&] { if (w == 0) none.get_num_ws_slots(); else if (w == 1) none.get_num_concurrent_teams(); else none.get_max_concurrent_threads(); }), "use before initialisation is detected"); TeamUtils<double, O> no; check(throws([&] { no.get_num_ws_slots(); }), "use before initialisation is detected");
#endif
  cover("serial"); }
VX_ENTRY(policy) { int C = range<int>(1, 1 << 20, "pool"), L = range<int>(0, 1 << 28, "league"), nk = range<int>(0, 1 << 28, "size"), ts = range<int>(1, 1 << 20, "team size"); g_concurrency = C; using F = TeamPolicyFactory<O>; auto d = F::get_default_team_policy(L, nk); auto f = F::get_team_policy_force_team_size(L, ts); auto s = F::get_thread_range_parallel_scan_team_policy(L, nk);
  check(d.league_size() == L && f.league_size() == L && s.league_size() == L, "league as requested"); check(f.team_size() == ts, "team size as requested");
#ifdef EKAT_MIMIC_GPU
  int want = C < 7 ? C : 7;
#else
  int want = 1;
#endif
  check(d.team_size() == want && s.team_size() == want, "default team size of the host"); cover("policy"); }
