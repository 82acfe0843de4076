//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=ser
//@ case entry=serpack p.N=2
//@ case entry=serpack p.N=4
//@ case entry=serpack p.N=8
//@ case entry=par p.ts=1
//@ case entry=par p.ts=2 sched=1
//@ case entry=par p.ts=3 tier=thorough sched=1
//@ case entry=parpack p.N=1 p.ts=1
//@ case entry=parpack p.N=2 p.ts=1
//@ case entry=parpack p.N=4 p.ts=1
//@ case entry=parpack p.N=8 p.ts=1
//@ case entry=parpack p.N=4 p.ts=2 sched=1
//@ case entry=parpack p.N=2 p.ts=3 tier=thorough sched=1
//@ case entry=parreal p.N=4 fp=real
//@ case entry=parreal p.N=2 fp=real
//@ case entry=lambda p.ts=1
//@ case entry=lambda p.ts=2 sched=1
//@ bounds every range [begin,end) within 9 scalars or 13 packed scalars (16 for length 8); pack lengths 1, 2, 4, 8; teams of 1 to 3 threads with round-robin and block distribution of the iterations; entries unrestricted (double bit-exact when serialized, 32-bit integers and reals otherwise)
//@ outside the rounding of the non-serialized sum (its order is up to Kokkos)
//@ stubs Kokkos team reduction: partial sums of the threads joined in rank order
#include "vx_team.h"
#include "ekat_reduction_utils.hpp"
#include "ekat_pack_kokkos.hpp"
using namespace ekat; using namespace vx;
static bool bits(double a, double b) { return sameBits(a, b); }
static int B, E; static void rng(int n) { B = pick<int>(0, n, "begin"); E = pick<int>(0, n, "end"); assume(B <= E); }
static bool g_same(double a, double b) { return bits(a, b) || (a != a && b != b); }
VX_ENTRY(ser) { double d[9]; symArray(d, 9, "d"); rng(9); double ref = 0; for (int k = B; k < E; k++) ref += d[k]; Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(d, 9); int ts = pick<int>(1, 2, "team size"); TeamMember m{0, 1, ts - 1, ts, 7};
  check(g_same(ReductionUtils<Kokkos::OpenMP, true>::view_reduction(m, B, E, v), ref), "serialized sum adds the entries in order"); check(g_same(ReductionUtils<Kokkos::OpenMP>::view_reduction(m, B, E, v), ref), "serialized is the default of a BFB build"); auto f = [&](int k) { return d[k]; }; check(g_same(ReductionUtils<Kokkos::OpenMP, true>::view_reduction(m, B, E, f), ref), "sum of a function"); cover("ser"); }
template <int N> void serp() { constexpr int P = N == 8 ? 2 : (13 + N - 1) / N; Pack<double, N> d[P]; double flat[P * N]; symArray(flat, P * N, "d"); for (int i = 0; i < P * N; i++) d[i / N][i % N] = flat[i]; rng(N == 8 ? 16 : 13); double ref = 0; for (int k = B; k < E; k++) ref += flat[k]; Kokkos::View<Pack<double, N>*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(d, P); TeamMember m{0, 1, 0, 1, 7}; check(g_same(ReductionUtils<Kokkos::OpenMP, true>::view_reduction(m, B, E, v), ref), "serialized packed sum adds the entries in order"); auto f = [&](int k) { return d[k]; }; check(g_same(ReductionUtils<Kokkos::OpenMP>::view_reduction(m, B, E, f), ref), "sum of a function returning packs"); cover("serpack"); }
VX_ENTRY(serpack) { switch (param("N")) { case 2: return serp<2>(); case 4: return serp<4>(); default: return serp<8>(); } }
VX_ENTRY(par) { int ts = param("ts"); static int d[9]; symArray(d, 9, "d"); rng(ts == 1 ? 9 : 5); if (ts > 1) g_iter_map = pick<int>(0, 1, "distribution"); int ref = 0; for (int k = B; k < E; k++) ref += d[k]; Kokkos::View<int*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(d, 9); run_teams(1, ts, [&](const TeamMember& m) { int r = ReductionUtils<Kokkos::OpenMP, false>::view_reduction(m, B, E, v); check(r == ref, "sum of exactly the entries in the range, on every thread"); int s = ReductionUtils<Kokkos::OpenMP, true>::view_reduction(m, B, E, v); check(s == ref, "serialized sum on every thread"); }); cover("par"); }
template <int N> void parp(int ts) { constexpr int P = N == 8 ? 2 : (13 + N - 1) / N; static Pack<int, N> d[P]; static int flat[P * N]; symArray(flat, P * N, "d"); for (int i = 0; i < P * N; i++) d[i / N][i % N] = flat[i]; rng(N == 8 ? 16 : 13); if (ts > 1) { assume(B < N); g_iter_map = pick<int>(0, 1, "distribution"); } int ref = 0; for (int k = B; k < E; k++) ref += flat[k]; Kokkos::View<Pack<int, N>*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(d, P);
  run_teams(1, ts, [&](const TeamMember& m) { int r = ReductionUtils<Kokkos::OpenMP, false>::view_reduction(m, B, E, v); check(r == ref, "packed sum of exactly the entries in the range, on every thread"); }); cover("parpack"); }
VX_ENTRY(parpack) { int ts = param("ts"); switch (param("N")) { case 1: return parp<1>(ts); case 2: return parp<2>(ts); case 4: return parp<4>(ts); default: return parp<8>(ts); } }
template <int N> void parr() { constexpr int P = (13 + N - 1) / N; Pack<double, N> d[P]; double flat[P * N]; symArray(flat, P * N, "d"); for (int i = 0; i < P * N; i++) d[i / N][i % N] = flat[i]; rng(13); double ref = 0; for (int k = B; k < E; k++) ref += flat[k]; auto f = [&](int k) { return d[k]; }; TeamMember m{0, 1, 0, 1, 7}; double r = ReductionUtils<Kokkos::OpenMP, false>::view_reduction(m, B, E, f); check(r == ref, "packed sum of exactly the entries in the range"); cover("parreal"); }
VX_ENTRY(parreal) { param("N") == 2 ? parr<2>() : parr<4>(); }
VX_ENTRY(lambda) { int ts = param("ts"); static int seen[2][6]; rng(ts == 1 ? 6 : 4); static int c; c = sym<int>("c"); int ref = 0; for (int k = B; k < E; k++) ref += k * 3 + c;
  run_teams(1, ts, [&](const TeamMember& m) { int last = -1; bool ord = true; int mine[6] = {}; int r = ReductionUtils<Kokkos::OpenMP, true>::parallel_reduce<int>(m, B, E, [&](int k, int& acc) { ord = ord && k > last; last = k; mine[k]++; acc += k * 3 + c; }); check(r == ref && ord, "serialized: applied in increasing order"); for (int k = 0; k < 6; k++) check(mine[k] == (k >= B && k < E), "serialized: applied once per index on every thread");
    int r2 = ReductionUtils<Kokkos::OpenMP, false>::parallel_reduce<int>(m, B, E, [&](int k, int& acc) { seen[m.tr][k]++; acc += k * 3 + c; }); check(r2 == ref, "team reduction over the range"); m.team_barrier(); if (m.tr == 0) for (int k = 0; k < 6; k++) check(seen[0][k] + seen[1][k] == (k >= B && k < E), "team reduction: applied once per index by the team"); });
  cover("lambda"); }
