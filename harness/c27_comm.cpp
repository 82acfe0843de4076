//@ build src=src/core/ekat_comm.cpp def=EKAT_ENABLE_MPI,EKAT_MPI_ERRORS_ARE_FATAL inc=shim/mpi
//@ case entry=coll p.P=3 p.t=0
//@ case entry=coll p.P=3 p.t=1
//@ case entry=coll p.P=2 p.t=2
//@ case entry=coll p.P=3 p.t=3
//@ case entry=coll p.P=2 p.t=4
//@ case entry=coll p.P=2 p.t=5 fp=uf
//@ case entry=coll p.P=3 p.t=6 fp=uf
//@ case entry=coll p.P=1 p.t=6 fp=uf
//@ case entry=coll p.P=3 p.t=7
//@ case entry=coll p.P=4 p.t=2 tier=thorough
//@ case entry=coll p.P=4 p.t=6 tier=thorough fp=uf
//@ case entry=split p.P=3
//@ case entry=split p.P=4 tier=thorough
//@ case entry=basic
//@ variant ret -UEKAT_MPI_ERRORS_ARE_FATAL -DVX_RET
//@ case entry=basic variant=ret
//@ variant release -DNDEBUG
//@ case entry=basic variant=release
//@ bounds 1 to 3 (thorough 4) ranks; arrays of 0 to 3 entries; char, short, int, long, long long, float, double, bool; all roots; sum, min, max and logical reductions, in place and not; unrestricted values; every split of the ranks, by any nonnegative colors
//@ stubs MPI (a model of the collectives after the standard; the ranks are threads that meet in every collective)
#include "ekat_comm.hpp"
#include <stdexcept>
using namespace vx; using ekat::Comm;
static int g_n, g_root, g_op; template <class T> struct Mem { T in[4][3], red[4][4], gath[4][13], sc[4][4], bc[4][4], ip[4][4], isc[4][4], ig[4][13]; }; alignas(8) static char g_raw[sizeof(Mem<double>)]; template <class T> static Mem<T>& M() { return *(Mem<T>*)g_raw; }
template <class T> static T join(T a, T b, int op) { switch (op) { case MPI_MAX: return a < b ? b : a; case MPI_MIN: return b < a ? b : a; case MPI_SUM: return (T)(a + b); case MPI_LAND: return (T)(a && b); default: return (T)(a || b); } }
template <class T> static bool same(T a, T b) { return sameBits(a, b); }
template <class T> static void rank_(void* a) { auto& m = M<T>(); Comm c(MPI_COMM_WORLD); int r = c.rank(); check(r == (int)(long)a && c.size() == mpim::P, "rank and size"); check(c.am_i_root() == (r == 0), "root"); int n = g_n;
  for (int i = 0; i < n; i++) m.bc[r][i] = m.ip[r][i] = m.isc[r][i] = m.ig[r][r * n + i] = m.in[r][i];
  c.broadcast(m.bc[r], n, g_root); c.all_reduce((const T*)m.in[r], m.red[r], n, g_op); c.barrier(); c.all_reduce(m.ip[r], n, g_op); c.scan((const T*)m.in[r], m.sc[r], n, g_op); c.scan(m.isc[r], n, g_op); c.all_gather((const T*)m.in[r], m.gath[r], n); c.all_gather(m.ig[r], n);
}
template <class T> static void go() { auto& m = M<T>(); int P = param("P"), n = pick<int>(0, 3, "count"); mpim::reset(P); g_n = n; g_root = pick<int>(0, P - 1, "root"); bool b = std::is_same<T, bool>::value; int o = pick<int>(b ? 3 : 0, 4, "op"); g_op = o == 0 ? MPI_SUM : o == 1 ? MPI_MAX : o == 2 ? MPI_MIN : o == 3 ? MPI_LAND : MPI_LOR;
  T mark = (T)1; for (int r = 0; r < P; r++) { for (int i = 0; i < n; i++) { if (b) { m.in[r][i] = (T)(sym<unsigned char>("v") & 1); } else m.in[r][i] = sym<T>("v"); if (std::is_floating_point<T>::value) assume(m.in[r][i] == m.in[r][i]); } m.red[r][n] = m.sc[r][n] = m.bc[r][n] = m.ip[r][n] = m.isc[r][n] = mark; m.gath[r][P * n] = m.ig[r][P * n] = mark; }
  if (P == 1) rank_<T>((void*)0); else { for (long r = 0; r < P; r++) __vx_spawn(&rank_<T>, (void*)r, 0); __vx_join_all(); }
  for (int r = 0; r < P; r++) { for (int i = 0; i < n; i++) { check(same(m.bc[r][i], m.in[g_root][i]), "broadcast delivers the root's values"); T s = m.in[0][i]; for (int k = 1; k <= r; k++) s = join(s, m.in[k][i], g_op); check(same(m.sc[r][i], s) && same(m.isc[r][i], s), "scan combines the values of the ranks up to the own one"); for (int k = r + 1; k < P; k++) s = join(s, m.in[k][i], g_op); check(same(m.red[r][i], s) && same(m.ip[r][i], s), "reduction combines the values of all ranks"); for (int k = 0; k < P; k++) check(same(m.gath[r][k * n + i], m.in[k][i]) && same(m.ig[r][k * n + i], m.in[k][i]), "gather lines up the values by rank"); } check(same(m.red[r][n], mark) && same(m.sc[r][n], mark) && same(m.bc[r][n], mark) && same(m.ip[r][n], mark) && same(m.isc[r][n], mark) && same(m.gath[r][P * n], mark) && same(m.ig[r][P * n], mark), "nothing written past the results"); }
  cover("collectives"); }
VX_ENTRY(coll) { switch (param("t")) { case 0: return go<char>(); case 1: return go<short>(); case 2: return go<int>(); case 3: return go<long>(); case 4: return go<long long>(); case 5: return go<float>(); case 6: return go<double>(); default: return go<bool>(); } }
static int g_col[4], g_in[4], g_sum[4], g_rk[4], g_sz[4], g_world[4]; static void srank(void* a) { int w = (long)a; Comm c(MPI_COMM_WORLD); Comm s = c.split(g_col[w]); g_rk[w] = s.rank(); g_sz[w] = s.size(); s.all_reduce(&g_in[w], &g_sum[w], 1, MPI_SUM); g_world[w] = g_in[w]; c.all_reduce(&g_world[w], 1, MPI_SUM); check(c.rank() == w && c.size() == mpim::P, "the split leaves the communicator alone"); check(s.am_i_root() == (s.rank() == 0), "root"); }
VX_ENTRY(split) { int P = param("P"); mpim::reset(P); for (int r = 0; r < P; r++) { g_col[r] = sym<int>("color"); assume(g_col[r] >= 0); g_in[r] = sym<int>("v"); } for (long r = 0; r < P; r++) __vx_spawn(&srank, (void*)r, 0); __vx_join_all(); unsigned all = 0; for (int r = 0; r < P; r++) all += g_in[r];
  for (int r = 0; r < P; r++) { int n = 0, before = 0; unsigned s = 0; for (int k = 0; k < P; k++) if (g_col[k] == g_col[r]) { n++; before += k < r; s += g_in[k]; } check(g_sz[r] == n, "size of the part"); check(g_rk[r] == before, "ranks of the part keep their order"); check((unsigned)g_sum[r] == s, "collectives stay within the part"); check((unsigned)g_world[r] == all, "the whole is still there"); } cover("split"); }
VX_ENTRY(basic) { mpim::reset(1); Comm d; check(d.rank() == 0 && d.size() == 1 && d.mpi_comm() == MPI_COMM_SELF && d.am_i_root() && d.root_rank() == 0, "default communicator"); int eh =
#ifdef VX_RET
    MPI_ERRORS_RETURN;
#else
    MPI_ERRORS_ARE_FATAL;
#endif
  check(mpim::comms[0][MPI_COMM_SELF].eh == eh, "error handler as configured"); d.reset_mpi_comm(MPI_COMM_WORLD); check(d.mpi_comm() == MPI_COMM_WORLD && mpim::comms[0][MPI_COMM_WORLD].eh == eh, "reset"); check(throws([&] { d.reset_mpi_comm(MPI_COMM_NULL); }), "null communicator"); check(d.mpi_comm() == MPI_COMM_WORLD, "unchanged by the failure"); check(throws([&] { Comm c(MPI_COMM_NULL); }), "null communicator");
  int i = sym<int>("x"); Comm e = d; e.broadcast(&i, 1, 0); check(e.size() == 1 && e.mpi_comm() == d.mpi_comm(), "copy");
#ifndef NDEBUG
  if (pick<int>(0, 1, "uninit")) { mpim::inited = false; __vx_expect_abort(1); Comm c; check(false, "MPI used before it is initialised"); }
#endif
  cover("basic"); }
