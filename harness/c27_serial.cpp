//@ build src=src/core/ekat_comm_serial.cpp
//@ case entry=serial
#include "ekat_comm.hpp"
using namespace vx; using ekat::Comm;
template <class T> static bool same(const T* a, const T* b, int n) { bool r = true; for (int i = 0; i < n; i++) r &= sameBits(a[i], b[i]); return r; }
template <class T> static void go(MPI_Datatype dt) { int n = pick<int>(0, 3, "count"); T in[4], x[4], z[4]; for (auto& v : in) { if (std::is_same<T, double>::value) { long l = sym<long>("v"); memcpy(&v, &l, sizeof v); } else v = sym<T>("v"); } int op = pick<int>(MPI_MAX, MPI_LOR, "op"); Comm c(MPI_COMM_WORLD); auto init = [&](T* p) { for (int i = 0; i < 4; i++) p[i] = in[i]; }; init(x); c.broadcast(x, n, 0); check(same(x, in, 4), "broadcast keeps the values"); c.all_reduce(x, n, (MPI_Op)op); c.scan(x, n, (MPI_Op)op); c.all_gather(x, n); check(same(x, in, 4), "in place: the own values");
  for (int k = 0; k < 3; k++) { T mark = (T)7; for (auto& v : z) v = mark; if (k == 0) c.all_reduce((const T*)in, z, n, (MPI_Op)op); else if (k == 1) c.scan((const T*)in, z, n, (MPI_Op)op); else c.all_gather((const T*)in, z, n); check(same(z, in, n), "the result is the own contribution"); for (int i = n; i < 4; i++) check(same(z + i, &mark, 1), "nothing written past the result"); } check(ekat::get_mpi_type<T>() == dt, "type tag"); cover("serial"); }
VX_ENTRY(serial) { switch (pick<int>(0, 3, "type")) { case 0: go<int>(MPI_INT); break; case 1: go<double>(MPI_DOUBLE); break; case 2: go<char>(MPI_CHAR); break; default: go<long>(MPI_LONG); } Comm d; check(d.rank() == 0 && d.size() == 1 && d.am_i_root() && d.mpi_comm() == MPI_COMM_SELF, "one process"); Comm w(MPI_COMM_WORLD); check(w.mpi_comm() == MPI_COMM_WORLD, "wraps the given communicator"); Comm s = d.split(sym<int>("color")); check(s.rank() == 0 && s.size() == 1 && s.am_i_root(), "split"); d.barrier(); d.reset_mpi_comm(MPI_COMM_WORLD); check(d.rank() == 0 && d.size() == 1, "reset"); check(d.mpi_comm() == MPI_COMM_WORLD, "reset stores the new communicator"); }
