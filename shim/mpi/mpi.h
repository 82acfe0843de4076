// A model of the MPI calls EKAT makes. Every rank is a thread of the symbolic executor; collectives follow
// the MPI standard on the memory of the ranks. Calls outside the rules of MPI are reported as violations.
#pragma once
#include <cstring>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Errhandler;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2 };
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR, MPI_SHORT, MPI_INT, MPI_LONG, MPI_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_CXX_BOOL, MPI_2INT, MPI_UNSIGNED, MPI_BYTE, MPI_UNSIGNED_SHORT, MPI_UNSIGNED_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG_LONG, MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_C_BOOL };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_OP_NULL = 0, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR };
enum { MPI_ERRHANDLER_NULL = 0, MPI_ERRORS_ARE_FATAL, MPI_ERRORS_RETURN };
enum { MPI_SUCCESS = 0, MPI_UNDEFINED = -32766 };
#define MPI_IN_PLACE ((void*)1)
namespace mpim {
constexpr int MAXP = 4;
inline int P = 1; inline bool inited = true, finalized = false; inline int inits, finals, barriers;
inline int log_[MAXP][16], nlog[MAXP];
struct Comm { int n, m[MAXP], tag, eh; }; inline Comm comms[MAXP][8]; inline int ncomms[MAXP];
inline int me() { int t = __vx_thread(); return t < 0 ? 0 : t; }
inline void reset(int p) { P = p; inited = true; finalized = false; inits = finals = barriers = 0; for (int r = 0; r < MAXP; r++) { ncomms[r] = 3; nlog[r] = 0; comms[r][1] = {p, {0, 1, 2, 3}, 1, 0}; comms[r][2] = {1, {r}, 2, 0}; } }
inline Comm& of(MPI_Comm c) { int r = me(); __vx_assert(inited && !finalized, "MPI used outside MPI_Init and MPI_Finalize"); __vx_assert(c > 0 && c < ncomms[r], "invalid communicator"); return comms[r][c]; }
inline size_t size(MPI_Datatype t) { switch (t) { case MPI_CHAR: case MPI_CXX_BOOL: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: case MPI_C_BOOL: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: return 2; case MPI_INT32_T: case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; case MPI_LONG: case MPI_LONG_LONG: case MPI_DOUBLE: case MPI_2INT: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_INT64_T: return 8; } __vx_assert(0, "invalid datatype"); return 0; }
template <class T> inline void app(void* a, const void* b, MPI_Op op) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); T r = x; switch (op) { case MPI_MAX: r = x < y ? y : x; break; case MPI_MIN: r = y < x ? y : x; break; case MPI_SUM: r = (T)(x + y); break; case MPI_PROD: r = (T)(x * y); break; case MPI_LAND: r = (T)(x && y); break; case MPI_LOR: r = (T)(x || y); break; case MPI_LXOR: r = (T)(!x != !y); break; default: __vx_assert(0, "invalid reduction"); } memcpy(a, &r, sizeof r); }
template <> inline void app<bool>(void* a, const void* b, MPI_Op op) { bool x = *(bool*)a, y = *(const bool*)b; __vx_assert(op == MPI_LAND || op == MPI_LOR || op == MPI_LXOR, "reduction not defined for bool"); *(bool*)a = op == MPI_LAND ? x && y : op == MPI_LOR ? x || y : x != y; }
inline void apply(void* a, const void* b, MPI_Datatype t, MPI_Op op) { switch (t) { case MPI_CHAR: app<char>(a, b, op); return; case MPI_SHORT: app<short>(a, b, op); return; case MPI_INT: app<int>(a, b, op); return; case MPI_LONG: app<long>(a, b, op); return; case MPI_LONG_LONG: app<long long>(a, b, op); return; case MPI_FLOAT: app<float>(a, b, op); return; case MPI_DOUBLE: app<double>(a, b, op); return; case MPI_CXX_BOOL: case MPI_C_BOOL: app<bool>(a, b, op); return; case MPI_UNSIGNED: app<unsigned>(a, b, op); return; case MPI_UNSIGNED_SHORT: app<unsigned short>(a, b, op); return; case MPI_UNSIGNED_CHAR: app<unsigned char>(a, b, op); return; case MPI_SIGNED_CHAR: case MPI_INT8_T: app<signed char>(a, b, op); return; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: app<unsigned long>(a, b, op); return; case MPI_INT16_T: app<short>(a, b, op); return; case MPI_INT32_T: app<int>(a, b, op); return; case MPI_INT64_T: app<long>(a, b, op); return; } __vx_assert(0, "datatype does not fit the reduction"); }
struct Call { int kind, comm, count, type, op, root; const void* s; void* r; }; inline Call call[MAXP];
inline char buf[MAXP][64];
inline void sync() { if (P > 1) __vx_barrier(77); }
inline int myrank(Comm& c) { for (int i = 0; i < c.n; i++) if (c.m[i] == me()) return i; __vx_assert(0, "not a member of the communicator"); return -1; }
// everybody enters, contributions are copied out, results formed from the members of the own communicator
inline int coll(int kind, MPI_Comm cm, int count, MPI_Datatype t, MPI_Op op, int root, const void* s, void* r) {
  Comm& c = of(cm); int rk = myrank(c); int w = me(); size_t sz = kind == 9 ? 0 : size(t), n = sz * count; __vx_assert(count >= 0 && n <= sizeof buf[0], "invalid count"); bool ip = s == MPI_IN_PLACE; call[w] = {kind, c.tag, count, t, op, root, s, r};
  const char* src = (const char*)(ip ? (kind == 3 ? (const char*)r + rk * n : r) : s); if (kind == 0 ? rk == root : kind != 9) for (size_t i = 0; i < n; i++) buf[w][i] = src[i];
  if (kind != 9 && !ip && kind != 0) { const char *a = (const char*)s, *b = (const char*)r; size_t rn = kind == 3 ? n * c.n : n; __vx_assert(a + n <= b || b + rn <= a, "send and receive buffers overlap"); }
  sync();
  for (int i = 0; i < c.n; i++) { Call& o = call[c.m[i]]; __vx_assert(o.kind == kind && o.comm == c.tag && o.count == count && (kind == 9 || o.type == t) && o.op == op && o.root == root, "ranks call different collectives"); }
  char* out = (char*)r;
  if (kind == 0) { __vx_assert(root >= 0 && root < c.n, "invalid root"); if (rk != root) memcpy(out, buf[c.m[root]], n); }
  if (kind == 1 || kind == 2) { int last = kind == 2 ? rk : c.n - 1; for (int k = 0; k < count; k++) { char acc[8]; memcpy(acc, buf[c.m[0]] + k * sz, sz); for (int i = 1; i <= last; i++) apply(acc, buf[c.m[i]] + k * sz, t, op); memcpy(out + k * sz, acc, sz); } }
  if (kind == 3) for (int i = 0; i < c.n; i++) memcpy(out + i * n, buf[c.m[i]], n);
  sync(); return 0; }
}
inline int MPI_Init(int*, char***) { __vx_assert(mpim::inits++ == 0, "MPI initialised twice"); mpim::inited = true; return 0; }
inline int MPI_Initialized(int* f) { *f = mpim::inited; return 0; }
inline int MPI_Finalized(int* f) { *f = mpim::finalized; return 0; }
inline int MPI_Finalize() { __vx_assert(mpim::finals++ == 0, "MPI finalised twice"); mpim::finalized = true; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int* n) { *n = mpim::of(c).n; return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int* r) { *r = mpim::myrank(mpim::of(c)); return 0; }
inline int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { mpim::of(c).eh = e; return 0; }
inline int MPI_Barrier(MPI_Comm c) { if (mpim::P == 1) mpim::barriers++; return mpim::coll(9, c, 0, 0, 0, 0, nullptr, nullptr); }
inline int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { return mpim::coll(0, c, n, t, 0, root, b, b); }
inline int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return mpim::coll(1, c, n, t, op, 0, s, r); }
inline int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return mpim::coll(2, c, n, t, op, 0, s, r); }
inline int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { if (s != MPI_IN_PLACE) __vx_assert(sn * mpim::size(st) == rn * mpim::size(rt), "sizes of the contributions differ"); return mpim::coll(3, c, rn, rt, 0, 0, s, r); }
inline int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  using namespace mpim; Comm& o = of(c); int w = me(); static int col[MAXP], ky[MAXP]; col[w] = color; ky[w] = key; __vx_assert(color >= 0 || color == MPI_UNDEFINED, "invalid color"); sync();
  Comm nc; nc.n = 0; nc.eh = o.eh; nc.tag = o.tag * 16 + ncomms[w] * 4 + 100; for (int i = 0; i < o.n; i++) if (col[o.m[i]] == color) { int j = nc.n++; while (j > 0 && ky[nc.m[j - 1]] > ky[o.m[i]]) { nc.m[j] = nc.m[j - 1]; j--; } nc.m[j] = o.m[i]; }
  if (color == MPI_UNDEFINED) *out = MPI_COMM_NULL; else { comms[w][ncomms[w]] = nc; *out = ncomms[w]++; } sync(); return 0; }
