//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ case entry=team fp=uf p.alg=1 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=2 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=3 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=4 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=5 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=6 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=7 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=8 p.n=9 p.m=5 p.ts=8
//@ case entry=team fp=uf p.alg=9 p.n=9 p.m=5 p.ts=8
//@ case entry=packs fp=uf p.n=4
//@ case entry=packs fp=uf p.n=6
//@ case entry=team fp=uf p.alg=1 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=2 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=3 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=4 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=5 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=6 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=7 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=8 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=team fp=uf p.alg=9 p.n=18 p.m=9 p.ts=12 tier=thorough
//@ case entry=packs fp=uf p.n=9 tier=thorough
//@ bounds every matrix and right hand side, arithmetic operations as uninterpreted functions (so equality holds for any rounding); 1 to 9 (thorough 18) rows, up to 5 (9) right hand sides, teams of 1 to 8 (12) threads, two distributions of columns over threads; packs of 2
//@ outside compiler transformations of floating-point code, other devices, vector lanes
//@ stubs Kokkos teams (host model with race detection)
#include "vx_team.h"
#include "ekat_pack.hpp"
#include "ekat_tridiag.hpp"
#include "tridiag.inc"
static bool bits(double a, double b) { return sameNum(a, b); }
static double* fill(double* p, int n, const char* w) { symArray(p, n, w); return p; }
// every column solved alone by one thread, with other values in the entries outside the matrix
static void alone(int alg, int n, int na, int m, const double (*A)[200], const double* B, double* R, bool garbage) {
  for (int j = 0; j < m; j++) { double *M[3], *x = new double[n]; for (auto& q : M) q = new double[n]; int c = na == 1 ? 0 : j; for (int i = 0; i < n; i++) { for (int k = 0; k < 3; k++) M[k][i] = A[k][i * na + c]; x[i] = B[i * m + j]; } if (garbage) { M[0][0] = sym<double>("unused"); M[2][n - 1] = sym<double>("unused"); } run<double, double>(alg, 1, W2<double>(M[0], n, 1), W2<double>(M[1], n, 1), W2<double>(M[2], n, 1), W2<double>(x, n, 1)); for (int i = 0; i < n; i++) R[i * m + j] = x[i]; } }
VX_ENTRY(team) { int alg = param("alg"), n = pick<int>(1, param("n"), "rows"), m = onerhs(alg) ? 1 : pick<int>(1, param("m"), "right hand sides"), ts = alg < TEAM1M ? 1 : pick<int>(1, param("ts"), "team size"), na = many(alg) ? m : 1; static double A[3][200], B[200], R[200], M[4][202]; for (int k = 0; k < 3; k++) fill(A[k], n * na, "A"); fill(B, n * m, "b"); alone(alg, n, na, m, A, B, R, true);
  for (int k = 0; k < 4; k++) { int z = n * (k == 3 ? m : na); M[k][0] = M[k][z + 1] = 77; for (int e = 0; e < z; e++) M[k][e + 1] = k == 3 ? B[e] : A[k][e]; }
  g_iter_map = pick<int>(0, 1, "distribution"); run<double, double>(alg, ts, W2<double>(M[0] + 1, n, na), W2<double>(M[1] + 1, n, na), W2<double>(M[2] + 1, n, na), W2<double>(M[3] + 1, n, m));
  for (int e = 0; e < n * m; e++) check(bits(M[3][e + 1], R[e]), "same bits as each column solved alone by one thread"); for (int k = 0; k < 4; k++) check(M[k][0] == 77 && M[k][n * (k == 3 ? m : na) + 1] == 77, "nothing is written outside the arrays"); cover("team"); }
VX_ENTRY(packs) { using P = Pack<double, 2>; int n = param("n"), alg = pick<int>(0, NALG - 1, "algorithm"), mp = onerhs(alg) ? 1 : 2, m = 2 * mp, ts = alg < TEAM1M ? 1 : pick<int>(1, 2, "team size"); bool pa = pick<int>(0, 1, "packed matrix") || many(alg); if (pa && (!many(alg) && !onerhs(alg))) return; int na = pa ? m : 1; static double A[3][200], B[200], R[200]; for (int k = 0; k < 3; k++) fill(A[k], n * na, "A"); fill(B, n * m, "b"); alone(alg, n, na, m, A, B, R, false); P* X = (P*)B;
  if (pa) { int q = na / 2; run<P, P>(alg, ts, W2<P>((P*)A[0], n, q), W2<P>((P*)A[1], n, q), W2<P>((P*)A[2], n, q), W2<P>(X, n, mp)); } else run<double, P>(alg, ts, W2<double>(A[0], n, 1), W2<double>(A[1], n, 1), W2<double>(A[2], n, 1), W2<P>(X, n, mp)); for (int e = 0; e < n * m; e++) check(bits(B[e], R[e]), "packs solve what their slots solve"); cover("packs"); }
