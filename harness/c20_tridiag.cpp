//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB inc=shim/team
//@ variant packs -DVX_PACKS
//@ case entry=solve fp=real p.alg=0 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=1 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=2 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=3 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=4 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=5 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=6 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=7 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=8 p.n=6 p.m=3 p.ts=4
//@ case entry=solve fp=real p.alg=9 p.n=6 p.m=3 p.ts=4
//@ case entry=matrix fp=real p.alg=0 p.n=4 p.m=2 p.ts=3 p.all=1
//@ case entry=matrix fp=real p.alg=1 p.n=3 p.m=2 p.ts=1 p.all=1
//@ case entry=matrix fp=real p.alg=2 p.n=3 p.m=2 p.ts=1 p.all=1
//@ case entry=matrix fp=real p.alg=3 p.n=4 p.m=2 p.ts=3 p.all=1
//@ case entry=matrix fp=real p.alg=4 p.n=4 p.m=2 p.ts=3 p.all=1
//@ case entry=matrix fp=real p.alg=5 p.n=3 p.m=2 p.ts=3 p.all=1
//@ case entry=matrix fp=real p.alg=6 p.n=3 p.m=2 p.ts=3 p.all=1
//@ case entry=matrix fp=real p.alg=8 p.n=4 p.m=2 p.ts=3 p.all=1
//@ case entry=matrix fp=real p.alg=0 p.n=5 p.m=2 p.ts=2 p.all=0
//@ case entry=matrix fp=real p.alg=4 p.n=5 p.m=2 p.ts=2 p.all=0
//@ case entry=matrix fp=real p.alg=5 p.n=5 p.m=2 p.ts=2 p.all=0
//@ case entry=matrix fp=real p.alg=6 p.n=5 p.m=2 p.ts=2 p.all=0
//@ case entry=matrix fp=real p.alg=9 p.n=5 p.m=2 p.ts=2 p.all=0
//@ case entry=packs fp=real variant=packs p.types=0
//@ case entry=packs fp=real variant=packs p.types=1
//@ case entry=packs fp=real variant=packs p.types=2
//@ case entry=solve fp=real p.alg=0 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=1 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=2 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=3 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=4 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=5 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=6 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=7 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=8 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=solve fp=real p.alg=9 p.n=12 p.m=5 p.ts=8 tier=thorough
//@ case entry=matrix fp=real p.alg=1 p.n=5 p.m=3 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=2 p.n=5 p.m=3 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=5 p.n=4 p.m=3 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=6 p.n=4 p.m=3 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=7 p.n=5 p.m=3 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=9 p.n=5 p.m=3 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=0 p.n=5 p.m=2 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=3 p.n=5 p.m=2 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=8 p.n=5 p.m=2 p.ts=3 p.all=1 tier=thorough
//@ case entry=matrix fp=real p.alg=0 p.n=9 p.m=2 p.ts=3 p.all=0 tier=thorough
//@ case entry=matrix fp=real p.alg=4 p.n=9 p.m=2 p.ts=3 p.all=0 tier=thorough
//@ case entry=matrix fp=real p.alg=5 p.n=9 p.m=2 p.ts=3 p.all=0 tier=thorough
//@ case entry=matrix fp=real p.alg=6 p.n=9 p.m=2 p.ts=3 p.all=0 tier=thorough
//@ case entry=matrix fp=real p.alg=9 p.n=9 p.m=2 p.ts=3 p.all=0 tier=thorough
//@ bounds exact real arithmetic; 1 to 6 (thorough 12) rows, up to 3 (5) right hand sides, teams of 1 to 4 (8) threads with fixed diagonally dominant matrices (one per column where allowed) and every right hand side; every diagonally dominant matrix with up to 4 (5) rows; for 5 (9) rows every choice of one row's entries with the others fixed; packs of 2 as matrix or data type; races between the threads of a team
//@ outside rounding errors, more rows, nrow = 0 or nrhs = 0
//@ stubs Kokkos teams (host model with race detection)
#include "vx_team.h"
#include "ekat_pack.hpp"
#include "ekat_pack_math.hpp"
#include "ekat_tridiag.hpp"
#include "tridiag.inc"
static const int T[] = {3, -5, 0, 7, -1, 4, -3, 0, 1, -2, 5, -4};
VX_ENTRY(solve) { int alg = param("alg"), nmax = param("n"), mmax = onerhs(alg) ? 1 : (int)param("m"), tsmax = alg < TEAM1M ? 1 : (int)param("ts"); int n = pick<int>(1, nmax, "rows"), m = pick<int>(1, mmax, "right hand sides"), ts = pick<int>(1, tsmax, "team size"); int na = many(alg) ? m : 1;
  double* M[4]; for (int k = 0; k < 4; k++) M[k] = new double[n * (k == 3 ? m : na)]; W2<double> dl(M[0], n, na), d(M[1], n, na), du(M[2], n, na), X(M[3], n, m); static double A[3][16][4], b[16][4];
  for (int j = 0; j < na; j++) for (int i = 0; i < n; i++) { double l = T[(i + 5 * j) % 12], u = T[(3 * i + 7 * j + 1) % 12], a = (l < 0 ? -l : l) + (u < 0 ? -u : u) + 1 + i % 2; if (T[(i + j) % 12] < 0) a = -a; if (i == 0) l = sym<double>("unused"); if (i == n - 1) u = sym<double>("unused"); A[0][i][j] = dl(i, j) = l; A[1][i][j] = d(i, j) = a; A[2][i][j] = du(i, j) = u; }
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) X(i, j) = b[i][j] = sym<double>("b");
  run<double, double>(alg, ts, dl, d, du, X);
  for (int j = 0; j < m; j++) { int k = na == 1 ? 0 : j; for (int i = 0; i < n; i++) { double s = A[1][i][k] * X(i, j); if (i > 0) s += A[0][i][k] * X(i - 1, j); if (i < n - 1) s += A[2][i][k] * X(i + 1, j); check(s == b[i][j], "A x = b"); } }
  cover("solve"); }
static double mag(double x) { return x < 0 ? -x : x; }
// symbolic matrix: every entry (all = 1), or one entry at a time
VX_ENTRY(matrix) { int alg = param("alg"), n = param("n"), m = onerhs(alg) ? 1 : (int)param("m"), ts = alg < TEAM1M ? 1 : (int)param("ts"), all = param("all"), na = many(alg) ? m : 1; int w = all ? -1 : pick<int>(0, 3 * n * na - 1, "entry");
  double* M[4]; for (int k = 0; k < 4; k++) M[k] = new double[n * (k == 3 ? m : na)]; W2<double> dl(M[0], n, na), d(M[1], n, na), du(M[2], n, na), X(M[3], n, m); static double A[3][16][4], b[16][4];
  for (int j = 0; j < na; j++) for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { int e = (j * n + i) * 3 + k; double v = k == 1 ? 0 : T[(i * (1 + 2 * (k / 2)) + 5 * j + k) % 12]; if (k != 1 && (all || e == w)) v = sym<double>(k ? "u" : "l"); A[k][i][j] = v; }
  for (int j = 0; j < na; j++) for (int i = 0; i < n; i++) { double s = (i > 0 ? mag(A[0][i][j]) : 0) + (i < n - 1 ? mag(A[2][i][j]) : 0); int e = (j * n + i) * 3; double v; if (all || w == e || w == e + 1 || w == e + 2) { v = sym<double>("d"); assume(mag(v) > s); } else v = s + 1; A[1][i][j] = v; dl(i, j) = A[0][i][j]; d(i, j) = v; du(i, j) = A[2][i][j]; }
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) X(i, j) = b[i][j] = sym<double>("b");
  run<double, double>(alg, ts, dl, d, du, X);
  for (int j = 0; j < m; j++) { int k = na == 1 ? 0 : j; for (int i = 0; i < n; i++) { double s = A[1][i][k] * X(i, j); if (i > 0) s += A[0][i][k] * X(i - 1, j); if (i < n - 1) s += A[2][i][k] * X(i + 1, j); check(s == b[i][j], "A x = b"); } }
  cover("matrix"); }

#ifdef VX_PACKS
template <class DT, class XT> void types(int n) { const int m = 2; for (int alg = pick<int>(0, NALG - 1, "algorithm"), once = 1; once; once = 0) { bool pd = sizeof(DT) > 8; if (many(alg) && pd != (sizeof(XT) > 8)) return; int ma = many(alg) ? m : 1, mx = onerhs(alg) ? 1 : m, ts = alg < TEAM1M ? 1 : pick<int>(1, 2, "team size");
  DT* M[3]; for (auto& q : M) q = new DT[n * ma]; XT* Y = new XT[n * mx]; W2<DT> dl(M[0], n, ma), d(M[1], n, ma), du(M[2], n, ma); W2<XT> X(Y, n, mx); constexpr int ND = sizeof(DT) / 8, NX = sizeof(XT) / 8; double* L = (double*)M[0]; double* D = (double*)M[1]; double* U = (double*)M[2]; double* x = (double*)Y; static double A[3][32], b[64];
  for (int i = 0; i < n; i++) for (int c = 0; c < ma * ND; c++) { int e = i * ma * ND + c; double l = T[(i + 5 * c) % 12], u = T[(3 * i + 7 * c + 1) % 12]; A[0][e] = L[e] = l; A[2][e] = U[e] = u; A[1][e] = D[e] = mag(l) + mag(u) + 1 + c; } for (int e = 0; e < n * mx * NX; e++) x[e] = b[e] = sym<double>("b");
  run<DT, XT>(alg, ts, dl, d, du, X);
  for (int c = 0; c < mx * NX; c++) { int ca = ma * ND == 1 ? 0 : ma == 1 ? c % NX : c; for (int i = 0; i < n; i++) { int e = i * ma * ND + ca, w = i * mx * NX + c; double s = A[1][e] * x[w]; if (i > 0) s += A[0][e] * x[w - mx * NX]; if (i < n - 1) s += A[2][e] * x[w + mx * NX]; check(s == b[w], "A x = b in every slot of the packs"); } } cover("types"); } }
VX_ENTRY(packs) { using P = Pack<double, 2>; int n = 4; switch (param("types")) { case 0: return types<double, P>(n); case 1: return types<P, P>(n); default: return types<double, double>(n); } }
#endif
