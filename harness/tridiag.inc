using namespace ekat; using namespace vx; namespace td = ekat::tridiag;
template <class T> using W1 = Kokkos::View<T*, Kokkos::LayoutRight, OmpDevice>;
template <class T> using W2 = Kokkos::View<T**, Kokkos::LayoutRight, OmpDevice>;
// which algorithm and which shape: one matrix and one right hand side (11), several right hand sides (1m), several matrices (mm)
enum { SER11, SER1M, SERMM, TEAM1M, CR11, CR1M, CRMM, BFB1M, BFBMM, BFBM1, NALG };
template <class DT, class XT> void run(int alg, int ts, W2<DT> dl, W2<DT> d, W2<DT> du, W2<XT> X) {
  int n = d.extent_int(0); W1<DT> l(dl.data(), n), m(d.data(), n), u(du.data(), n); W1<XT> x(X.data(), n);
  switch (alg) {
    case SER11: return td::thomas(l, m, u, x);
    case SER1M: return td::thomas(l, m, u, X);
    case SERMM: return td::thomas(dl, d, du, X);
    default: run_teams(1, ts, [&](const TeamMember& t) { switch (alg) { case TEAM1M: td::thomas(t, l, m, u, X); break; case CR11: td::cr(t, l, m, u, x); break; case CR1M: td::cr(t, l, m, u, X); break; case CRMM: td::cr(t, dl, d, du, X); break; case BFB1M: td::bfb(t, l, m, u, X); break; default: td::bfb(t, dl, d, du, X); } });
  }
}
static bool many(int alg) { return alg == SERMM || alg == CRMM || alg == BFBMM; }
static bool onerhs(int alg) { return alg == SER11 || alg == CR11; }
