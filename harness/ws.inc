#include "vx_team.h"
#include "ekat_pack.hpp"
#include "ekat_workspace.hpp"
using namespace ekat; using namespace vx;
namespace unit_test { struct UnitWrap { template <class W> static int used(const W& w) {
#ifdef NDEBUG
  return -1;
#else
  return w.get_num_used();
#endif
} template <class W, class V> static bool active(const W& w, const V& v) {
#ifdef NDEBUG
  return true;
#else
  return w.template is_active<typename V::value_type>(v);
#endif
} }; }
static const char* NM[6] = {"a", "bb", "a", "ccc", "e", "ee"};
// tags of one entry: every byte of the entry depends on the tag
template <class T> struct Tag { static T make(long t) { return (T)t; } static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; } };
template <> struct Tag<double> { static double make(long t) { double d; memcpy(&d, &t, 8); return d; } static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; } };
template <int N> struct Tag<Pack<double, N>> { using P = Pack<double, N>; static P make(long t) { P p; for (int i = 0; i < N; i++) { p[i] = Tag<double>::make(t + i); } return p; } static bool same(const P& a, const P& b) { for (int i = 0; i < N; i++) if (!Tag<double>::same(a[i], b[i])) return false; return true; } };
// One team's use of a workspace, with a model of which blocks are active. sz entries per block, M blocks.
template <class T> struct User {
  using WM = WorkspaceManager<T, OmpDevice>; using WS = typename WM::Workspace; using V = Unmanaged<typename WM::template view_1d<T>>; template <size_t N> using Ptrs = Kokkos::Array<V*, N>;
  static constexpr int MX = 5;
  const WM& wm; const WS& ws; int sz, M; struct Blk { V v; int slot, n, grp; long tag; bool on = false; const char* nm; } b[16]; int nb = 0, used = 0, grp = 0; int fr[MX], nf;
  User(const WM& wm, const WS& ws, int sz, int M) : wm(wm), ws(ws), sz(sz), M(M) { fresh(0); }
  // what was taken and released so far, by name, and the most blocks in use at one time
  struct Cnt { const char* n; int t, r; } c[16]; int nc = 0, high = 0; Cnt& cnt(const char* n) { for (int i = 0; i < nc; i++) if (strcmp(c[i].n, n) == 0) return c[i]; c[nc] = Cnt{n, 0, 0}; return c[nc++]; }
  void fresh(int from) { nf = 0; for (int i = from; i < M; i++) fr[nf++] = i; }
  bool run(int n) { for (int i = 1; i < n; i++) if (fr[i] != fr[i - 1] + 1) return false; return n <= nf; }
  void put(const V& v, int n, int g, const char* nm) { Blk& x = b[nb++]; cnt(nm).t++; x.v = v; x.n = n; x.grp = g; x.slot = fr[0]; for (int i = n; i < nf; i++) fr[i - n] = fr[i]; nf -= n; x.tag = sym<long>("tag"); x.on = true; x.nm = nm; used += n; check((int)v.extent(0) == sz, "size of a block"); T t = Tag<T>::make(x.tag); for (int i = 0; i < sz * n; i++) v.data()[i] = t; }
  void back(Blk& x) { cnt(x.nm).r++; x.on = false; for (int i = nf - 1; i >= 0; i--) fr[i + x.n] = fr[i]; for (int i = 0; i < x.n; i++) fr[i] = x.slot + i; nf += x.n; used -= x.n; }
  void drop() { for (int i = 0; i < nb; i++) { if (b[i].on) cnt(b[i].nm).r++; b[i].on = false; } used = 0; }
  // every entry of every active block, the entry's position left to the solver
  void at_any_position() { for (int i = 0; i < nb; i++) if (b[i].on) { T t = Tag<T>::make(b[i].tag); int k = range<int>(0, sz * b[i].n - 1, "position"); check(Tag<T>::same(b[i].v.data()[k], t), "an active block keeps its contents"); } }
  void verify() { high = high < used ? used : high; for (int i = 0; i < nb; i++) if (b[i].on) { T t = Tag<T>::make(b[i].tag); for (int k = 0; k < sz * b[i].n; k++) check(Tag<T>::same(b[i].v.data()[k], t), "an active block keeps its contents");
#ifndef NDEBUG
      check(strcmp(ws.get_name(b[i].v), b[i].nm) == 0, "name of an active block"); check(unit_test::UnitWrap::active(ws, b[i].v), "an active block is marked");
#endif
    }
#ifndef NDEBUG
    check(unit_test::UnitWrap::used(ws) == used, "number of blocks in use");
#endif
  }
  void op(int o) { switch (o) {
    case 0: { assume(nf >= 1); put(ws.template take<T>(NM[nb % 6]), 1, -1, NM[nb % 6]); break; }
    case 1: { int j = pick<int>(0, MX, "which"); assume(j < nb && b[j].on && b[j].n == 1); ws.release(b[j].v); back(b[j]); break; }
    case 2: { assume(nf >= 2); V x, y; if (pick<int>(0, 1, "refs")) ws.take_many_refs({"p", "q"}, x, y); else ws.template take_many<2, T>({"p", "q"}, Ptrs<2>{{&x, &y}}); put(x, 1, -1, "p"); put(y, 1, -1, "q"); break; }
    case 3: { assume(run(2)); V x, y; ws.template take_many_contiguous_unsafe<2, T>({"r", "s"}, Ptrs<2>{{&x, &y}}); grp++; put(x, 1, grp, "r"); put(y, 1, grp, "s"); break; }
    case 4: { int j = -1; for (int i = 0; i + 1 < nb; i++) if (b[i].on && b[i + 1].on && b[i].grp >= 0 && b[i].grp == b[i + 1].grp) j = i; assume(j >= 0); V x = b[j].v, y = b[j + 1].v; ws.template release_many_contiguous<2, T>(Ptrs<2>{{&x, &y}}); back(b[j + 1]); back(b[j]); break; }
    case 5: { int n = pick<int>(1, 3, "sub-blocks"); assume(run(n)); put(ws.template take_macro_block<T>("m", n), n, -2, "m"); break; }
    case 6: { int j = -1; for (int i = 0; i < nb; i++) if (b[i].on && b[i].grp == -2 && (j < 0 || pick<int>(0, 1, "which"))) j = i; assume(j >= 0); ws.template release_macro_block<T>(b[j].v, b[j].n); back(b[j]); break; }
    case 7: { V x, y; ws.template take_many_and_reset<2, T>({"t", "u"}, Ptrs<2>{{&x, &y}}); drop(); fresh(0); grp++; put(x, 1, grp, "t"); put(y, 1, grp, "u"); break; }
    default: ws.reset(); drop(); fresh(0); } verify(); }
};
template <class T> void history(int sz, int M, int len, int first) {
  g_concurrency = 1; using WM = WorkspaceManager<T, OmpDevice>; typename WM::TeamPolicy pol(1, 1); int bytes = WM::get_total_bytes_needed(sz, M, pol); check(bytes >= M * sz * (int)sizeof(T), "room for all blocks"); T* data = (T*)malloc(bytes); { WM wm(data, sz, M, pol); TeamMember m{0, 1, 0, 1, 7};
    { auto ws = wm.get_workspace(m, "w"); User<T> u(wm, ws, sz, M); for (int i = 0; i < len; i++) u.op(i == 0 ? first : pick<int>(0, 8, "op")); if (param("any", 0)) u.at_any_position(); while (u.nf) u.op(0); }
    if (pick<int>(0, 1, "again")) { wm.reset_internals(); auto ws = wm.get_workspace(m, "w"); User<T> u(wm, ws, sz, M); u.op(pick<int>(0, 1, "op") ? 5 : 2); u.op(0); } }
  free(data); cover("history"); }
VX_ENTRY(hist) { history<double>(2, 4, param("len", 3), param("first")); }
VX_ENTRY(types) { int o = pick<int>(0, 3, "first"); int f[4] = {0, 2, 5, 7}; switch (param("t")) { case 0: return history<int>(3, 3, 2, f[o]); case 1: return history<Pack<double, 4>>(1, 3, 2, f[o]); case 2: return history<float>(1, 3, 2, f[o]); default: return history<long>(2, 5, 3, f[o]); } }
// blocks viewed as another type
VX_ENTRY(other) { g_concurrency = 1; using WM = WorkspaceManager<double, OmpDevice>; int sz = pick<int>(1, 3, "size"); WM wm(sz, 3, WM::TeamPolicy(1, 1)); TeamMember m{0, 1, 0, 1, 7}; auto ws = wm.get_workspace(m); auto a = ws.take<int>("a"); auto b = ws.take<double>("b"); auto c = ws.take<Pack<double, 1>>("c"); check((int)a.extent(0) == 2 * sz && (int)b.extent(0) == sz && (int)c.extent(0) == sz, "a block holds as many entries of another type as fit"); int x = sym<int>("x"); double y = 1.5; for (int i = 0; i < 2 * sz; i++) a(i) = x + i; for (int i = 0; i < sz; i++) b(i) = y; for (int i = 0; i < sz; i++) c(i)[0] = 2.5; for (int i = 0; i < 2 * sz; i++) check(a(i) == x + i, "contents"); for (int i = 0; i < sz; i++) check(b(i) == y && c(i)[0] == 2.5, "contents"); int o = pick<int>(0, 2, "order"); if (o != 1) ws.release(a); ws.release(b); if (o == 1) ws.release(a); if (o == 2) ws.release(c); auto d = ws.take<int>("d"), e = ws.take<int>("e"); for (int i = 0; i < 2 * sz; i++) { d(i) = 3; e(i) = 4; } if (o != 2) check(c(0)[0] == 2.5, "an active block keeps its contents"); check(d.data() != e.data() && d(0) == 3, "blocks are disjoint"); cover("other"); }
// concurrent teams, each with its own workspace
static int g_ts, g_nt, g_league; template <class T> void teams(int ts, int conc, int league) { g_concurrency = conc; using WM = WorkspaceManager<T, OmpDevice>; typename WM::TeamPolicy pol(league, ts); static WM* wm; wm = new WM(2, 4, pol); static long tag[8]; symArray(tag, 8, "tag");
  int o = param("mode");
  Kokkos::parallel_for(pol, [&](const TeamMember& m) { using V = Unmanaged<typename WM::template view_1d<T>>; auto ws = wm->get_workspace(m); V a, b; auto fill = [&](const V& v, long t, int n = 2) { for (int i = m.tr; i < n; i += m.ts) v.data()[i] = Tag<T>::make(t); }; auto holds = [&](const V& v, long t, int n = 2) { for (int i = 0; i < n; i++) check(Tag<T>::same(v.data()[i], Tag<T>::make(t)), "a block is private to its team"); };
    if (o == 0) { a = ws.template take<T>("a"); b = ws.template take<T>("b"); } else if (o == 1) ws.take_many_refs({"a", "b"}, a, b); else if (o == 2) ws.template take_many_contiguous_unsafe<2, T>({"a", "b"}, Kokkos::Array<V*, 2>{{&a, &b}}); else if (o == 3) ws.template take_many_and_reset<2, T>({"a", "b"}, Kokkos::Array<V*, 2>{{&a, &b}}); else { a = ws.template take_macro_block<T>("a", 2); b = ws.template take<T>("b"); }
    int an = o == 4 ? 4 : 2; fill(a, tag[m.lr * 2], an); fill(b, tag[m.lr * 2 + 1]); m.team_barrier(); holds(a, tag[m.lr * 2], an); holds(b, tag[m.lr * 2 + 1]); m.team_barrier();
    if (o == 0) { ws.release(a); auto c = ws.template take<T>("c"); fill(c, 5); m.team_barrier(); holds(b, tag[m.lr * 2 + 1]); holds(c, 5); m.team_barrier(); ws.release(c); ws.release(b); } else if (o == 1) { ws.release(a); ws.release(b); } else if (o == 2) ws.template release_many_contiguous<2, T>(Kokkos::Array<V*, 2>{{&a, &b}}); else if (o == 3) ws.reset(); else { ws.release(b); ws.template release_macro_block<T>(a, 2); } });
  cover("teams"); }
VX_ENTRY(team) { __vx_race_benign(1); teams<double>(param("ts"), param("conc"), param("league")); }
