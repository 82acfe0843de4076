// A team execution space whose concurrency, team size and thread interleaving are under the control of the
// symbolic executor. It takes the place of Kokkos::OpenMP: EKAT's own OpenMP specialisations are compiled.
#pragma once
#include <Kokkos_Core.hpp>
#ifndef KOKKOS_ENABLE_OPENMP
#define KOKKOS_ENABLE_OPENMP
#endif
namespace vx {
inline int g_concurrency = 1;
inline int g_pool_rank[16] = {0};
inline int pool_rank() { return g_pool_rank[__vx_thread() & 15]; }
}
inline int omp_get_thread_num() { return vx::pool_rank(); }
inline int omp_get_num_threads() { return vx::g_concurrency; }
inline int omp_get_max_threads() { return vx::g_concurrency; }
namespace Kokkos {
class OpenMP {
 public:
  using execution_space = OpenMP; using memory_space = HostSpace; using size_type = size_t;
  using device_type = Kokkos::Device<OpenMP, HostSpace>; using array_layout = LayoutRight;
  using scratch_memory_space = ScratchMemorySpace<OpenMP>;
  static int in_parallel() { return false; }
  static void impl_static_fence(const std::string&) {}
  void fence(const std::string& = "") const {}
  static int concurrency() { return vx::g_concurrency; }
  static bool impl_is_initialized() { return true; }
  static int impl_thread_pool_size(int = 0) { return vx::g_concurrency; }
  uint32_t impl_instance_id() const noexcept { return 1; }
  static const char* name() { return "OpenMP"; }
};
namespace Tools { namespace Experimental {
template <> struct DeviceTypeTraits<OpenMP> { static constexpr DeviceType id = DeviceType::OpenMP; static int device_id(const OpenMP&) { return 0; } };
} }
namespace Impl {
template <class F, class... T> class ParallelFor<F, Kokkos::RangePolicy<T...>, Kokkos::OpenMP> {
  using Policy = Kokkos::RangePolicy<T...>; F m_f; Policy m_p;
 public:
  ParallelFor(const F& f, const Policy& p) : m_f(f), m_p(p) {}
  void execute() const { for (auto i = m_p.begin(); i < m_p.end(); ++i) call(i, (typename Policy::work_tag*)nullptr); }
  template <class I> void call(I i, void*) const { m_f(i); }
};
template <class F, class... T> class ParallelFor<F, Kokkos::MDRangePolicy<T...>, Kokkos::OpenMP> {
  using MD = Kokkos::MDRangePolicy<T...>; using Iter = typename Kokkos::Impl::HostIterateTile<MD, F, typename MD::work_tag, void>; const F m_f; const MD m_p;
 public:
  ParallelFor(const F& f, const MD& p) : m_f(f), m_p(p) {}
  void execute() const { for (size_t i = 0; i < (size_t)m_p.m_num_tiles; ++i) Iter(m_p, m_f)(i); }
};
}
}
namespace vx {
struct TeamMember {
  int lr, ls, tr, ts; unsigned long tag;
  using execution_space = Kokkos::OpenMP;
  int league_rank() const { return lr; }
  int league_size() const { return ls; }
  int team_rank() const { return tr; }
  int team_size() const { return ts; }
  void team_barrier() const { if (ts > 1) __vx_barrier(tag); }
  template <class T> void team_broadcast(T& v, int src) const { if (ts > 1) { alignas(T) static char raw[16 * sizeof(T)]; T* box = (T*)raw; team_barrier(); if (tr == src) box[lr & 15] = v; team_barrier(); v = box[lr & 15]; team_barrier(); } }
};
inline int g_iter_map = 0;  // 0: iterations dealt round-robin to threads, 1: contiguous blocks
struct TeamRange {
  const TeamMember& member; long b, e;
  bool mine(long i) const {
    if (member.ts == 1) return true;
    if (g_iter_map == 0) return (i - b) % member.ts == member.tr;
    long n = e - b, c = (n + member.ts - 1) / member.ts; return (i - b) / c == member.tr;
  }
  template <class F> void each(F&& f) const { for (long i = b; i < e; i++) if (mine(i)) f((int)i); }
};
// iterations of a vector range belong to the calling thread
struct VectorRange { const TeamMember& member; long b, e; };
}
namespace Kokkos {
template <> class TeamPolicy<OpenMP> {
  int l_, t_;
 public:
  using member_type = vx::TeamMember; using execution_space = OpenMP; using index_type = int;
  TeamPolicy(int l = 0, int t = 1, int = 1) : l_(l), t_(t) {}
  int league_size() const { return l_; }
  int team_size() const { return t_; }
};
inline vx::TeamRange TeamThreadRange(const vx::TeamMember& m, long n) { return {m, 0, n}; }
inline vx::TeamRange TeamThreadRange(const vx::TeamMember& m, long b, long e) { return {m, b, e}; }
inline vx::TeamRange TeamVectorRange(const vx::TeamMember& m, long n) { return {m, 0, n}; }
inline vx::TeamRange TeamVectorRange(const vx::TeamMember& m, long b, long e) { return {m, b, e}; }
inline vx::VectorRange ThreadVectorRange(const vx::TeamMember& m, long n) { return {m, 0, n}; }
inline vx::VectorRange ThreadVectorRange(const vx::TeamMember& m, long b, long e) { return {m, b, e}; }
namespace vxi { struct PT { const vx::TeamMember& m; }; }
inline vxi::PT PerTeam(const vx::TeamMember& m) { return {m}; }
inline vxi::PT PerThread(const vx::TeamMember& m) { return {m}; }
template <class F> inline void single(const vxi::PT& p, const F& f) { if (p.m.tr == 0) f(); }
template <class F, class V> inline void single(const vxi::PT& p, const F& f, V& v) { if (p.m.tr == 0) f(v); p.m.team_broadcast(v, 0); }
template <class F> inline void parallel_for(const vx::TeamRange& r, const F& f) { r.each(f); }
template <class F> inline void parallel_for(const vx::VectorRange& r, const F& f) { for (long i = r.b; i < r.e; i++) f((int)i); }
template <class F, class V> inline void parallel_reduce(const vx::TeamRange& r, const F& f, V& res) {
  V acc; { Kokkos::Sum<V> red(acc); red.init(acc); } r.each([&](int i) { f(i, acc); });
  if (r.member.ts == 1) { res = acc; return; }
  alignas(V) static char raw[16 * 16 * sizeof(V)]; V (*box)[16] = (V (*)[16])raw;
  r.member.team_barrier();
  box[r.member.lr & 15][r.member.tr] = acc;
  r.member.team_barrier();
  V s = box[r.member.lr & 15][0];
  for (int t = 1; t < r.member.ts; t++) s += box[r.member.lr & 15][t];
  r.member.team_barrier();
  res = s;
}
template <class F, class V> inline void parallel_reduce(const vx::VectorRange& r, const F& f, V& res) { V acc; { Kokkos::Sum<V> red(acc); red.init(acc); } for (long i = r.b; i < r.e; i++) f((int)i, acc); res = acc; }
}
namespace vx {
using OmpDevice = Kokkos::Device<Kokkos::OpenMP, Kokkos::HostSpace>;
template <class F> struct TeamJob { const F* f; int pool, team, tr, ts, league, nteams; };
template <class F> void team_body(void* a) {
  auto& j = *(TeamJob<F>*)a;
  g_pool_rank[__vx_thread() & 15] = j.pool;
  int team = j.team;
  for (int l = team; l < j.league; l += j.nteams) { TeamMember m{l, j.league, j.tr, j.ts, 1000ul + team}; (*j.f)(m); if (j.ts > 1) __vx_barrier(2000ul + team); }
}
// league iterations run on nteams concurrent teams of ts threads; like Kokkos, every team owns alloc consecutive threads
// of the pool, of which the first ts take part
template <class F> void run_teams(int league, int ts, const F& f, int nteams = 1, int alloc = 0) {
  if (!alloc) alloc = ts;
  if (ts * nteams == 1) { for (int l = 0; l < league; l++) { TeamMember m{l, league, 0, 1, 1000ul}; f(m); } return; }
  static TeamJob<F> jobs[16];
  for (int p = 0; p < ts * nteams; p++) jobs[p] = {&f, p / ts * alloc + p % ts, p / ts, p % ts, ts, league, nteams};
  for (int p = 0; p < ts * nteams; p++) __vx_spawn(&team_body<F>, &jobs[p], p / ts);
  __vx_join_all();
}
}
namespace Kokkos {
template <class F> inline void parallel_for(const TeamPolicy<OpenMP>& p, const F& f) {
  int nt = vx::g_concurrency / p.team_size(); if (nt < 1) nt = 1;
  int alloc = vx::g_concurrency / nt; if (alloc < p.team_size()) alloc = p.team_size();
  if (nt > p.league_size()) nt = p.league_size(); if (nt < 1) nt = 1;
  vx::run_teams(p.league_size(), p.team_size(), f, nt, alloc);
}
template <class F> inline void parallel_for(const std::string&, const TeamPolicy<OpenMP>& p, const F& f) { parallel_for(p, f); }
}
