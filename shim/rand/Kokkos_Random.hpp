// Random number pool of Kokkos, replaced by unrestricted draws: every result in [0, MAX_RAND] is possible.
#pragma once
#include <Kokkos_Core.hpp>
namespace Kokkos {
namespace vxr { inline int g_draws = 0, g_max_draws = 1 << 30; }
template <class Dev> struct Random_XorShift64_Pool {
  struct generator_type { enum { MAX_URAND = 0xffffffffU }; };
  Random_XorShift64_Pool(uint64_t = 0) {}
  generator_type get_state() const { return {}; }
  generator_type get_state(int) const { return {}; }
  void free_state(const generator_type&) const {}
};
template <class G, class T> struct rand { static T draw(G&) { vx::assume(++vxr::g_draws <= vxr::g_max_draws); T v = vx::sym<T>("draw"); vx::assume(v >= 0); return v; } };
}
