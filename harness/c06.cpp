// C06: a numerical flux of equal states is the physical flux.
#include "methods.hpp"
using namespace h;
namespace {
template <typename T> void scalar() {
  using Eq = typename T::Eq;
  Eq eq = symEq<Eq>(vp_param("msq", 0));
  const Direction dir = static_cast<Direction>(vp_param("dir", 0));
  StateOf<T> q = makeState(eq, "q");
  std::vector<StateOf<T>> st(width<T>, q);
  typename T::Method m = T::make(eq);
  double dt = pos("dt"), dx = pos("dx");
  same(numFlux<T>(m, st, dt, dx, dir), physFlux(eq, q, dir), "numerical flux of equal states is the physical flux");
  vp_cover("flux");
}
template <typename T> void array() {
  using Eq = typename T::Eq;
  Eq eq = symEq<Eq>(vp_param("msq", 0));
  const Direction dir = static_cast<Direction>(vp_param("dir", 0));
  std::vector<std::vector<StateOf<T>>> lanes;
  for (int l = 0; l < W; ++l) lanes.push_back(std::vector<StateOf<T>>(width<T>, makeState(eq, "q")));
  typename T::Method m = T::make(eq);
  double dt = pos("dt"), dx = pos("dx");
  auto f = numFluxArray<T>(m, chunks<T>(eq, lanes), dt, dx, dir);
  for (int l = 0; l < W; ++l) same(lane(f, l), physFlux(eq, lanes[l][0], dir), "chunked numerical flux of equal states is the physical flux");
  vp_cover("flux");
}
} // namespace
#define M(name, ...) VP_ENTRY s_##name() { scalar<__VA_ARGS__>(); } VP_ENTRY a_##name() { array<__VA_ARGS__>(); }
#include "method_list.inc"
