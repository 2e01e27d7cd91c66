// C04: analytic fluxes are those of the governing equations, in every variant.
#include "gas.hpp"
using namespace fub;
namespace {
using V = std::vector<double>;
V expected(const Advection2d& eq, const Complete<Advection2d>& q, int d) { return {eq.velocity[d] * q.mass}; }
V expected(const Burgers1d&, const Complete<Burgers1d>& q, int) { return {q.u * q.u / 2}; }
V expected(const ShallowWater& eq, const Complete<ShallowWater>& q, int d) {
  V f{q.momentum[d]};
  for (int i = 0; i < 2; ++i) f.push_back(q.momentum[d] * q.momentum[i] / q.height + (i == d ? 0.5 * eq.gravity_ * q.height * q.height : 0));
  return f;
}
template <int N> V expected(const PerfectGas<N>&, const Complete<PerfectGas<N>>& q, int d) {
  double u = q.momentum[d] / q.density;
  V f{q.momentum[d]};
  for (int i = 0; i < N; ++i) f.push_back(u * q.momentum[i] + (i == d ? q.pressure : 0));
  f.push_back(u * (q.energy + q.pressure));
  return f;
}
template <int N> V expected(const PerfectGasMix<N>& eq, const Complete<PerfectGasMix<N>>& q, int d) {
  double u = q.momentum[d] / q.density;
  V f{q.momentum[d]};
  for (int i = 0; i < N; ++i) f.push_back(u * q.momentum[i] + (i == d ? q.pressure / eq.Msq : 0));
  f.push_back(u * (q.energy + q.pressure));
  for (int i = 0; i < eq.n_species; ++i) f.push_back(u * q.species[i]);
  for (int i = 0; i < eq.n_passive_scalars; ++i) f.push_back(u * q.passive_scalars[i]);
  return f;
}
template <typename Eq> Eq make() {
  if constexpr (!std::is_base_of_v<PerfectGasConstants, Eq>) return h::makeEq(Type<Eq>{});
  else return h::makeEq(Type<Eq>{}, vp_param("species", 2), vp_param("scalars", 1), true);
}
template <typename Eq> void scalar() {
  Eq eq = make<Eq>();
  for (int d = 0; d < Eq::Rank(); ++d) {
    Complete<Eq> q = h::makeState(eq, "q");
    Conservative<Eq> f(eq);
    h::junk(f);
    if constexpr (std::is_same_v<Eq, Burgers1d>) f = eq.Flux(q, Direction(d)); else eq.Flux(f, q, Direction(d));
    h::same(h::comps(f), expected(eq, q, d), "flux of a single cell");
  }
  vp_cover("scalar flux");
}
template <typename Eq> void array() {
  Eq eq = make<Eq>();
  for (int d = 0; d < Eq::Rank(); ++d) {
    std::vector<Complete<Eq>> c;
    for (int l = 0; l < h::W; ++l) c.push_back(h::makeState(eq, "q"));
    CompleteArray<Eq> q = h::chunkOf(eq, c);
    ConservativeArray<Eq> f(eq);
    h::junk(f);
    if constexpr (std::is_same_v<Eq, Burgers1d>) f = eq.Flux(q, Direction(d)); else eq.Flux(f, q, Direction(d));
    for (int l = 0; l < h::W; ++l) h::same(h::lane(f, l), expected(eq, c[l], d), "flux of a lane of a chunk");
  }
  vp_cover("chunk flux");
}
// inactive lanes hold arbitrary data, including zero density
template <typename Eq> void masked() {
  Eq eq = make<Eq>();
  for (int d = 0; d < Eq::Rank(); ++d) {
    auto bits = h::maskBits();
    std::vector<Complete<Eq>> c;
    CompleteArray<Eq> q(eq);
    for (int l = 0; l < h::W; ++l) {
      c.push_back(h::makeState(eq, "q"));
      std::vector<double> v = h::comps(c[l]), g = v;
      for (auto& x : g) x = vp_real("inactive");
      if (vp_param("vacuum", 0)) g[0] = 0;
      for (std::size_t k = 0; k < v.size(); ++k) v[k] = vp_sel(bits[l], v[k], g[k]);
      h::setLane(q, l, v);
    }
    ConservativeArray<Eq> f(eq);
    h::junk(f);
    eq.Flux(f, q, h::maskOf(bits), Direction(d));
    for (int l = 0; l < h::W; ++l) {
      V e = expected(eq, c[l], d), a = h::lane(f, l);
      for (std::size_t k = 0; k < e.size(); ++k) vp_eq(vp_sel(bits[l], a[k], 0), vp_sel(bits[l], e[k], 0), "flux of an active lane of a masked chunk");
    }
  }
  vp_cover("masked flux");
}
} // namespace
VP_ENTRY s_advection() { scalar<Advection2d>(); }
VP_ENTRY a_advection() { array<Advection2d>(); }
VP_ENTRY s_burgers() { scalar<Burgers1d>(); }
VP_ENTRY a_burgers() { array<Burgers1d>(); }
VP_ENTRY s_shallow() { scalar<ShallowWater>(); }
VP_ENTRY a_shallow() { array<ShallowWater>(); }
VP_ENTRY s_gas1() { scalar<PerfectGas<1>>(); }
VP_ENTRY s_gas2() { scalar<PerfectGas<2>>(); }
VP_ENTRY s_gas3() { scalar<PerfectGas<3>>(); }
VP_ENTRY a_gas1() { array<PerfectGas<1>>(); }
VP_ENTRY a_gas2() { array<PerfectGas<2>>(); }
VP_ENTRY a_gas3() { array<PerfectGas<3>>(); }
VP_ENTRY m_gas1() { masked<PerfectGas<1>>(); }
VP_ENTRY m_gas2() { masked<PerfectGas<2>>(); }
VP_ENTRY m_gas3() { masked<PerfectGas<3>>(); }
VP_ENTRY s_mix1() { scalar<PerfectGasMix<1>>(); }
VP_ENTRY s_mix2() { scalar<PerfectGasMix<2>>(); }
VP_ENTRY s_mix3() { scalar<PerfectGasMix<3>>(); }
VP_ENTRY a_mix1() { array<PerfectGasMix<1>>(); }
VP_ENTRY a_mix2() { array<PerfectGasMix<2>>(); }
VP_ENTRY a_mix3() { array<PerfectGasMix<3>>(); }
VP_ENTRY m_mix1() { masked<PerfectGasMix<1>>(); }
VP_ENTRY m_mix2() { masked<PerfectGasMix<2>>(); }
VP_ENTRY m_mix3() { masked<PerfectGasMix<3>>(); }
