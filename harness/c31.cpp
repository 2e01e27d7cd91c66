// C31: stationary contacts and shear layers are kept by the contact-resolving fluxes.
#include "methods.hpp"
using namespace h;
namespace {
template <typename Eq> std::array<Complete<Eq>, 2> contact(const Eq& eq, int d) {
  std::array<Complete<Eq>, 2> q{Complete<Eq>(eq), Complete<Eq>(eq)};
  double rL = pos("r"), rR = pos("r"), cL = pos("c"), p = rL * rL * cL * cL / eq.gamma, msq = 1;
  if constexpr (isMixEq<Eq>) msq = eq.Msq;
  for (int k = 0; k < 2; ++k) {
    double r = k ? rR : rL, rho = r * r, e = p / (eq.gamma - 1);
    Complete<Eq>& s = q[k];
    s.density = rho; s.pressure = p; s.speed_of_sound = k ? cL * rL / rR : cL;
    for (int i = 0; i < Eq::Rank(); ++i) { double u = i == d ? 0.0 : vp_real("v"); s.momentum[i] = rho * u; e = e + msq * 0.5 * rho * u * u; }
    s.energy = e;
    if constexpr (isMixEq<Eq>) {
      for (int i = 0; i < eq.n_species; ++i) s.species[i] = rho * vp_real("Y");
      for (int i = 0; i < eq.n_passive_scalars; ++i) s.passive_scalars[i] = rho * vp_real("X");
    }
  }
  return q;
}
template <typename Eq> std::vector<double> atRest(const Eq& eq, double p, int d) {
  Conservative<Eq> f(eq); eachReal(f, [](double& x) { x = 0; });
  if constexpr (isMixEq<Eq>) f.momentum[d] = p / eq.Msq; else f.momentum[d] = p;
  return comps(f);
}
template <typename T> void scalar() {
  using Eq = typename T::Eq;
  Eq eq = symEq<Eq>(vp_param("msq", 0));
  const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  auto q = contact(eq, d);
  std::vector<StateOf<T>> st{q[0], q[1]};
  typename T::Method m = T::make(eq);
  same(numFlux<T>(m, st, pos("dt"), pos("dx"), dir), atRest(eq, q[0].pressure, d), "a stationary contact carries no flux but the pressure");
  vp_cover("contact");
}
template <typename T> void array() {
  using Eq = typename T::Eq;
  Eq eq = symEq<Eq>(vp_param("msq", 0));
  const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  std::vector<std::vector<StateOf<T>>> lanes;
  for (int l = 0; l < W; ++l) { auto q = contact(eq, d); lanes.push_back({q[0], q[1]}); }
  typename T::Method m = T::make(eq);
  auto f = numFluxArray<T>(m, chunks<T>(eq, lanes), pos("dt"), pos("dx"), dir);
  for (int l = 0; l < W; ++l) same(lane(f, l), atRest(eq, lanes[l][0].pressure, d), "a stationary contact carries no flux but the pressure (chunk)");
  vp_cover("contact");
}
} // namespace
#define M(name, ...) VP_ENTRY s_##name() { scalar<__VA_ARGS__>(); } VP_ENTRY a_##name() { array<__VA_ARGS__>(); }
#include "method_list.inc"
