// C12: signal speeds bracket the waves of both states.
#include "methods.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
using namespace h;
namespace {
template <typename S> double speed(const S& q) { return q.speed_of_sound; }
inline double speed(const Complete<ShallowWater>& q) { return std::sqrt(10.0 * q.height); }
template <typename S> double dens(const S& q) { return q.density; }
inline double dens(const Complete<ShallowWater>& q) { return q.height; }
inline Complete<ShallowWater> oneState(const ShallowWater&) { // the speed sqrt(g h) is a square root of a square
  Complete<ShallowWater> q; double c = pos("c"); q.height = c * c / 10; q.momentum[0] = q.height * vp_real("v"); q.momentum[1] = q.height * vp_real("v"); return q;
}
template <typename E> Complete<E> oneState(const E& eq) { return makeState(eq, "q"); }
template <typename Q> void bracket(double sL, double sR, const Q& l, const Q& r, int d) {
  double uL = l.momentum[d] / dens(l), uR = r.momentum[d] / dens(r);
  vp_le(sL, sR, "the lower estimate does not exceed the upper one");
  vp_le(sL, uL - speed(l), "the lower estimate is at most the slowest wave of the left state");
  vp_le(uR + speed(r), sR, "the upper estimate is at least the fastest wave of the right state");
}
template <typename Q> void exact(double sL, double sR, const Q& q, int d, bool shallow) {
  double u = q.momentum[d] / dens(q), lo = u - speed(q), hi = u + speed(q);
  if (shallow) { // also covers the resting water between the states
    lo = lo < 0 ? lo : 0; hi = hi > 0 ? hi : 0;
  }
  vp_eq(sL, lo, "lower estimate of equal states"); vp_eq(sR, hi, "upper estimate of equal states");
}
template <typename E, typename Sig> void scalar(bool eqs) {
  E eq = symEq<E>(); Sig sig; const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  auto l = oneState(eq); auto r = eqs ? l : oneState(eq);
  auto s = sig(eq, l, r, dir);
  if (eqs) exact(s[0], s[1], l, d, std::is_same_v<E, ShallowWater>); else bracket(s[0], s[1], l, r, d);
  vp_cover("signals");
}
template <typename E, typename Sig> void array(bool eqs) {
  E eq = symEq<E>(); Sig sig; const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  std::vector<Complete<E>> l, r;
  for (int k = 0; k < W; ++k) { l.push_back(oneState(eq)); r.push_back(eqs ? l.back() : oneState(eq)); }
  auto s = sig(eq, chunkOf(eq, l), chunkOf(eq, r), dir);
  for (int k = 0; k < W; ++k) if (eqs) exact(s[0](k), s[1](k), l[k], d, std::is_same_v<E, ShallowWater>); else bracket(s[0](k), s[1](k), l[k], r[k], d);
  vp_cover("signals");
}
template <typename E, typename Sig> void masked(bool eqs) {
  E eq = symEq<E>(); Sig sig; const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  std::vector<Complete<E>> l, r;
  auto bits = maskBits();
  for (int k = 0; k < W; ++k) {
    l.push_back(oneState(eq)); r.push_back(eqs ? l.back() : oneState(eq));
    if (!bits[k]) { junk(l.back()); junk(r.back()); if (vp_choice("vacuum", 2)) { eachReal(l.back(), [](double& x) { x = 0; }); eachReal(r.back(), [](double& x) { x = 0; }); } }
  }
  auto s = sig(eq, chunkOf(eq, l), chunkOf(eq, r), maskOf(bits), dir);
  for (int k = 0; k < W; ++k) if (bits[k]) { if (eqs) exact(s[0](k), s[1](k), l[k], d, std::is_same_v<E, ShallowWater>); else bracket(s[0](k), s[1](k), l[k], r[k], d); }
  vp_cover("signals");
}
// the signals of the reacting mixture use density, momentum and speed of sound only; no reactor is needed
template <int N> Complete<IdealGasMix<N>> gasOnly() {
  Complete<IdealGasMix<N>> q; double r = pos("r"); q.density = r * r; q.speed_of_sound = pos("c");
  for (int i = 0; i < N; ++i) q.momentum[i] = q.density * vp_real("u");
  return q;
}
template <int N> void igm(int variant, bool eqs) {
  using E = IdealGasMix<N>; using Q = Complete<E>; using QA = CompleteArray<E>;
  alignas(64) static char raw[sizeof(E)] = {};
  const E& eq = *reinterpret_cast<const E*>(raw);
  EinfeldtSignalVelocities<E> sig; const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  if (variant == 0) {
    Q l = gasOnly<N>(), r = eqs ? l : gasOnly<N>();
    auto s = sig(eq, l, r, dir);
    if (eqs) exact(s[0], s[1], l, d, false); else bracket(s[0], s[1], l, r, d);
  } else {
    std::vector<Q> l, r; QA L, Rr; MaskArray m; std::array<bool, W> bits;
    for (int k = 0; k < W; ++k) {
      l.push_back(gasOnly<N>()); r.push_back(eqs ? l.back() : gasOnly<N>());
      bits[k] = variant == 1 || vp_param("full", 0) || vp_int("mask", 0, 1); m(k) = bits[k];
      auto put = [&](QA& a, const Q& q) { a.density(k) = bits[k] ? q.density : vp_real("junk"); a.speed_of_sound(k) = bits[k] ? q.speed_of_sound : vp_real("junk"); for (int i = 0; i < N; ++i) a.momentum(i, k) = bits[k] ? q.momentum[i] : vp_real("junk"); };
      put(L, l.back()); put(Rr, r.back());
    }
    auto s = variant == 1 ? sig(eq, L, Rr, dir) : sig(eq, L, Rr, m, dir);
    for (int k = 0; k < W; ++k) if (bits[k]) { if (eqs) exact(s[0](k), s[1](k), l[k], d, false); else bracket(s[0](k), s[1](k), l[k], r[k], d); }
    if (!eqs && variant == 1) { auto s0 = sig(eq, l[0], r[0], dir); vp_eq(s[0](0), s0[0], "chunk and single cell agree"); vp_eq(s[1](0), s0[1], "chunk and single cell agree"); }
    if (!eqs && variant == 2 && vp_param("full", 0)) { auto s0 = sig(eq, l[0], r[0], dir); vp_eq(s[0](0), s0[0], "masked chunk and single cell agree"); vp_eq(s[1](0), s0[1], "masked chunk and single cell agree"); }
  }
  vp_cover("signals");
}
} // namespace
#define I(n) VP_ENTRY s_igm##n() { igm<n>(0, vp_param("equal", 0)); } VP_ENTRY a_igm##n() { igm<n>(1, vp_param("equal", 0)); } VP_ENTRY m_igm##n() { igm<n>(2, vp_param("equal", 0)); }
I(1) I(2) I(3)
#define M(name, E, ...) VP_ENTRY s_##name() { scalar<E, __VA_ARGS__>(vp_param("equal", 0)); } VP_ENTRY a_##name() { array<E, __VA_ARGS__>(vp_param("equal", 0)); }
#define MM(name, E, ...) M(name, E, __VA_ARGS__) VP_ENTRY m_##name() { masked<E, __VA_ARGS__>(vp_param("equal", 0)); }
M(shallow, ShallowWater, ShallowWaterSignalVelocities)
MM(gas1, PerfectGas<1>, EinfeldtSignalVelocities<PerfectGas<1>>) MM(gas2, PerfectGas<2>, EinfeldtSignalVelocities<PerfectGas<2>>) MM(gas3, PerfectGas<3>, EinfeldtSignalVelocities<PerfectGas<3>>)
MM(mix1, PerfectGasMix<1>, EinfeldtSignalVelocities<PerfectGasMix<1>>) MM(mix2, PerfectGasMix<2>, EinfeldtSignalVelocities<PerfectGasMix<2>>) MM(mix3, PerfectGasMix<3>, EinfeldtSignalVelocities<PerfectGasMix<3>>)
