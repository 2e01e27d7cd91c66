// Symbolic equations and admissible states, component access, lane access.
#pragma once
#include "vp.hpp"
#include "fub/State.hpp"
#include "fub/StateArray.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include <boost/mp11/tuple.hpp>
#include <vector>
namespace h {
using namespace fub;
constexpr int W = kDefaultChunkSize;
// ---------------------------------------------------------------- components
template <typename F> void eachComp(double& x, F f) { f(x); }
template <typename F> void eachComp(const double& x, F f) { f(x); }
template <typename M, typename F> std::enable_if_t<!std::is_arithmetic_v<std::decay_t<M>>> eachComp(M& m, F f) { for (int i = 0; i < m.size(); ++i) f(m.coeffRef(i)); }
template <typename M, typename F> std::enable_if_t<!std::is_arithmetic_v<std::decay_t<M>>> eachComp(const M& m, F f) { for (int i = 0; i < m.size(); ++i) f(m.coeff(i)); }
template <typename S> using TraitsOf = typename std::decay_t<S>::Traits;
template <typename S, typename F> void eachMember(S& s, F f) {
  boost::mp11::tuple_for_each(TraitsOf<S>::pointers_to_member, [&](auto pm) { f(s.*pm); });
}
template <typename S> std::vector<double> comps(const S& s) {
  std::vector<double> v;
  eachMember(s, [&](const auto& m) { eachComp(m, [&](const double& x) { v.push_back(x); }); });
  return v;
}
template <typename S, typename F> void eachReal(S& s, F f) { eachMember(s, [&](auto& m) { eachComp(m, f); }); }
// one lane of a chunk, same component order
template <typename S> std::vector<double> lane(const S& s, int l) {
  std::vector<double> v;
  eachMember(s, [&](const auto& m) { for (int r = 0; r < m.rows(); ++r) v.push_back(m(r, l)); });
  return v;
}
template <typename SA> void setLane(SA& a, int l, const std::vector<double>& v) {
  std::size_t k = 0;
  eachMember(a, [&](auto& m) { for (int r = 0; r < m.rows(); ++r) m(r, l) = v[k++]; });
}
inline void same(const std::vector<double>& a, const std::vector<double>& b, const char* label) {
  if (a.size() != b.size()) vp_fail(label);
  for (std::size_t i = 0; i < a.size(); ++i) vp_eq(a[i], b[i], label);
}
template <typename A, typename B> void sameState(const A& a, const B& b, const char* label) { same(comps(a), comps(b), label); }
// fills everything with recognisable junk, so that an unwritten output is seen
template <typename S> void junk(S& s) { eachMember(s, [&](auto& m) { eachComp(m, [&](double& x) { x = vp_real("junk"); }); }); }
template <typename T> struct Junk { };
inline double sq(double x) { return x * x; }
// ---------------------------------------------------------------- equations
inline double pos(const char* n) { double x = vp_real(n); vp_assume(x > 0); return x; }
inline Advection2d makeEq(Type<Advection2d>) { return Advection2d{{vp_real("adv.vx"), vp_real("adv.vy")}}; }
inline Burgers1d makeEq(Type<Burgers1d>) { return Burgers1d{}; }
inline ShallowWater makeEq(Type<ShallowWater>) { return ShallowWater{}; }
template <int N> PerfectGas<N> makeEq(Type<PerfectGas<N>>) {
  PerfectGas<N> eq;
  double g = vp_real("gamma");
  vp_assume(g > 1);
  eq.gamma = g; eq.gamma_minus_1_inv = 1 / (g - 1);
  eq.gamma_array_ = Array1d::Constant(g);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(1 / (g - 1));
  eq.Rspec = pos("Rspec");
  return eq;
}
// msq: 0 = reference Mach number one, 1 = symbolic
template <int N> PerfectGasMix<N> makeEq(Type<PerfectGasMix<N>>, int species = 1, int scalars = 1, bool msq = false) {
  PerfectGasConstants c{};
  double g = vp_real("gamma");
  vp_assume(g > 1);
  c.Rspec = pos("Rspec"); c.ooRspec = 1 / c.Rspec;
  c.gamma = g; c.gamma_inv = 1 / g; c.gamma_minus_one = g - 1; c.gamma_minus_one_over_gamma = (g - 1) / g;
  c.gamma_minus_one_inv = 1 / (g - 1); c.gamma_over_gamma_minus_one = g / (g - 1);
  c.heat_capacity_at_constant_pressure = g / (g - 1); c.heat_capacity_at_constant_volume = 1 / (g - 1);
  c.gamma_array_ = Array1d::Constant(g); c.gamma_minus_one_inv_array_ = Array1d::Constant(1 / (g - 1));
  c.Msq = 1; c.Msqinv = 1;
  if (msq) { c.Msq = pos("Msq"); c.Msqinv = 1 / c.Msq; }
  return PerfectGasMix<N>(c, species, scalars);
}
// ---------------------------------------------------------------- admissible states
// Written from the defining relations, independent of the code's own completion.
inline Complete<Advection2d> makeState(const Advection2d&, const char*) { Complete<Advection2d> q; q.mass = vp_real("mass"); return q; }
inline Complete<Burgers1d> makeState(const Burgers1d&, const char*) { Complete<Burgers1d> q; q.u = vp_real("u"); return q; }
inline Complete<ShallowWater> makeState(const ShallowWater&, const char*) {
  Complete<ShallowWater> q; q.height = pos("h");
  q.momentum[0] = q.height * vp_real("v"); q.momentum[1] = q.height * vp_real("v"); return q;
}
// parametrised by r (rho = r*r), velocity and speed of sound
template <int N> Complete<PerfectGas<N>> makeState(const PerfectGas<N>& eq, const char*) {
  Complete<PerfectGas<N>> q;
  double r = pos("r"), c = pos("c"), rho = r * r, p = rho * c * c / eq.gamma, e = p / (eq.gamma - 1);
  q.density = rho;
  for (int i = 0; i < N; ++i) { double u = vp_real("u"); q.momentum[i] = rho * u; e = e + 0.5 * rho * u * u; }
  q.energy = e; q.pressure = p; q.speed_of_sound = c;
  return q;
}
template <int N> Complete<PerfectGasMix<N>> makeState(const PerfectGasMix<N>& eq, const char*) {
  Complete<PerfectGasMix<N>> q(eq);
  double r = pos("r"), c = pos("c"), rho = r * r, p = rho * c * c / eq.gamma, e = p / (eq.gamma - 1);
  q.density = rho;
  for (int i = 0; i < N; ++i) { double u = vp_real("u"); q.momentum[i] = rho * u; e = e + eq.Msq * 0.5 * rho * u * u; }
  q.energy = e; q.pressure = p; q.speed_of_sound = c;
  for (int i = 0; i < eq.n_species; ++i) q.species[i] = rho * vp_real("Y");
  for (int i = 0; i < eq.n_passive_scalars; ++i) q.passive_scalars[i] = rho * vp_real("X");
  return q;
}
template <typename Eq> CompleteArray<Eq> chunkOf(const Eq& eq, const std::vector<Complete<Eq>>& cells) {
  CompleteArray<Eq> a(eq);
  for (int l = 0; l < W; ++l) setLane(a, l, comps(cells[l]));
  return a;
}
inline std::array<bool, W> maskBits() { std::array<bool, W> m; for (int l = 0; l < W; ++l) m[l] = vp_int("mask", 0, 1) != 0; return m; }
inline MaskArray maskOf(const std::array<bool, W>& b) { MaskArray m; for (int l = 0; l < W; ++l) m(l) = b[l]; return m; }
} // namespace h
