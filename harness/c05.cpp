// C05: thermodynamic completion.
#include "gas.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/equations/EulerEquation.hpp"
using namespace fub;
namespace {
using V = std::vector<double>;
template <typename Eq> constexpr bool isMix = std::is_base_of_v<PerfectGasConstants, Eq>;
template <typename Eq> constexpr bool isGas = !std::is_same_v<Eq, Advection2d> && !std::is_same_v<Eq, Burgers1d> && !std::is_same_v<Eq, ShallowWater>;
template <typename Eq> Eq make(bool msq = true) {
  if constexpr (!isMix<Eq>) return h::makeEq(Type<Eq>{});
  else return h::makeEq(Type<Eq>{}, vp_param("species", 1), vp_param("scalars", 1), msq);
}
template <typename Eq> Conservative<Eq> consOf(const Eq& eq, const Complete<Eq>& q) {
  Conservative<Eq> c(eq);
  V v = h::comps(q); std::size_t k = 0;
  h::eachReal(c, [&](double& x) { x = v[k++]; });
  return c;
}
// ---- conservative -> complete
template <typename Eq> void consScalar() {
  Eq eq = make<Eq>();
  Complete<Eq> q = h::makeState(eq, "q");
  Conservative<Eq> c = consOf(eq, q);
  Complete<Eq> out(eq); h::junk(out);
  CompleteFromCons(eq, out, c);
  h::sameState(out, q, "completed state");
  Complete<Eq> twice(eq); h::junk(twice);
  CompleteFromCons(eq, twice, out);
  h::sameState(twice, q, "completing twice");
  CompleteFromCons(eq, twice, twice);
  h::sameState(twice, q, "completing in place");
  vp_cover("single cell completed");
}
template <typename Eq> void consArray() {
  Eq eq = make<Eq>();
  std::vector<Complete<Eq>> c;
  ConservativeArray<Eq> a(eq);
  for (int l = 0; l < h::W; ++l) { c.push_back(h::makeState(eq, "q")); h::setLane(a, l, h::comps(consOf(eq, c[l]))); }
  CompleteArray<Eq> out(eq); h::junk(out);
  CompleteFromCons(eq, out, a);
  for (int l = 0; l < h::W; ++l) h::same(h::lane(out, l), h::comps(c[l]), "completed lane");
  CompleteArray<Eq> twice(eq); h::junk(twice);
  CompleteFromCons(eq, twice, out);
  for (int l = 0; l < h::W; ++l) h::same(h::lane(twice, l), h::comps(c[l]), "completing a chunk twice");
  vp_cover("chunk completed");
}
template <typename Eq> void consMasked() {
  Eq eq = make<Eq>();
  auto bits = h::maskBits();
  std::vector<Complete<Eq>> c;
  ConservativeArray<Eq> a(eq);
  for (int l = 0; l < h::W; ++l) {
    c.push_back(h::makeState(eq, "q"));
    V v = h::comps(consOf(eq, c[l]));
    for (std::size_t k = 0; k < v.size(); ++k) v[k] = vp_sel(bits[l], v[k], (k == 0 && vp_param("vacuum", 0)) ? 0 : vp_real("inactive"));
    h::setLane(a, l, v);
  }
  CompleteArray<Eq> out(eq); h::junk(out);
  eq.CompleteFromCons(out, a, h::maskOf(bits));
  for (int l = 0; l < h::W; ++l) {
    V e = h::comps(c[l]), o = h::lane(out, l);
    for (std::size_t k = 0; k < e.size(); ++k) {
      vp_eq(vp_sel(bits[l], o[k], 0), vp_sel(bits[l], e[k], 0), "completed active lane");
      vp_eq(vp_sel(bits[l], 0, o[k]), 0, "inactive lane of a masked completion is empty");
    }
  }
  vp_cover("masked chunk completed");
}
// ---- primitive <-> complete
template <typename Eq> Primitive<Eq> primOf(const Eq& eq, const Complete<Eq>& q) { // from the defining relations
  Primitive<Eq> w(eq);
  w.density = q.density;
  for (int i = 0; i < Eq::Rank(); ++i) w.velocity[i] = q.momentum[i] / q.density;
  w.pressure = q.pressure;
  if constexpr (isMix<Eq>) {
    for (int i = 0; i < eq.n_species; ++i) w.species[i] = q.species[i] / q.density;
    for (int i = 0; i < eq.n_passive_scalars; ++i) w.passive_scalars[i] = q.passive_scalars[i] / q.density;
  }
  return w;
}
template <typename Eq> void primScalar() {
  Eq eq = make<Eq>();
  Complete<Eq> q = h::makeState(eq, "q");
  Primitive<Eq> w = primOf(eq, q);
  Complete<Eq> out(eq); h::junk(out);
  CompleteFromPrim(eq, out, w);
  h::sameState(out, q, "complete state from primitive state");
  Primitive<Eq> back(eq); h::junk(back);
  PrimFromComplete(eq, back, out);
  h::sameState(back, w, "primitive state from complete state");
  for (int i = 0; i < Eq::Rank(); ++i) vp_eq(eq.Velocity(q)[i], w.velocity[i], "velocity");
  vp_eq(eq.Temperature(q) * (isMix<Eq> ? 1.0 : eq.Rspec) * q.density, q.pressure, "temperature obeys the gas law");
  double m = eq.Machnumber(q), u2 = 0;
  for (int i = 0; i < Eq::Rank(); ++i) u2 += h::sq(w.velocity[i]);
  vp_eq(m * m * h::sq(q.speed_of_sound), u2, "Mach number");
  vp_le(0, m, "Mach number sign");
  vp_cover("primitive");
}
template <typename Eq> void primArray() {
  Eq eq = make<Eq>();
  std::vector<Complete<Eq>> c;
  PrimitiveArray<Eq> a(eq);
  for (int l = 0; l < h::W; ++l) { c.push_back(h::makeState(eq, "q")); h::setLane(a, l, h::comps(primOf(eq, c[l]))); }
  CompleteArray<Eq> out(eq); h::junk(out);
  CompleteFromPrim(eq, out, a);
  for (int l = 0; l < h::W; ++l) h::same(h::lane(out, l), h::comps(c[l]), "complete lane from primitive lane");
  PrimitiveArray<Eq> back(eq); h::junk(back);
  PrimFromComplete(eq, back, out);
  auto vel = eq.Velocity(out);
  Array1d T = eq.Temperature(out);
  for (int l = 0; l < h::W; ++l) {
    h::same(h::lane(back, l), h::comps(primOf(eq, c[l])), "primitive lane from complete lane");
    for (int i = 0; i < Eq::Rank(); ++i) vp_eq(vel(i, l), c[l].momentum[i] / c[l].density, "velocity of a lane");
    vp_eq(T(l) * (isMix<Eq> ? 1.0 : eq.Rspec) * c[l].density, c[l].pressure, "temperature of a lane");
  }
  vp_cover("primitive chunk");
}
template <int N> void primMasked() {
  using Eq = PerfectGas<N>;
  Eq eq = make<Eq>();
  auto bits = h::maskBits();
  std::vector<Complete<Eq>> c;
  PrimitiveArray<Eq> a(eq);
  for (int l = 0; l < h::W; ++l) {
    c.push_back(h::makeState(eq, "q"));
    V v = h::comps(primOf(eq, c[l]));
    for (std::size_t k = 0; k < v.size(); ++k) v[k] = vp_sel(bits[l], v[k], (k == 0 && vp_param("vacuum", 0)) ? 0 : vp_real("inactive"));
    h::setLane(a, l, v);
  }
  CompleteArray<Eq> out = eq.CompleteFromPrim(a.density, a.velocity, a.pressure, h::maskOf(bits));
  for (int l = 0; l < h::W; ++l) {
    V e = h::comps(c[l]), o = h::lane(out, l);
    for (std::size_t k = 0; k < e.size(); ++k) {
      vp_eq(vp_sel(bits[l], o[k], 0), vp_sel(bits[l], e[k], 0), "complete active lane from primitive lane");
      vp_eq(vp_sel(bits[l], 0, o[k]), 0, "inactive lane from primitive data is empty");
    }
  }
  vp_cover("masked primitive");
}
// ---- kinetic state <-> complete
template <int N> struct Kin { KineticState<PerfectGasMix<N>> k; Array<double, N, 1> u; Complete<PerfectGasMix<N>> q; };
template <int N> Kin<N> makeKin(const PerfectGasMix<N>& eq) {
  Kin<N> r{KineticState<PerfectGasMix<N>>(eq), {}, Complete<PerfectGasMix<N>>(eq)};
  double rr = h::pos("r"), c = h::pos("c");
  double rho = rr * rr, T = c * c / eq.gamma, e = rho * T / (eq.gamma - 1);
  r.k.density = rho; r.k.temperature = T; r.q.density = rho; r.q.pressure = rho * T; r.q.speed_of_sound = c;
  for (int i = 0; i < N; ++i) { r.u[i] = vp_real("u"); r.q.momentum[i] = rho * r.u[i]; e = e + 0.5 * eq.Msq * rho * r.u[i] * r.u[i]; }
  r.q.energy = e;
  double last = 1;
  for (int i = 0; i < eq.n_species; ++i) { double x = vp_real("X"); vp_assume(x >= 0); r.k.mole_fractions[i] = x; r.q.species[i] = rho * x; last = last - x; }
  vp_assume(last >= 0);
  r.k.mole_fractions[eq.n_species] = last;
  for (int i = 0; i < eq.n_passive_scalars; ++i) { double x = vp_real("S"); r.k.passive_scalars[i] = x; r.q.passive_scalars[i] = rho * x; }
  return r;
}
template <int N> void kinScalar() {
  using Eq = PerfectGasMix<N>;
  Eq eq = make<Eq>();
  Kin<N> r = makeKin<N>(eq);
  Complete<Eq> out(eq); h::junk(out);
  euler::CompleteFromKineticState(eq, out, r.k, r.u);
  h::sameState(out, r.q, "complete state from kinetic state");
  KineticState<Eq> back(eq); h::junk(back);
  euler::KineticStateFromComplete(eq, back, r.q);
  h::sameState(back, r.k, "kinetic state from complete state");
  vp_eq(euler::InternalEnergy(eq, r.q), euler::InternalEnergy(eq, r.k), "internal energy agrees");
  vp_eq(euler::Pressure(eq, r.k), r.q.pressure, "pressure of a kinetic state");
  vp_eq(euler::Temperature(eq, r.q), r.k.temperature, "temperature of a complete state");
  vp_eq(euler::TotalEnthalpy(eq, r.q) * r.q.density, r.q.energy + r.q.pressure, "total enthalpy");
  // at rest
  euler::CompleteFromKineticState(eq, out, r.k);
  vp_eq(out.energy, r.q.pressure / (eq.gamma - 1), "kinetic state without velocity is at rest");
  for (int i = 0; i < N; ++i) vp_eq(out.momentum[i], 0, "kinetic state without velocity is at rest");
  vp_cover("kinetic");
}
template <int N> void kinArray() {
  using Eq = PerfectGasMix<N>;
  Eq eq = make<Eq>();
  std::vector<Kin<N>> c;
  KineticStateArray<Eq> a(eq);
  Array<double, N> u;
  CompleteArray<Eq> qa(eq);
  for (int l = 0; l < h::W; ++l) {
    c.push_back(makeKin<N>(eq));
    h::setLane(a, l, h::comps(c[l].k)); h::setLane(qa, l, h::comps(c[l].q));
    for (int i = 0; i < N; ++i) u(i, l) = c[l].u[i];
  }
  CompleteArray<Eq> out(eq); h::junk(out);
  euler::CompleteFromKineticState(eq, out, a, u);
  for (int l = 0; l < h::W; ++l) h::same(h::lane(out, l), h::comps(c[l].q), "complete lane from kinetic lane");
  KineticStateArray<Eq> back(eq); h::junk(back);
  euler::KineticStateFromComplete(eq, back, qa);
  for (int l = 0; l < h::W; ++l) h::same(h::lane(back, l), h::comps(c[l].k), "kinetic lane from complete lane");
  vp_cover("kinetic chunk");
}
// pressure of conserved data and velocity replacement
template <int N> void helpers() {
  using Eq = PerfectGasMix<N>;
  Eq eq = make<Eq>();
  Complete<Eq> q = h::makeState(eq, "q");
  Conservative<Eq> c = consOf(eq, q);
  vp_eq(euler::Pressure(eq, c), q.pressure, "pressure of a conserved state");
  Array<double, N, 1> v;
  for (int i = 0; i < N; ++i) v[i] = vp_real("v");
  double ekin = 0;
  for (int i = 0; i < N; ++i) ekin += 0.5 * eq.Msq * q.density * v[i] * v[i];
  euler::SetVelocity(eq, c, v);
  for (int i = 0; i < N; ++i) vp_eq(c.momentum[i], q.density * v[i], "replaced velocity");
  vp_eq(c.energy, q.pressure / (eq.gamma - 1) + ekin, "replacing the velocity keeps the internal energy");
  vp_cover("helpers");
}
} // namespace
#define GAS(F) \
  VP_ENTRY F##_gas1() { F<PerfectGas<1>>(); } \
  VP_ENTRY F##_gas2() { F<PerfectGas<2>>(); } \
  VP_ENTRY F##_gas3() { F<PerfectGas<3>>(); } \
  VP_ENTRY F##_mix1() { F<PerfectGasMix<1>>(); } \
  VP_ENTRY F##_mix2() { F<PerfectGasMix<2>>(); } \
  VP_ENTRY F##_mix3() { F<PerfectGasMix<3>>(); }
GAS(consScalar) GAS(consArray) GAS(consMasked) GAS(primScalar) GAS(primArray)
VP_ENTRY primMasked_gas1() { primMasked<1>(); }
VP_ENTRY primMasked_gas2() { primMasked<2>(); }
VP_ENTRY primMasked_gas3() { primMasked<3>(); }
#define MIX(F) \
  VP_ENTRY F##_mix1() { F<1>(); } \
  VP_ENTRY F##_mix2() { F<2>(); } \
  VP_ENTRY F##_mix3() { F<3>(); }
MIX(kinScalar) MIX(kinArray) MIX(helpers)
VP_ENTRY cons_simple() { consScalar<Advection2d>(); consScalar<Burgers1d>(); consScalar<ShallowWater>(); }
VP_ENTRY consArray_simple() { consArray<Advection2d>(); consArray<Burgers1d>(); consArray<ShallowWater>(); }
