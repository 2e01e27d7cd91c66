// C13: the HLL flux is upwind when supersonic and conservative in between, for every choice of signal speeds.
#include "methods.hpp"
using namespace h;
namespace {
double SL[W], SR[W]; std::array<bool, W> act; int calls;
struct MockSignals { // any two different speeds, the lower one first
  template <typename E> std::array<double, 2> operator()(const E&, const Complete<E>&, const Complete<E>&, Direction) { ++calls; return {SL[0], SR[0]}; }
  template <typename E> std::array<Array1d, 2> operator()(const E&, const CompleteArray<E>&, const CompleteArray<E>&, Direction) { Array1d a, b; for (int i = 0; i < W; ++i) { a(i) = SL[i]; b(i) = SR[i]; } return {a, b}; }
  template <typename E> std::array<Array1d, 2> operator()(const E&, const CompleteArray<E>&, const CompleteArray<E>&, const MaskArray& m, Direction) { Array1d a, b; for (int i = 0; i < W; ++i) { a(i) = m(i) ? SL[i] : 0.0; b(i) = m(i) ? SR[i] : 0.0; } return {a, b}; }
};
void signals() { for (int i = 0; i < W; ++i) { SL[i] = vp_real("sL"); SR[i] = vp_real("sR"); vp_assume(SL[i] < SR[i]); } act.fill(true); }
template <typename Q> auto press(const Q& q, int) -> decltype(double(q.pressure)) { return q.pressure; }
template <typename Q> double press(const Q&, long) { return 0; }
// every relation the flux f, the state in the fan and the pressure obey
template <typename E> void relations(const E& eq, const Complete<E>& l, const Complete<E>& r, const std::vector<double>& f, const double* p, int k, Direction dir) {
  auto fL = physFlux(eq, l, dir), fR = physFlux(eq, r, dir);
  Conservative<E> cl = AsCons(l), cr = AsCons(r);
  auto qL = comps(cl), qR = comps(cr);
  const double a = SL[k], b = SR[k];
  for (std::size_t i = 0; i < f.size(); ++i) {
    // the state between the waves that conserves everything: b (qR - q) - a (qL - q) = fR - fL
    double q = (b * qR[i] - a * qL[i] + fL[i] - fR[i]) / (b - a);
    double fromL = fL[i] + a * (q - qL[i]), fromR = fR[i] + b * (q - qR[i]);
    double want = vp_sel(a >= 0, fL[i], vp_sel(b <= 0, fR[i], fromL));
    vp_eq(f[i], want, "the flux is the left / right physical flux when all signals move right / left, else F_L + sL (q* - qL)");
    vp_eq(f[i], vp_sel(a >= 0, fL[i], vp_sel(b <= 0, fR[i], fromR)), "the flux conserves over the fan seen from the right as well");
  }
  if (p) { double pL = press(l, 0), pR = press(r, 0); vp_eq(*p, vp_sel(a >= 0, pL, vp_sel(b <= 0, pR, (b * pL - a * pR) / (b - a))), "the interface pressure interpolates between the two states like the flux"); }
}
template <typename E> void fan(const E& eq, const Complete<E>& l, const Complete<E>& r, const std::vector<double>& s, int k, Direction dir) {
  auto fL = physFlux(eq, l, dir), fR = physFlux(eq, r, dir);
  Conservative<E> cl = AsCons(l), cr = AsCons(r);
  auto qL = comps(cl), qR = comps(cr);
  for (std::size_t i = 0; i < qL.size(); ++i) {
    double q = (SR[k] * qR[i] - SL[k] * qL[i] + fL[i] - fR[i]) / (SR[k] - SL[k]);
    vp_eq(s[i], vp_sel(0 < SL[k], qL[i], vp_sel(SR[k] < 0, qR[i], q)), "the state in the fan conserves every total; upwind when supersonic");
  }
}
template <typename E> void scalar() {
  E eq = symEq<E>(vp_param("msq", 0)); const Direction dir = static_cast<Direction>(vp_param("dir", 0));
  signals();
  HllMethod<E, MockSignals> m(eq, MockSignals{});
  std::vector<Complete<E>> s; for (int i = 0; i < 2; ++i) s.push_back(makeState(eq, "q"));
  Conservative<E> f(eq); junk(f);
  double dt = pos("dt"), dx = pos("dx");
  if constexpr (std::is_void_v<decltype(m.ComputeNumericFlux(f, span<const Complete<E>, 2>(s.data(), 2), Duration(dt), dx, dir))>) {
    m.ComputeNumericFlux(f, span<const Complete<E>, 2>(s.data(), 2), Duration(dt), dx, dir); relations(eq, s[0], s[1], comps(f), nullptr, 0, dir);
  } else {
    double p = m.ComputeNumericFlux(f, span<const Complete<E>, 2>(s.data(), 2), Duration(dt), dx, dir); relations(eq, s[0], s[1], comps(f), &p, 0, dir);
  }
  vp_cover("flux");
}
template <typename E> void riemann() {
  E eq = symEq<E>(vp_param("msq", 0)); const Direction dir = static_cast<Direction>(vp_param("dir", 0));
  signals();
  HllMethod<E, MockSignals> m(eq, MockSignals{});
  Complete<E> l = makeState(eq, "q"), r = makeState(eq, "q"), s(eq); junk(s);
  if constexpr (is_detected<meta::has_member_variable_pressure_t, Complete<E>>::value) { // arbitrary signals may leave the admissible states
    auto fL = physFlux(eq, l, dir), fR = physFlux(eq, r, dir); Conservative<E> q = AsCons(l), qr = AsCons(r); auto a = comps(q), b = comps(qr); std::size_t i = 0;
    eachReal(q, [&](double& x) { x = (SR[0] * b[i] - SL[0] * a[i] + fL[i] - fR[i]) / (SR[0] - SL[0]); ++i; });
    double k = 0; for (int d = 0; d < E::Rank(); ++d) k += q.momentum[d] * q.momentum[d];
    if (!(0 < SL[0]) && !(SR[0] < 0)) { vp_assume(q.density > 0); vp_assume(q.energy > euler::MaSq(eq) * 0.5 * k / q.density); }
  }
  m.SolveRiemannProblem(s, l, r, dir);
  Conservative<E> c = AsCons(s);
  fan(eq, l, r, comps(c), 0, dir);
  vp_cover("state");
}
template <typename E, int Masked> void array() {
  E eq = symEq<E>(vp_param("msq", 0)); const Direction dir = static_cast<Direction>(vp_param("dir", 0));
  signals();
  HllMethod<E, MockSignals> m(eq, MockSignals{});
  std::vector<Complete<E>> l, r; std::array<double, W> face; face.fill(1);
  for (int k = 0; k < W; ++k) {
    l.push_back(makeState(eq, "q")); r.push_back(makeState(eq, "q"));
    if constexpr (Masked) { act[k] = vp_int("mask", 0, 1); face[k] = act[k] ? vp_real("face") : 0.0; if (act[k]) vp_assume(face[k] > 0 && face[k] <= 1); else { junk(l[k]); junk(r[k]); } }
  }
  std::array<CompleteArray<E>, 2> s{chunkOf(eq, l), chunkOf(eq, r)};
  ConservativeArray<E> f(eq); junk(f);
  double dt = pos("dt"), dx = pos("dx");
  Array1d p; for (int k = 0; k < W; ++k) p(k) = vp_real("junk");
  constexpr bool hasp = isMixEq<E> || is_detected<meta::has_member_variable_pressure_t, Complete<E>>::value;
  span<const CompleteArray<E>, 2> st(s.data(), 2);
  if constexpr (Masked) {
    Array1d ff; for (int k = 0; k < W; ++k) ff(k) = face[k];
    std::array<Array1d, 2> v{ff, ff};
    p = m.ComputeNumericFlux(f, ff, st, span<const Array1d, 2>(v), Duration(dt), dx, dir);
  } else if constexpr (hasp) p = m.ComputeNumericFlux(f, st, Duration(dt), dx, dir);
  else m.ComputeNumericFlux(f, st, Duration(dt), dx, dir);
  for (int k = 0; k < W; ++k) if (act[k]) { double pk = p(k); relations(eq, l[k], r[k], lane(f, k), hasp ? &pk : nullptr, k, dir); }
  if constexpr (!Masked) {
    CompleteArray<E> q(eq); junk(q);
    m.SolveRiemannProblem(q, s[0], s[1], dir);
    for (int k = 0; k < W; ++k) { Complete<E> c(eq); auto v = lane(q, k); std::size_t i = 0; eachReal(c, [&](double& x) { x = v[i++]; }); Conservative<E> cc = AsCons(c); fan(eq, l[k], r[k], comps(cc), k, dir); }
  }
  vp_cover("flux");
}
// HLLEM: upwind when every signal of the linearised problem moves to one side
template <typename M> constexpr bool larr = false;
template <typename E> constexpr bool larr<perfect_gas::Hllem<E, true>> = true;
template <typename T> void assumeSupersonic(const typename T::Eq& eq, const StateOf<T>& l, const StateOf<T>& r, int d, int side) {
  const double Msq = euler::MaSq(eq), Minv = 1.0 / std::sqrt(Msq);
  double wl = std::sqrt(l.density), wr = std::sqrt(r.density), ws = wl + wr;
  auto sum = [](const StateOf<T>& q, int d) { double k = 0; for (int i = 0; i < T::Eq::Rank(); ++i) if (i != d) k += sq(q.momentum[i] / q.density); return k; };
  double el = l.energy, er = r.energy, u2 = 0;
  for (int i = 0; i < T::Eq::Rank(); ++i) {
    if (larr<typename T::Method> && i != d) continue;
    u2 += sq((wl * (l.momentum[i] / l.density) + wr * (r.momentum[i] / r.density)) / ws);
  }
  if (larr<typename T::Method>) { el -= 0.5 * Msq * l.density * sum(l, d); er -= 0.5 * Msq * r.density * sum(r, d); }
  double u = (wl * (l.momentum[d] / l.density) + wr * (r.momentum[d] / r.density)) / ws;
  double H = (wl * ((el + l.pressure) / l.density) + wr * ((er + r.pressure) / r.density)) / ws;
  double a = std::sqrt((eq.gamma - 1) * (H - 0.5 * Msq * u2));
  double uL = l.momentum[d] / l.density, uR = r.momentum[d] / r.density;
  if (side) { vp_assume(u + a * Minv < 0); for (double c : {l.speed_of_sound, r.speed_of_sound}) vp_assume(uR + c * Minv < 0); }
  else { vp_assume(u - a * Minv > 0); for (double c : {l.speed_of_sound, r.speed_of_sound}) vp_assume(uL - c * Minv > 0); }
}
template <typename T> void superScalar() {
  auto eq = symEq<typename T::Eq>(vp_param("msq", 0)); const int d = vp_param("dir", 0), side = vp_param("side", 0); const Direction dir = static_cast<Direction>(d);
  typename T::Method m = T::make(eq);
  auto st = makeStencil<T>(eq);
  assumeSupersonic<T>(eq, st[0], st[1], d, side);
  double dt = pos("dt"), dx = pos("dx");
  same(numFlux<T>(m, st, dt, dx, dir), physFlux(eq, st[side], dir), "supersonic flow: the flux is that of the upwind state");
  vp_cover("flux");
}
template <typename T> void superArray() {
  auto eq = symEq<typename T::Eq>(vp_param("msq", 0)); const int d = vp_param("dir", 0), side = vp_param("side", 0); const Direction dir = static_cast<Direction>(d);
  typename T::Method m = T::make(eq);
  std::vector<std::vector<StateOf<T>>> lanes;
  for (int l = 0; l < W; ++l) { lanes.push_back(makeStencil<T>(eq)); if (l == vp_param("lane", 0)) assumeSupersonic<T>(eq, lanes[l][0], lanes[l][1], d, side); }
  double dt = pos("dt"), dx = pos("dx");
  auto f = numFluxArray<T>(m, chunks<T>(eq, lanes), dt, dx, dir);
  for (int l = 0; l < W; ++l) if (l == vp_param("lane", 0)) same(lane(f, l), physFlux(eq, lanes[l][side], dir), "supersonic flow: the chunked flux is that of the upwind state");
  vp_cover("flux");
}
} // namespace
#ifdef VPG
#define M(name, ...) VP_ENTRY s_##name() { superScalar<__VA_ARGS__>(); } VP_ENTRY a_##name() { superArray<__VA_ARGS__>(); }
#include "method_list.inc"
#else
#define S(name, ...) VP_ENTRY s_##name() { scalar<__VA_ARGS__>(); } VP_ENTRY r_##name() { riemann<__VA_ARGS__>(); }
#define M(name, ...) S(name, __VA_ARGS__) VP_ENTRY a_##name() { array<__VA_ARGS__, 0>(); }
#define MM(name, ...) M(name, __VA_ARGS__) VP_ENTRY m_##name() { array<__VA_ARGS__, 1>(); }
M(adv, Advection2d) S(burgers, Burgers1d) M(shallow, ShallowWater)
MM(gas1, PerfectGas<1>) MM(gas2, PerfectGas<2>) MM(gas3, PerfectGas<3>)
MM(mix1, PerfectGasMix<1>) MM(mix2, PerfectGasMix<2>) MM(mix3, PerfectGasMix<3>)
#endif
