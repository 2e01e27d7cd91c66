// C14: the stable time step is the cell width over the largest signal speed.
#include "methods.hpp"
using namespace h;
namespace {
double maxOf(double a, double b) { return vp_sel(a < b, b, a); }
double absOf(double a) { return vp_sel(a < 0, -a, a); }
template <typename Eq> double soundOf(const Eq& eq, const Complete<Eq>& q) { if constexpr (std::is_same_v<Eq, Advection2d> || std::is_same_v<Eq, Burgers1d>) return 0; else if constexpr (std::is_same_v<Eq, ShallowWater>) return std::sqrt(10.0 * q.height); else return q.speed_of_sound / std::sqrt(euler::MaSq(eq)); }
template <typename Eq> double velOf(const Eq& eq, const Complete<Eq>& q, int d) { if constexpr (std::is_same_v<Eq, Advection2d>) return eq.velocity[d]; else if constexpr (std::is_same_v<Eq, Burgers1d>) return q.u; else if constexpr (std::is_same_v<Eq, ShallowWater>) return q.momentum[d] / q.height; else return q.momentum[d] / q.density; }
// the largest signal speed of the face between two cells
template <typename Eq> double fastest(const Eq& eq, const Complete<Eq>& l, const Complete<Eq>& r, int d, int hllem) {
  const Direction dir = static_cast<Direction>(d);
  if constexpr (std::is_same_v<Eq, Advection2d>) return absOf(eq.velocity[d]);
  else if constexpr (std::is_same_v<Eq, Burgers1d>) return vp_sel(r.u < l.u, absOf(0.5 * (l.u + r.u)), maxOf(absOf(l.u), absOf(r.u)));
  else if constexpr (std::is_same_v<Eq, ShallowWater>) { ShallowWaterSignalVelocities s; auto v = s(eq, l, r, dir); return maxOf(absOf(v[0]), absOf(v[1])); }
  else if (!hllem) { EinfeldtSignalVelocities<Eq> s; auto v = s(eq, l, r, dir); return maxOf(maxOf(0, absOf(v[0])), absOf(v[1])); }
  else {
    const double Msq = euler::MaSq(eq), Minv = 1.0 / std::sqrt(Msq);
    double wl = std::sqrt(l.density), wr = std::sqrt(r.density), ws = wl + wr, u2 = 0, u = 0;
    for (int i = 0; i < Eq::Rank(); ++i) { double v = (wl * (l.momentum[i] / l.density) + wr * (r.momentum[i] / r.density)) / ws; u2 += v * v; if (i == d) u = v; }
    double H = (wl * ((l.energy + l.pressure) / l.density) + wr * ((r.energy + r.pressure) / r.density)) / ws;
    double a = std::sqrt((eq.gamma - 1) * (H - 0.5 * Msq * u2)), m = maxOf(l.speed_of_sound, r.speed_of_sound);
    double s1 = l.momentum[d] / l.density - m * Minv, s2 = u - a * Minv, s3 = u + a * Minv, s4 = r.momentum[d] / r.density + m * Minv;
    return maxOf(absOf(vp_sel(s1 < s2, s1, s2)), absOf(vp_sel(s3 < s4, s4, s3)));
  }
}
template <typename T> constexpr int isHllem = std::is_same_v<T, void>;
template <typename M> constexpr bool hllemBased = false;
template <typename E, bool L> constexpr bool hllemBased<perfect_gas::Hllem<E, L>> = true;
template <typename E, typename G, typename Rc, typename B> constexpr bool hllemBased<MusclHancock2<E, G, Rc, B>> = hllemBased<B>;
template <typename T> double want(const typename T::Eq& eq, const std::vector<StateOf<T>>& s, int d) { const int k = width<T> / 2; return fastest(eq, s[k - 1], s[k], d, hllemBased<typename T::Method>); }
// the same in the shape in which the HLL method computes it
template <typename T> double widest(const typename T::Eq& eq, const std::vector<StateOf<T>>& s, int d) {
  using Eq = typename T::Eq; const int k = width<T> / 2; const Direction dir = static_cast<Direction>(d);
  if constexpr (std::is_same_v<Eq, Advection2d> || std::is_same_v<Eq, Burgers1d> || std::is_same_v<Eq, ShallowWater> || hllemBased<typename T::Method>) return want<T>(eq, s, d);
  else { EinfeldtSignalVelocities<Eq> f; double m = 0; for (double x : f(eq, s[k - 1], s[k], dir)) m = std::max(m, std::abs(x)); return m; }
}
template <typename Eq> bool moving(const Eq& eq, const Complete<Eq>& l, const Complete<Eq>& r, int d) {
  if constexpr (std::is_same_v<Eq, Advection2d> || std::is_same_v<Eq, Burgers1d>) return velOf(eq, l, d) + velOf(eq, r, d) != 0; else return true;
}
template <typename T> std::vector<StateOf<T>> stencil(const typename T::Eq& eq, int d, bool equal) {
  auto s = makeStencil<T>(eq); const int k = width<T> / 2;
  if (equal) s[k] = s[k - 1];
  vp_assume(moving(eq, s[k - 1], s[k], d));
  if (!equal) vp_assume(widest<T>(eq, s, d) > 0); // follows from C12: the signals enclose u - c and u + c with c > 0
  return s;
}
template <typename T> void scalar(bool equal) {
  auto eq = symEq<typename T::Eq>(vp_param("msq", 0)); const int d = vp_param("dir", 0), k = width<T> / 2; const Direction dir = static_cast<Direction>(d);
  typename T::Method m = T::make(eq);
  auto s = stencil<T>(eq, d, equal);
  double dx = pos("dx");
  double dt = m.ComputeStableDt(asSpan<T>(s), dx, dir);
  if (equal) vp_eq(dt, dx / (absOf(velOf(eq, s[k], d)) + soundOf(eq, s[k])), "equal cells: the stable time step is the time the fastest wave needs to cross a cell");
  else vp_eq(dt, dx / want<T>(eq, s, d), "the stable time step is the cell width over the largest signal speed of the middle face");
  vp_cover("dt");
}
// the waves of both cells next to the face cross at most one cell
template <typename T> void cfl() {
  auto eq = symEq<typename T::Eq>(vp_param("msq", 0)); const int d = vp_param("dir", 0), k = width<T> / 2; const Direction dir = static_cast<Direction>(d);
  typename T::Method m = T::make(eq);
  auto s = stencil<T>(eq, d, false);
  double dx = pos("dx");
  double dt = m.ComputeStableDt(asSpan<T>(s), dx, dir);
  vp_assert(dt > 0, "the stable time step is positive");
  if constexpr (!std::is_same_v<typename T::Eq, Burgers1d>) {
    vp_le(dt * (velOf(eq, s[k], d) + soundOf(eq, s[k])), dx, "the fastest wave of the right cell to the right stays within one cell");
    vp_le(dt * (soundOf(eq, s[k - 1]) - velOf(eq, s[k - 1], d)), dx, "the fastest wave of the left cell to the left stays within one cell");
  }
  vp_cover("dt");
}
template <typename T, int Masked> void array(bool equal) {
  using Eq = typename T::Eq; using A = CompleteArray<Eq>;
  auto eq = symEq<Eq>(vp_param("msq", 0)); const int d = vp_param("dir", 0), c = width<T> / 2; const Direction dir = static_cast<Direction>(d);
  typename T::Method m = T::make(eq);
  std::vector<std::vector<StateOf<T>>> lanes; std::array<double, W> face; face.fill(1);
  for (int l = 0; l < W; ++l) {
    lanes.push_back(stencil<T>(eq, d, equal));
    if (Masked) { int b = vp_int("mask", 0, 1); face[l] = 0; if (b) { face[l] = vp_real("face"); vp_assume(face[l] > 0 && face[l] <= 1); } else for (auto& q : lanes[l]) junk(q); }
  }
  auto a = chunks<T>(eq, lanes);
  double dx = pos("dx");
  Array1d dt;
  if constexpr (Masked) {
    Array1d ff; for (int l = 0; l < W; ++l) ff(l) = face[l];
    std::array<Array1d, width<T>> v; v.fill(ff);
    dt = m.ComputeStableDt(span<const A, width<T>>(a.data(), width<T>), ff, span<const Array1d, width<T>>(v), dx, dir);
  } else dt = m.ComputeStableDt(span<const A, width<T>>(a.data(), width<T>), dx, dir);
  for (int l = 0; l < W; ++l) {
    if (face[l] == 0) { vp_assert(dt(l) > 1e300, "a closed face does not limit the time step"); continue; }
    if (equal) vp_eq(dt(l), dx / (absOf(velOf(eq, lanes[l][c], d)) + soundOf(eq, lanes[l][c])), "equal cells, chunk: the stable time step is the time the fastest wave needs to cross a cell");
    else if (vp_param("lane", l) == l) vp_eq(dt(l), vp_param("ref", 0) ? m.ComputeStableDt(asSpan<T>(lanes[l]), dx, dir) : dx / want<T>(eq, lanes[l], d), "the stable time step of a chunk is the cell width over the largest signal speed in every lane");
  }
  vp_cover("dt");
}
// any signal speeds: HLL's step is the width over the larger magnitude, inner two cells only for the second-order method
double SL, SR; std::vector<double> seen;
struct MockSignals {
  template <typename E> std::array<double, 2> operator()(const E&, const Complete<E>& l, const Complete<E>& r, Direction) { seen = comps(l); auto b = comps(r); seen.insert(seen.end(), b.begin(), b.end()); return {SL, SR}; }
  template <typename E> std::array<Array1d, 2> operator()(const E&, const CompleteArray<E>&, const CompleteArray<E>&, Direction) { return {Array1d::Constant(SL), Array1d::Constant(SR)}; }
  template <typename E> std::array<Array1d, 2> operator()(const E&, const CompleteArray<E>&, const CompleteArray<E>&, const MaskArray&, Direction) { return {Array1d::Constant(SL), Array1d::Constant(SR)}; }
};
template <typename E> void mock() {
  E eq = symEq<E>(); const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  SL = vp_real("sL"); SR = vp_real("sR"); vp_assume(SL < SR);
  using B = HllMethod<E, MockSignals>;
  B m(eq, MockSignals{}); MusclHancock<E, B, MinMod> m2(eq, m);
  std::vector<Complete<E>> s; for (int i = 0; i < 4; ++i) s.push_back(makeState(eq, "q"));
  double dx = pos("dx"), w = dx / maxOf(absOf(SL), absOf(SR));
  vp_eq(m.ComputeStableDt(span<const Complete<E>, 2>(&s[1], 2), dx, dir), w, "HLL: the cell width over the larger signal speed");
  auto one = seen;
  vp_eq(m2.ComputeStableDt(span<const Complete<E>, 4>(&s[0], 4), dx, dir), w, "second order: the step of the middle face");
  same(seen, one, "second order: signals of the two cells next to the face");
  vp_cover("dt");
}
} // namespace
#define M(name, ...) VP_ENTRY s_##name() { scalar<__VA_ARGS__>(vp_param("equal", 0)); } VP_ENTRY c_##name() { cfl<__VA_ARGS__>(); } VP_ENTRY a_##name() { array<__VA_ARGS__, 0>(vp_param("equal", 0)); }
#include "method_list.inc"
#undef M
#if VPG == 1
VP_ENTRY mock_shallow() { mock<ShallowWater>(); } VP_ENTRY mock_adv() { mock<Advection2d>(); }
VP_ENTRY m_god_adv() { array<GodAdv, 1>(false); } VP_ENTRY m_god_burgers() { array<GodBurgers, 1>(false); }
#elif VPG == 2
#define M(n) VP_ENTRY m_hll_gas##n() { array<HllGas<n>, 1>(false); } VP_ENTRY mock_gas##n() { mock<PerfectGas<n>>(); } VP_ENTRY m_hll_mix##n() { array<HllMix<n>, 1>(false); } VP_ENTRY mock_mix##n() { mock<PerfectGasMix<n>>(); }
M(1) M(2) M(3)
#elif VPG == 3
VP_ENTRY m_mh_gas1() { array<MhGas<1, MinMod>, 1>(false); } VP_ENTRY m_mh_gas3() { array<MhGas<3, MinMod>, 1>(false); }
#elif VPG == 4
#define M(n) VP_ENTRY m_hllem_gas##n() { array<HllemGas<n>, 1>(false); }
M(1) M(2) M(3)
VP_ENTRY m_hllem_mix1() { array<HllemMix<1>, 1>(false); } VP_ENTRY m_hllem_mix2() { array<HllemMix<2>, 1>(false); }
#elif VPG == 6
VP_ENTRY m_mh2c_gas1() { array<Mh2Cons<PerfectGas<1>, MinModLimiter>, 1>(false); } VP_ENTRY m_mh2p_gas2() { array<Mh2Prim<PerfectGas<2>, VanLeerLimiter>, 1>(false); }
#endif
