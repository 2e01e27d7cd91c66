// C23: reflecting walls; reflection and rotation of states.
#include "patch.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/ext/Eigen.hpp"
using namespace fub;
namespace {
template <typename E> E eq() { if constexpr (std::is_base_of_v<h::PerfectGasConstants, E>) return h::makeEq(Type<E>{}, vp_param("species", 2), vp_param("scalars", 1)); else return h::makeEq(Type<E>{}); }
template <typename E> Complete<E> fresh(const E& e) { return Complete<E>(e); }
template <typename S> void put(S& s, const std::vector<double>& v) { std::size_t k = 0; h::eachMember(s, [&](auto& m) { h::eachComp(m, [&](double& x) { x = v[k++]; }); }); }
template <typename S> S any(const S& proto) { S s = proto; h::eachReal(s, [](double& x) { x = vp_real("q"); }); return s; }
template <typename S> auto& vec(S& s) { return s.momentum; }
template <int N> auto& vec(Primitive<PerfectGas<N>>& s) { return s.velocity; }
// ------------------------------------------------ filling the ghost cells
template <typename E> void fill() {
  constexpr int R = E::Rank();
  const E e = eq<E>();
  const int d = vp_param("dir", 0), side = vp_param("side", 0), w = vp_param("w", 2), nt = R == 3 ? 2 : 3;
  IndexBox<R> inner = h::boxOf<R>(nt, nt, nt); inner.upper[d] = inner.lower[d] + w + 1;
  IndexBox<R> all = inner; (side ? all.upper[d] : all.lower[d]) += side ? w : -w;
  h::Patch<Complete<E>, R> p(e, all, "q");
  IndexBox<R> ghost = all; (side ? ghost.lower[d] : ghost.upper[d]) = side ? inner.upper[d] : inner.lower[d];
  if (R > 1 && vp_param("partial", 0)) { const int t = d ? 0 : 1; ghost.lower[t] += 1; } // part of the wall only
  const auto before = p.snapshot();
  ReflectiveBoundary<E> wall(e);
  wall.FillBoundary(p.full, ghost, Direction(d), side);
  p.unchangedOutside(before, ghost, "only the ghost cells are written");
  h::forBox(ghost, [&](const Index<R>& i) {
    Index<R> m = i; m[d] = side ? 2 * inner.upper[d] - 1 - i[d] : 2 * inner.lower[d] - 1 - i[d];
    Complete<E> want = fresh(e); put(want, p.cell(m)); vec(want)[d] = -vec(want)[d];
    h::same(p.cell(i), h::comps(want), "a ghost cell mirrors the interior cell at equal distance from the wall, with reversed normal momentum");
  });
  vp_cover("end");
}
// ------------------------------------------------ reflecting one state at any normal
template <typename E, typename S> void reflectAs(const E& e, const S& proto) {
  constexpr int R = E::Rank();
  S s = any(proto), r = proto, b = proto; h::junk(r); h::junk(b);
  Eigen::Matrix<double, R, 1> n; double n2 = 0; for (int k = 0; k < R; ++k) { n[k] = vp_real("n"); n2 += n[k] * n[k]; }
  double un = 0; for (int k = 0; k < R; ++k) un += vec(s)[k] * n[k];
  Reflect(r, s, n, e);
  S want = s; for (int k = 0; k < R; ++k) vec(want)[k] = vec(s)[k] - 2 * un * n[k];
  h::sameState(r, want, "reflection reverses the normal velocity only");
  S in = s; Reflect(in, in, n, e); h::sameState(in, want, "a state can be reflected in place");
  vp_assume(n2 == 1);
  Reflect(b, r, n, e); h::sameState(b, s, "reflecting twice restores the state");
  vp_cover("end");
}
// ------------------------------------------------ rotating states
template <typename E, typename S> void rotateAs(const E& e, const S& proto) {
  constexpr int R = E::Rank();
  S s = any(proto), r = proto; h::junk(r);
  Eigen::Matrix<double, R, R> M; for (int i = 0; i < R; ++i) for (int j = 0; j < R; ++j) M(i, j) = vp_real("M");
  S want = s; for (int i = 0; i < R; ++i) { double x = 0; for (int j = 0; j < R; ++j) x += M(i, j) * vec(s)[j]; vec(want)[i] = x; }
  Rotate(r, s, M, e); h::sameState(r, want, "rotation rotates the momentum only");
  vp_cover("end");
}
template <int R> void rotation() { // from an axis to any unit vector
  const int d = vp_param("dir", 0); const bool flip = vp_param("flip", 0);
  Eigen::Matrix<double, R, 1> a = UnitVector<R>(Direction(d)), b; double n2 = 0;
  for (int k = 0; k < R; ++k) { vp_eq(a[k], k == d, "unit vectors"); b[k] = vp_real("b"); n2 += b[k] * b[k]; }
  vp_assume(n2 == 1);
  const Eigen::Matrix<double, R, R> M = flip ? MakeRotation(b, a) : MakeRotation(a, b);
  const Eigen::Matrix<double, R, 1>& from = flip ? b : a; const Eigen::Matrix<double, R, 1>& to = flip ? a : b;
  for (int i = 0; i < R; ++i) { double x = 0; for (int j = 0; j < R; ++j) x += M(i, j) * from[j]; vp_eq(x, to[i], "the rotation takes one vector to the other"); }
  for (int i = 0; i < R; ++i) for (int j = 0; j <= i; ++j) { double x = 0; for (int k = 0; k < R; ++k) x += M(k, i) * M(k, j); vp_eq(x, i == j, "rotations keep lengths and angles"); }
  vp_cover("end");
}
} // namespace
#define V(E, N) VP_ENTRY fill_##E() { fill<N>(); } \
  VP_ENTRY complete_##E() { auto e = eq<N>(); reflectAs(e, Complete<N>(e)); } VP_ENTRY conservative_##E() { auto e = eq<N>(); reflectAs(e, Conservative<N>(e)); }
#define Q(E, N) VP_ENTRY rcomplete_##E() { auto e = eq<N>(); rotateAs(e, Complete<N>(e)); } VP_ENTRY rconservative_##E() { auto e = eq<N>(); rotateAs(e, Conservative<N>(e)); }
V(gas1, PerfectGas<1>) V(gas2, PerfectGas<2>) V(gas3, PerfectGas<3>) V(mix1, PerfectGasMix<1>) V(mix2, PerfectGasMix<2>) V(mix3, PerfectGasMix<3>)
Q(gas2, PerfectGas<2>) Q(gas3, PerfectGas<3>) Q(mix2, PerfectGasMix<2>) Q(mix3, PerfectGasMix<3>)
VP_ENTRY primitive_gas1() { auto e = eq<PerfectGas<1>>(); reflectAs(e, Primitive<PerfectGas<1>>(e)); }
VP_ENTRY primitive_gas2() { auto e = eq<PerfectGas<2>>(); reflectAs(e, Primitive<PerfectGas<2>>(e)); }
VP_ENTRY primitive_gas3() { auto e = eq<PerfectGas<3>>(); reflectAs(e, Primitive<PerfectGas<3>>(e)); }
VP_ENTRY rotation2() { rotation<2>(); } VP_ENTRY rotation3() { rotation<3>(); }
