// C03: which cells feed which face. The single-face flux and stable dt are uninterpreted functions.
#include "patch.hpp"
#include "fub/flux_method/FluxMethod.hpp"
using namespace h;
namespace {
double fold(double acc, double x) { return vp_uf2("stencil", acc, x); }
template <typename Eq, int SW> struct Mock {
  using Equation = Eq;
  using Complete = fub::Complete<Eq>; using Conservative = fub::Conservative<Eq>;
  using CompleteArray = fub::CompleteArray<Eq>; using ConservativeArray = fub::ConservativeArray<Eq>;
  Eq eq;
  Mock(const Eq& e) : eq(e) {}
  static constexpr int GetStencilWidth() noexcept { return SW; }
  const Eq& GetEquation() const noexcept { return eq; }
  Eq& GetEquation() noexcept { return eq; }
  static double key(const std::vector<std::vector<double>>& st, double dt, double dx, Direction dir) {
    double a = (double)static_cast<int>(dir);
    for (auto& s : st) for (double x : s) a = fold(a, x);
    return fold(fold(a, dt), dx);
  }
  static double flux(double key, int k) { return vp_uf2("flux", key, k); }
  static double dtOf(double key) { return vp_uf1("dt", key); }
  void ComputeNumericFlux(Conservative& f, span<const Complete, 2 * SW> s, Duration dt, double dx, Direction dir) {
    std::vector<std::vector<double>> st; for (int i = 0; i < 2 * SW; ++i) st.push_back(comps(s[i]));
    double k = key(st, dt.count(), dx, dir); int c = 0;
    eachReal(f, [&](double& x) { x = flux(k, c++); });
  }
  void ComputeNumericFlux(ConservativeArray& f, span<const CompleteArray, 2 * SW> s, Duration dt, double dx, Direction dir) {
    for (int l = 0; l < W; ++l) {
      std::vector<std::vector<double>> st; for (int i = 0; i < 2 * SW; ++i) st.push_back(lane(s[i], l));
      double k = key(st, dt.count(), dx, dir);
      std::vector<double> v; for (int c = 0; c < (int)lane(f, l).size(); ++c) v.push_back(flux(k, c));
      setLane(f, l, v);
    }
  }
  double ComputeStableDt(span<const Complete, 2 * SW> s, double dx, Direction dir) {
    std::vector<std::vector<double>> st; for (int i = 0; i < 2 * SW; ++i) st.push_back(comps(s[i]));
    return dtOf(key(st, 0, dx, dir));
  }
  Array1d ComputeStableDt(span<const CompleteArray, 2 * SW> s, double dx, Direction dir) {
    Array1d r;
    for (int l = 0; l < W; ++l) {
      std::vector<std::vector<double>> st; for (int i = 0; i < 2 * SW; ++i) st.push_back(lane(s[i], l));
      r(l) = dtOf(key(st, 0, dx, dir));
    }
    return r;
  }
};
template <typename Eq, int SW, typename Tag> void fluxes(Tag tag, Eq eq) {
  constexpr int R = Eq::Rank();
  const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  IndexBox<R> faces = boxOf<R>(vp_param("n", 3), vp_param("ny", 2), vp_param("nz", 2));
  IndexBox<R> cells = fub::Grow(faces, dir, {SW, SW - 1});
  const int extra = vp_param("extra", 1); // the states may cover more cells than needed
  Patch<Complete<Eq>, R> q(eq, grown(cells, 1), "q");
  Patch<Conservative<Eq>, R> f(eq, grown(faces, 1), "f");
  auto q0 = q.snapshot(); auto f0 = f.snapshot();
  double dt = vp_real("dt"), dx = vp_real("dx");
  FluxMethod<Mock<Eq, SW>> fm(eq);
  IndexBox<R> qbox = extra ? grown(cells, 1) : cells;
  fm.ComputeNumericFluxes(tag, f.view(faces), AsConst(q.view(qbox)), Duration(dt), dx, dir);
  forBox(faces, [&](const Index<R>& i) {
    std::vector<std::vector<double>> st;
    for (int s = -SW; s < SW; ++s) { Index<R> j = i; j[d] += s; st.push_back(q.cell(j)); }
    double k = Mock<Eq, SW>::key(st, dt, dx, dir);
    for (int c = 0; c < f.ncomp(); ++c) vp_eq(f.at(c, i), Mock<Eq, SW>::flux(k, c), "face flux is the flux of its own stencil");
  });
  f.unchangedOutside(f0, faces, "only the requested faces are written");
  q.unchanged(q0, "states are not modified");
  vp_cover("fluxes done");
}
template <typename Eq, int SW, typename Tag> void stable(Tag tag, Eq eq) {
  constexpr int R = Eq::Rank();
  const int d = vp_param("dir", 0); const Direction dir = static_cast<Direction>(d);
  // n = number of stencils per row along dir
  int n = vp_param("n", 3), ext[3] = {(int)vp_param("nx", 2), (int)vp_param("ny", 2), (int)vp_param("nz", 2)};
  ext[d] = n + 2 * SW - 1;
  IndexBox<R> cells = boxOf<R>(ext[0], ext[1], ext[2]);
  Patch<Complete<Eq>, R> q(eq, grown(cells, 1), "q");
  auto q0 = q.snapshot();
  double dx = vp_real("dx");
  FluxMethod<Mock<Eq, SW>> fm(eq);
  double r = fm.ComputeStableDt(tag, AsConst(q.view(cells)), dx, dir);
  bool hit = false;
  forBox(cells, [&](const Index<R>& i) {
    Index<R> last = i; last[d] += 2 * SW - 1;
    if (!in(cells, last)) return;
    std::vector<std::vector<double>> st;
    for (int s = 0; s < 2 * SW; ++s) { Index<R> j = i; j[d] += s; st.push_back(q.cell(j)); }
    double v = Mock<Eq, SW>::dtOf(Mock<Eq, SW>::key(st, 0, dx, dir));
    vp_le(r, v, "stable dt is at most the stable dt of every stencil in the patch");
    hit = hit | (r == v);
  });
  vp_assert(hit, "stable dt is attained by a stencil of the patch");
  q.unchanged(q0, "states are not modified");
  vp_cover("stable dt done");
}
template <typename F> void byTag(F f) {
  switch (vp_param("tag", 0)) {
  case 0: f(execution::seq); break;
  case 1: f(execution::simd); break;
  case 2: f(execution::openmp); break;
  case 3: f(execution::openmp_simd); break;
  }
}
} // namespace
#define BOTH(name, EQ, SW, ...) \
  VP_ENTRY flux_##name() { byTag([](auto t) { fluxes<EQ, SW>(t, makeEq(Type<EQ>{} __VA_ARGS__)); }); } \
  VP_ENTRY dt_##name() { byTag([](auto t) { stable<EQ, SW>(t, makeEq(Type<EQ>{} __VA_ARGS__)); }); }
BOTH(burgers1, Burgers1d, 1)
BOTH(burgers2, Burgers1d, 2)
BOTH(adv1, Advection2d, 1)
BOTH(adv2, Advection2d, 2)
BOTH(shallow2, ShallowWater, 2)
BOTH(gas2d1, PerfectGas<2>, 1)
BOTH(gas3d1, PerfectGas<3>, 1)
BOTH(gas3d2, PerfectGas<3>, 2)
