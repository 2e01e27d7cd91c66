// C25: fluxes of cut-cell methods.
#include "cutcell.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
#include "fub/cutcell_method/MyStabilisation.hpp"
using namespace fub;
namespace {
// one number per index of a box, inside of a larger allocation
template <int R> struct Field {
  IndexBox<R> box; std::vector<double> mem; StridedDataView<double, R> full;
  Field(const IndexBox<R>& b, const char* name) : box(b) {
    std::array<std::ptrdiff_t, R> ext; long n = 1; for (int k = 0; k < R; ++k) n *= ext[k] = b.upper[k] - b.lower[k];
    mem.resize(n); for (double& x : mem) x = vp_real(name);
    full = PatchDataView<double, R>(mdspan<double, R>(mem.data(), dynamic_extents<R>(ext)), b.lower).Subview(b);
  }
  Field(const Field&) = delete;
  double& at(const Index<R>& i) { long o = 0, s = 1; for (int k = 0; k < R; ++k) { o += (i[k] - box.lower[k]) * s; s *= box.upper[k] - box.lower[k]; } return mem[o]; }
  StridedDataView<const double, R> cview(const IndexBox<R>& b) { return StridedDataView<const double, R>(full.Subview(b)); }
  template <typename F> void outside(const std::vector<double>& old, const IndexBox<R>& b, F) { long o = 0; h::forBox(box, [&](const Index<R>& i) { if (!h::in(b, i)) vp_eq(mem[o], old[o], "only the requested faces are written"); ++o; }); }
};
template <int R> IndexBox<R> theFaces() { return h::boxOf<R>(vp_param("nx", 3), vp_param("ny", 2), vp_param("nz", 2)); }
double clamp01(double x) { return vp_sel(x < 0, 0, vp_sel(x > 1, 1, x)); }
template <int R> void stable() {
  const int d = vp_param("dir", 0), my = vp_param("my", 0); const Direction dir = Direction(d);
  const IndexBox<R> faces = theFaces<R>(); IndexBox<R> cells = faces; cells.lower[d] -= 1;
  const IndexBox<R> roomy = h::grown(cells, 1);
  h::Geo<R> g(roomy);
  Field<R> fs(h::grown(faces, 1), "stable"), fl(h::grown(faces, 1), "left"), fr(h::grown(faces, 1), "right"), f(h::grown(faces, 1), "regular"), fb(roomy, "boundary");
  const auto s0 = fs.mem, l0 = fl.mem, r0 = fr.mem, f0 = f.mem, b0 = fb.mem;
  auto call = [&](auto fn) { fn(fs.full.Subview(faces), fl.full.Subview(faces), fr.full.Subview(faces), f.cview(faces), fb.cview(roomy), g.data, Duration(vp_real("dt")), vp_real("dx"), dir); };
  if (my) call([](auto&&... a) { MyStab_ComputeStableFluxComponents(a...); }); else call([](auto&&... a) { ComputeStableFluxComponents(a...); });
  fs.outside(s0, faces, 0); fl.outside(l0, faces, 0); fr.outside(r0, faces, 0);
  for (std::size_t k = 0; k < f0.size(); ++k) vp_eq(f.mem[k], f0[k], "regular fluxes are not modified");
  for (std::size_t k = 0; k < b0.size(); ++k) vp_eq(fb.mem[k], b0[k], "boundary fluxes are not modified");
  h::forBox(faces, [&](const Index<R>& i) {
    Index<R> l = i; l[d] -= 1;
    const double us = h::val<R>(g.data.unshielded_fractions_rel[d], i), bl = h::val<R>(g.data.shielded_left_fractions_rel[d], i), br = h::val<R>(g.data.shielded_right_fractions_rel[d], i);
    if (!my) {
      const double dl = clamp01(0.5 - h::val<R>(g.data.boundary_centeroids, l, d)), dr = clamp01(0.5 + h::val<R>(g.data.boundary_centeroids, i, d));
      vp_eq(fl.at(i), dl * f.at(i) + (1 - dl) * fb.at(l), "flux shielded from the left: between the boundary flux of the left cell and the regular flux, by their distance");
      vp_eq(fr.at(i), dr * f.at(i) + (1 - dr) * fb.at(i), "flux shielded from the right: between the boundary flux of the right cell and the regular flux, by their distance");
    } else {
      Index<R> at = i; long o = 0, s = 1; for (int k = 0; k < R; ++k) { o += (at[k] - fl.box.lower[k]) * s; s *= fl.box.upper[k] - fl.box.lower[k]; }
      vp_eq(fl.at(i), l0[o], "shielded fluxes are given"); vp_eq(fr.at(i), r0[o], "shielded fluxes are given");
    }
    vp_eq(fs.at(i), us * f.at(i) + bl * fl.at(i) + br * fr.at(i), "the flux of a face is the sum of the fluxes of its parts, weighted with their area");
  });
  vp_cover("end");
}
// fractions which sum to one neither create nor lose a uniform flux; a face without boundary keeps its flux, a closed face has none
template <int R> void uniform() {
  const int d = vp_param("dir", 0); const Direction dir = Direction(d);
  const IndexBox<R> faces = theFaces<R>(); IndexBox<R> cells = faces; cells.lower[d] -= 1;
  h::Geo<R> g(cells);
  Field<R> fs(faces, "stable"), fl(faces, "left"), fr(faces, "right"), f(faces, "regular"), fb(cells, "boundary");
  const double F = vp_real("flux"); const int mode = vp_param("mode", 0);
  h::forBox(faces, [&](const Index<R>& i) { Index<R> l = i; l[d] -= 1;
    const double us = h::val<R>(g.data.unshielded_fractions_rel[d], i), bl = h::val<R>(g.data.shielded_left_fractions_rel[d], i), br = h::val<R>(g.data.shielded_right_fractions_rel[d], i);
    if (mode == 0) { f.at(i) = F; fb.at(i) = F; fb.at(l) = F; vp_assume(us + bl + br == 1); }
    if (mode == 1) { vp_assume(us == 1); vp_assume(bl == 0); vp_assume(br == 0); }
    if (mode == 2) { vp_assume(us == 0); vp_assume(bl == 0); vp_assume(br == 0); } });
  ComputeStableFluxComponents(fs.full, fl.full, fr.full, StridedDataView<const double, R>(f.full), StridedDataView<const double, R>(fb.full), g.data, Duration(vp_real("dt")), vp_real("dx"), dir);
  h::forBox(faces, [&](const Index<R>& i) {
    if (mode == 0) { vp_eq(fl.at(i), F, "a uniform flux is kept"); vp_eq(fr.at(i), F, "a uniform flux is kept"); vp_eq(fs.at(i), F, "a uniform flux is kept"); }
    if (mode == 1) vp_eq(fs.at(i), f.at(i), "faces without boundary keep the regular flux");
    if (mode == 2) vp_eq(fs.at(i), 0, "closed faces carry no flux"); });
  vp_cover("end");
}
// ------------------------------------------------ the base method on the stencils of a cut-cell patch
double fold(double a, double x) { return vp_uf2("stencil", a, x); }
template <typename Eq, int SW> struct Mock {
  using Equation = Eq; using Complete = fub::Complete<Eq>; using Conservative = fub::Conservative<Eq>; using CompleteArray = fub::CompleteArray<Eq>; using ConservativeArray = fub::ConservativeArray<Eq>;
  Eq eq; Mock(const Eq& e) : eq(e) {}
  static constexpr int GetStencilWidth() noexcept { return SW; }
  const Eq& GetEquation() const noexcept { return eq; }
  Eq& GetEquation() noexcept { return eq; }
  static double key(double beta, const std::vector<std::vector<double>>& st, const std::vector<double>& alpha, double dt, double dx, Direction dir) { double a = fold(int(dir), beta); for (auto& s : st) for (double x : s) a = fold(a, x); for (double x : alpha) a = fold(a, x); return fold(fold(a, dt), dx); }
  static double flux(double k, int c) { return vp_uf2("flux", k, c); }
  static double step(double k) { return vp_uf1("dt", k); }
  template <typename F> static void lanes(const Array1d& betas, span<const CompleteArray, 2 * SW> s, const std::array<Array1d, 2 * SW>& alphas, double dt, double dx, Direction dir, F f) {
    for (int l = 0; l < h::W; ++l) { std::vector<std::vector<double>> st; std::vector<double> al; for (int i = 0; i < 2 * SW; ++i) { st.push_back(h::lane(s[i], l)); al.push_back(alphas[i](l)); } f(l, key(betas(l), st, al, dt, dx, dir)); }
  }
  void ComputeNumericFlux(ConservativeArray& f, const Array1d& betas, span<const CompleteArray, 2 * SW> s, const std::array<Array1d, 2 * SW>& alphas, Duration dt, double dx, Direction dir) {
    lanes(betas, s, alphas, dt.count(), dx, dir, [&](int l, double k) { std::vector<double> v; const int n = int(h::lane(f, l).size()); for (int c = 0; c < n; ++c) v.push_back(vp_sel(betas(l) > 0, flux(k, c), 0)); h::setLane(f, l, v); });
  }
  double ComputeStableDt(span<const Complete, 2 * SW>, double, Direction) { vp_fail("single cells"); return 0; }
  Array1d ComputeStableDt(span<const CompleteArray, 2 * SW> s, const Array1d& betas, const std::array<Array1d, 2 * SW>& alphas, double dx, Direction dir) {
    Array1d r; lanes(betas, s, alphas, 0, dx, dir, [&](int l, double k) { r(l) = vp_sel(betas(l) > 0, step(k), std::numeric_limits<double>::max()); }); return r;
  }
};
template <typename Eq> struct NoRiemann { NoRiemann(const Eq&) {} template <typename... A> void SolveRiemannProblem(A&&...) {} };
template <typename Eq, int SW> void regular(const Eq& eq) {
  constexpr int R = Eq::Rank();
  const int d = vp_param("dir", 0); const Direction dir = Direction(d); const int dtOnly = vp_param("stable", 0);
  const IndexBox<R> faces = theFaces<R>(); const IndexBox<R> cells = fub::Grow(faces, dir, {SW, SW - 1});
  const int extra = dtOnly ? 0 : 1;
  h::Geo<R> g(h::grown(cells, 1));
  h::Patch<Complete<Eq>, R> q(eq, h::grown(cells, extra), "q"); h::Patch<Conservative<Eq>, R> f(eq, h::grown(faces, 1), "f");
  h::forBox(faces, [&](const Index<R>& i) { vp_assume(h::val<R>(g.data.face_fractions[d], i) >= 0); });
  const auto q0 = q.snapshot(), f0 = f.snapshot(); const double dt = vp_real("dt"), dx = vp_real("dx");
  KbnCutCellMethod<Mock<Eq, SW>, NoRiemann<Eq>> m{Mock<Eq, SW>(eq)};
  double got = 0; bool seen = false;
  if (dtOnly) got = m.ComputeStableDt(AsConst(q.full), g.data, dx, dir); else m.ComputeRegularFluxes(f.view(faces), AsConst(q.full), g.data, Duration(dt), dx, dir);
  h::forBox(faces, [&](const Index<R>& i) {
    std::vector<std::vector<double>> st; std::vector<double> al; const double beta = h::val<R>(g.data.face_fractions[d], i);
    for (int s = -SW; s < SW; ++s) { Index<R> j = i; j[d] += s; st.push_back(q.cell(j)); al.push_back(h::val<R>(g.data.volume_fractions, j)); }
    const double k = Mock<Eq, SW>::key(beta, st, al, dtOnly ? 0 : dt, dx, dir);
    if (dtOnly) { const double t = Mock<Eq, SW>::step(k); vp_assert(!(beta > 0) | (got <= t), "the stable step is no larger than that of any open face"); seen = seen | ((beta > 0) & (got == t)); }
    else for (int c = 0; c < f.ncomp(); ++c) vp_eq(f.at(c, i), vp_sel(beta > 0, Mock<Eq, SW>::flux(k, c), 0), "the flux of a face is that of its own stencil, opening and volumes");
  });
  if (dtOnly) vp_assert(seen | (got >= std::numeric_limits<double>::max()), "the stable step is that of one of the open faces");
  f.unchangedOutside(f0, faces, "only the requested faces are written"); q.unchanged(q0, "states are not modified");
  vp_cover("end");
}
// ------------------------------------------------ boundary states and boundary fluxes
// every component of the solution of a Riemann problem is an uninterpreted function of both states
template <typename Eq> struct Riemann {
  Eq eq; Riemann(const Eq& e) : eq(e) {}
  static double key(const std::vector<double>& l, const std::vector<double>& r, int d) { double a = d; for (double x : l) a = vp_uf2("rp", a, x); for (double x : r) a = vp_uf2("rp", a, x); return a; }
  static double value(double k, int c) { return vp_uf2("solution", k, c); }
  void SolveRiemannProblem(Complete<Eq>& s, const Complete<Eq>& l, const Complete<Eq>& r, Direction dir) { const double k = key(h::comps(l), h::comps(r), int(dir)); int c = 0; h::eachReal(s, [&](double& x) { x = value(k, c++); }); }
};
template <typename Eq> auto solve(const Eq& eq, const Complete<Eq>& l, const Complete<Eq>& r) { Complete<Eq> s(eq); Riemann<Eq>(eq).SolveRiemannProblem(s, l, r, Direction::X); return s; }
template <int R> Eigen::Matrix<double, R, 1> times(const Eigen::Matrix<double, R, R>& M, const double* v) { Eigen::Matrix<double, R, 1> x; for (int i = 0; i < R; ++i) { double a = 0; for (int j = 0; j < R; ++j) a += M(i, j) * v[j]; x[i] = a; } return x; }
template <typename Eq> void turn(Complete<Eq>& s, const Eigen::Matrix<double, Eq::Rank(), Eq::Rank()>& M) { double v[3]; for (int k = 0; k < Eq::Rank(); ++k) v[k] = s.momentum[k]; const auto x = times<Eq::Rank()>(M, v); for (int k = 0; k < Eq::Rank(); ++k) s.momentum[k] = x[k]; }
template <typename Eq> Complete<Eq> mirrored(Complete<Eq> s) { s.momentum[0] = -s.momentum[0]; return s; }
template <typename Eq> Complete<Eq> cellOf(const Eq& eq, const std::vector<double>& v) { Complete<Eq> s(eq); std::size_t k = 0; h::eachReal(s, [&](double& x) { x = v[k++]; }); return s; }
// the solution at the boundary, with the boundary to the left, in the frame of the boundary
template <typename Eq> void wall(const Eq& eq) {
  constexpr int R = Eq::Rank();
  const int d = vp_param("dir", 0), what = vp_param("what", 0); const Direction dir = Direction(d);
  const int N = vp_param("cells", 2); const IndexBox<R> cells = h::boxOf<R>(N, 1, 1);
  h::Geo<R> g(cells);
  h::Patch<Complete<Eq>, R> q(eq, cells, "q"), ref(eq, cells, "ref"), mirror(eq, cells, "mirror"); h::Patch<Conservative<Eq>, R> f(eq, cells, "flux");
  Field<R> dummy(cells, "dummy"); std::vector<int> masks; for (int k = 0; k < N; ++k) masks.push_back(int(vp_int("mask", 0, 1)));
  std::array<std::ptrdiff_t, R> ext; for (int k = 0; k < R; ++k) ext[k] = cells.upper[k] - cells.lower[k];
  StridedDataView<int, R> maskView = PatchDataView<int, R>(mdspan<int, R>(masks.data(), dynamic_extents<R>(ext)), cells.lower).Subview(cells);
  std::vector<Eigen::Matrix<double, R, 1>> normals;
  h::forBox(cells, [&](const Index<R>& i) {
    Eigen::Matrix<double, R, 1> n; double n2 = 0; for (int k = 0; k < R; ++k) { n[k] = -h::val<R>(g.data.boundary_normals, i, k); n2 += n[k] * n[k]; }
    vp_assume(n2 == 1); const double v = h::val<R>(g.data.volume_fractions, i); vp_assume(v >= 0); vp_assume(v <= 1); normals.push_back(n);
    if (what) { vp_assume(q.at(0, i) > 0); vp_assume(ref.at(0, i) > 0); }
  });
  const auto q0 = q.snapshot(), r0 = ref.snapshot(), m0 = mirror.snapshot(), f0 = f.snapshot();
  KbnCutCellMethod<Mock<Eq, 1>, Riemann<Eq>> m{Mock<Eq, 1>(eq), Riemann<Eq>(eq)};
  if (what == 0) m.PreAdvanceHierarchy(ref.full, AsConst(q.full), g.data);
  else m.ComputeBoundaryFluxes(f.full, AsConst(q.full), AsConst(ref.full), AsConst(mirror.full), maskView, g.data, Duration(vp_real("dt")), vp_real("dx"), dir);
  q.unchanged(q0, "states are not modified"); mirror.unchanged(m0, "mirror states are not modified"); if (what) ref.unchanged(r0, "reference states are not modified"); else f.unchanged(f0, "fluxes are not modified");
  const Eigen::Matrix<double, R, 1> x = UnitVector<R>(Direction::X); std::size_t at = 0;
  h::forBox(cells, [&](const Index<R>& i) {
    const bool isCut = IsCutCell(g.data, i); const Eigen::Matrix<double, R, 1> n = normals[at];
    Complete<Eq> in = cellOf(eq, q.cell(i)); turn(in, MakeRotation(n, x));
    Complete<Eq> w = solve(eq, mirrored(in), in);
    if (what == 0) {
      turn(w, MakeRotation(x, n)); const auto want = h::comps(w); std::vector<double> old; for (auto& v : r0) for (std::size_t c = 0; c < v.size(); c += N) old.push_back(v[c + at]);
      const bool on = isCut & (in.density > 0);
      for (int c = 0; c < ref.ncomp(); ++c) vp_eq(ref.at(c, i), vp_sel(on, want[c], old[c]), "the reference state of a cut cell solves the reflected Riemann problem at its boundary");
    } else {
      const Complete<Eq> r = cellOf(eq, ref.cell(i)), mi = cellOf(eq, mirror.cell(i));
      const Complete<Eq> v = solve(eq, mi, in); const double p = vp_sel(masks[at] != 0, v.pressure, w.pressure);
      Conservative<Eq> flux(eq); eq.Flux(flux, r, dir); flux.momentum[d] += p - r.pressure;
      const auto want = h::comps(flux); std::vector<double> old; for (auto& u : f0) for (std::size_t c = 0; c < u.size(); c += N) old.push_back(u[c + at]);
      for (int c = 0; c < f.ncomp(); ++c) vp_eq(f.at(c, i), vp_sel(isCut, want[c], old[c]), "the boundary flux is that of the reference state with the pressure at the wall");
    }
    ++at;
  });
  vp_cover("end");
}
} // namespace
VP_ENTRY stable2() { stable<2>(); } VP_ENTRY stable3() { stable<3>(); } VP_ENTRY uniform2() { uniform<2>(); } VP_ENTRY uniform3() { uniform<3>(); }
VP_ENTRY regular_mass2() { regular<Advection2d, 1>(h::makeEq(Type<Advection2d>{})); } VP_ENTRY regular2_mass2() { regular<Advection2d, 2>(h::makeEq(Type<Advection2d>{})); }
VP_ENTRY regular_gas3() { regular<PerfectGas<3>, 1>(h::makeEq(Type<PerfectGas<3>>{})); }
VP_ENTRY wall_gas2() { wall(h::makeEq(Type<PerfectGas<2>>{})); } VP_ENTRY wall_gas3() { wall(h::makeEq(Type<PerfectGas<3>>{})); }
VP_ENTRY wall_mix2() { wall(h::makeEq(Type<PerfectGasMix<2>>{}, 1, 1)); }
