// C01: one conservative patch update.
#include "fub/HyperbolicPatchIntegrator.hpp"
#include "vp.hpp"
#include <vector>
using namespace fub;
namespace {
template <int R> struct Grid { // R includes the component axis; column-major like the patches
  std::array<long, R> lo, up;
  std::vector<double> d;
  std::array<long, R> ext() const { std::array<long, R> e; for (int i = 0; i < R; ++i) e[i] = up[i] - lo[i]; return e; }
  Grid(std::array<long, R> l, std::array<long, R> u, const char* name) : lo(l), up(u) {
    long n = 1; for (int i = 0; i < R; ++i) n *= up[i] - lo[i];
    d.resize(n);
    for (auto& x : d) x = vp_real(name);
  }
  long off(const std::array<long, R>& i) const { long o = 0, s = 1; for (int k = 0; k < R; ++k) { o += (i[k] - lo[k]) * s; s *= up[k] - lo[k]; } return o; }
  double& operator()(const std::array<long, R>& i) { return d[off(i)]; }
};
template <int R, typename T> PatchDataView<T, R, layout_stride> view(Grid<R>& g, std::array<long, R> lo, std::array<long, R> up) {
  dynamic_extents<R> e(g.ext());
  PatchDataView<T, R> v(mdspan<T, R>(g.d.data(), e), g.lo);
  return v.Subview(IndexBox<R>{lo, up});
}
template <int R, typename F> void forBox(std::array<long, R> lo, std::array<long, R> up, F f) {
  for (int k = 0; k < R; ++k) if (lo[k] >= up[k]) return;
  std::array<long, R> i = lo;
  while (true) {
    f(i);
    int k = 0;
    while (k < R && ++i[k] == up[k]) { i[k] = lo[k]; ++k; }
    if (k == R) return;
  }
}
template <int R, typename Tag> void check(Tag tag, int nx, int ny, int nz, int ncomp, int dir) {
  std::array<long, R> lo{}, up{}, glo{}, gup{}, flo{}, fup{};
  const int ext[3] = {nx, ny, nz};
  const int org[3] = {2, -1, 5};
  for (int k = 0; k < R - 1; ++k) {
    lo[k] = org[k]; up[k] = lo[k] + ext[k];
    glo[k] = lo[k] - 1; gup[k] = up[k] + 1;
    flo[k] = lo[k]; fup[k] = up[k];
  }
  lo[R - 1] = glo[R - 1] = flo[R - 1] = 0;
  up[R - 1] = gup[R - 1] = fup[R - 1] = ncomp;
  fup[dir] += 1;
  Grid<R> next(glo, gup, "next"), prev(glo, gup, "prev"), flux(flo, fup, "flux");
  Grid<R> next0 = next, prev0 = prev, flux0 = flux;
  double dt = vp_real("dt"), dx = vp_real("dx");
  vp_assume(dx > 0 && dt > 0);
  HyperbolicPatchIntegrator<Tag> integrator(tag);
  integrator.UpdateConservatively(view<R, double>(next, lo, up), view<R, const double>(prev, lo, up), view<R, const double>(flux, flo, fup), Duration(dt), dx, static_cast<Direction>(dir));
  forBox<R>(glo, gup, [&](std::array<long, R> i) {
    bool inside = true;
    for (int k = 0; k < R; ++k) inside = inside && lo[k] <= i[k] && i[k] < up[k];
    if (inside) {
      std::array<long, R> j = i; j[dir] += 1;
      vp_eq(next(i), prev0(i) + dt / dx * (flux0(i) - flux0(j)), "cell holds old value plus dt/dx times flux difference");
    } else vp_eq(next(i), next0(i), "cell outside the patch is untouched");
    vp_eq(prev(i), prev0(i), "previous data untouched");
  });
  forBox<R>(flo, fup, [&](std::array<long, R> i) { vp_eq(flux(i), flux0(i), "flux data untouched"); });
  // conservation: the total changes only by the boundary fluxes
  for (int c = 0; c < ncomp; ++c) {
    double sumN = 0, sumP = 0, bnd = 0;
    forBox<R>(lo, up, [&](std::array<long, R> i) {
      if (i[R - 1] != c) return;
      sumN += next(i); sumP += prev0(i);
      if (i[dir] == lo[dir]) bnd += flux0(i);
      if (i[dir] == up[dir] - 1) { auto j = i; j[dir] += 1; bnd -= flux0(j); }
    });
    vp_eq(sumN, sumP + dt / dx * bnd, "total changes by boundary fluxes only");
  }
  vp_cover("update done");
}
template <typename Tag> void dispatch(Tag tag) {
  int rank = vp_param("rank", 2), n = vp_param("n", 3), dir = vp_param("dir", 0);
  int nc = vp_param("comps", 2);
  if (rank == 1) check<2>(tag, n, 1, 1, nc, dir);
  if (rank == 2) check<3>(tag, n, vp_param("ny", 2), 1, nc, dir);
  if (rank == 3) check<4>(tag, n, vp_param("ny", 2), vp_param("nz", 2), nc, dir);
}
} // namespace
VP_ENTRY update_seq() { dispatch(execution::seq); }
VP_ENTRY update_simd() { dispatch(execution::simd); }
VP_ENTRY update_openmp() { dispatch(execution::openmp); }
VP_ENTRY update_openmp_simd() { dispatch(execution::openmp_simd); }
