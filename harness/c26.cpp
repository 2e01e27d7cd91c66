// C26: queries of cut-cell geometry.
#include "cutcell.hpp"
#include <cstring>
using namespace fub;
namespace {
template <int R> IndexBox<R> cells() { return h::boxOf<R>(2, 2, 2); }
template <int R> Index<R> some(const IndexBox<R>& b) { Index<R> i; for (int k = 0; k < R; ++k) i[k] = b.lower[k] + vp_choice("cell", int(b.upper[k] - b.lower[k])); return i; }
template <int R> Eigen::Matrix<double, R, 1> widths() { Eigen::Matrix<double, R, 1> dx; for (int k = 0; k < R; ++k) { dx[k] = vp_real("dx"); vp_assume(dx[k] > 0); } return dx; }
template <int R> void cut() {
  h::Geo<R> g(cells<R>()); const Index<R> i = some(cells<R>());
  const double v = h::val<R>(g.data.volume_fractions, i); vp_assume(v >= 0); vp_assume(v <= 1);
  bool open = true;
  for (int d = 0; d < R; ++d) { Index<R> r = i; ++r[d]; open = open & !(h::val<R>(g.data.face_fractions[d], i) < 1) & !(h::val<R>(g.data.face_fractions[d], r) < 1); }
  vp_assert(IsCutCell(g.data, i) == ((v > 0) & ((v < 1) | !open)), "a cell is cut if it is partially covered or one of its faces is");
  vp_cover("end");
}
template <int R> void vectors() {
  h::Geo<R> g(cells<R>()); const Index<R> i = some(cells<R>()); const auto dx = widths<R>();
  const auto n = GetBoundaryNormal(g.data, i), b = GetBoundaryCentroid(g.data, i), v = GetVolumeCentroid(g.data, i), B = GetAbsoluteBoundaryCentroid(g.data, i, dx), V = GetAbsoluteVolumeCentroid(g.data, i, dx);
  for (int d = 0; d < R; ++d) {
    const double nd = h::val<R>(g.data.boundary_normals, i, d), bd = h::val<R>(g.data.boundary_centeroids, i, d), vd = h::val<R>(g.data.volume_centeroid, i, d);
    vp_eq(n[d], -nd, "the normal of the cell, pointing into the fluid"); vp_eq(b[d], bd, "the boundary centroid of the cell"); vp_eq(v[d], vd, "the centroid of the cell");
    const double mid = (double(i[d]) + 0.5) * dx[d];
    vp_eq(B[d], mid + bd * dx[d], "boundary centroids lie at the centre of the cell plus the offset"); vp_eq(V[d], mid + vd * dx[d], "centroids lie at the centre of the cell plus the offset");
    vp_eq(GetOffset(i)[d], double(i[d]), "offset of an index");
  }
  vp_cover("end");
}
VP_ENTRY unshielded() {
  const auto box = cells<2>(); const int d = vp_param("dir", 0), t = 1 - d; h::Geo<2> g(box); const auto dx = widths<2>();
  Index<2> f = box.lower; f[d] += 1; f[t] += vp_choice("row", 2); // an inner face
  Index<2> l = f; l[d] -= 1;
  const double sl = h::val<2>(g.data.shielded_left_fractions[d], f), sr = h::val<2>(g.data.shielded_right_fractions[d], f);
  vp_assume(sl >= 0); vp_assume(sr >= 0); vp_assume(sl <= 1); vp_assume(sr <= 1);
  const bool low_l = h::val<2>(g.data.boundary_normals, l, t) < 0, low_r = h::val<2>(g.data.boundary_normals, f, t) < 0; // the body covers the low end
  auto mx = [](double a, double b) { return vp_sel(a < b, b, a); }; auto mn = [](double a, double b) { return vp_sel(b < a, b, a); };
  const double lo = mx(vp_sel(low_l, sl, 0), vp_sel(low_r, sr, 0)), hi = mn(vp_sel(low_l, 1, 1 - sl), vp_sel(low_r, 1, 1 - sr));
  const auto x = GetAbsoluteUnshieldedCentroid(g.data, f, dx, Direction(d));
  vp_eq(x[d], double(f[d]) * dx[d], "the unshielded centroid lies on the face"); vp_eq(x[t], (double(f[t]) + (lo + hi) / 2) * dx[t], "the unshielded centroid is the middle of the part of the face which neither cell shields");
  vp_assert(!(lo <= hi) | ((x[t] >= double(f[t]) * dx[t]) & (x[t] <= double(f[t] + 1) * dx[t])), "the unshielded centroid lies on the face");
  vp_cover("end");
}
VP_ENTRY shielded() { // centres of the parts of the cells which the boundary shields
  const auto box = cells<2>(); const int d = vp_param("dir", 0), t = 1 - d; h::Geo<2> g(box); const auto dx = widths<2>();
  Index<2> f = box.lower; f[d] += 1; f[t] += vp_choice("row", 2); Index<2> l = f; l[d] -= 1;
  for (const auto& i : {f, l}) { vp_assume(h::val<2>(g.data.volume_fractions, i) > 0); vp_assume(h::val<2>(g.data.volume_fractions, i) < 1); }
  vp_assume(h::val<2>(g.data.shielded_left_fractions[d], f) > 0); vp_assume(h::val<2>(g.data.shielded_right_fractions[d], f) > 0);
  const double at = double(f[d]) * dx[d];
  auto want = [&](const Eigen::Vector2d& x, const Index<2>& cutcell, double normal, const char* label) { vp_eq(x[d], normal, label); vp_eq(x[t], (double(cutcell[t]) + 0.5 + h::val<2>(g.data.boundary_centeroids, cutcell, t)) * dx[t], label); };
  const double xr = (double(f[d]) + 0.5 + h::val<2>(g.data.boundary_centeroids, f, d)) * dx[d], xl = (double(l[d]) + 0.5 + h::val<2>(g.data.boundary_centeroids, l, d)) * dx[d];
  want(GetAbsoluteSinglyShieldedFromRightVolumeCentroid(g.data, f, Side::Upper, Direction(d), dx), f, (at + xr) / 2, "between the face and the boundary to its right");
  want(GetAbsoluteSinglyShieldedFromRightVolumeCentroid(g.data, f, Side::Lower, Direction(d), dx), f, at - 0.5 * dx[d], "in the middle of the cell left of the face");
  want(GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(g.data, f, Side::Lower, Direction(d), dx), l, (at + xl) / 2, "between the boundary to the left and the face");
  want(GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(g.data, f, Side::Upper, Direction(d), dx), l, at + 0.5 * dx[d], "in the middle of the cell right of the face");
  vp_cover("end");
}
VP_ENTRY hgrid() {
  const auto box = cells<2>(); h::Geo<2> g(box); const auto dx = widths<2>(); const Index<2> i = some(box);
  const int which = vp_choice("which", 3); constexpr int n = HGridIntegrationPoints<2>::kMaxSources;
  auto view = g.add<3>(Embed<3>(box, {0, 5 * n}), "points"); (which < 2 ? g.data.hgrid_integration_points[which] : g.data.hgrid_total_inner_integration_points) = view;
  double* p = const_cast<double*>(view.Span().data()); long stride = 4, off = (i[0] - box.lower[0]) + 2 * (i[1] - box.lower[1]);
  for (int k = 0; k < n; ++k) for (int c = 0; c < 2; ++c) { const std::ptrdiff_t j = 100 * k - 7 * c; std::memcpy(p + off + stride * (5 * k + 3 + c), &j, 8); }
  const auto r = which < 2 ? GetHGridIntegrationPoints(g.data, i, dx, Direction(which)) : GetHGridTotalInnerIntegrationPoints(g.data, i, dx);
  for (int k = 0; k < n; ++k) { vp_eq(r.volume[k], p[off + stride * 5 * k], "volume of an integration point"); for (int c = 0; c < 2; ++c) { vp_eq(r.xM[k][c], p[off + stride * (5 * k + 1 + c)], "position of an integration point"); vp_assert(r.index[k][c] == 100 * k - 7 * c, "cell of an integration point"); } }
  for (int c = 0; c < 2; ++c) { vp_assert(r.iB[c] == i[c], "the cell itself"); vp_eq(r.xB[c], (double(i[c]) + 0.5 + h::val<2>(g.data.boundary_centeroids, i, c)) * dx[c], "the boundary centroid of the cell"); }
  vp_cover("end");
}
} // namespace
VP_ENTRY cut2() { cut<2>(); } VP_ENTRY cut3() { cut<3>(); } VP_ENTRY vectors2() { vectors<2>(); } VP_ENTRY vectors3() { vectors<3>(); }
