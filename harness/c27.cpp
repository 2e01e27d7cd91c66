// C27: signed distances of geometries.
#include "vp.hpp"
#include <algorithm>
#include <cmath>
#include <numeric>
#include <limits>
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/ExpandTube.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/RotateAxis.hpp"
#include "fub/geometry/Union.hpp"
#include <vector>
#include <boost/container/pmr/memory_resource.hpp>
namespace boost { namespace container { namespace pmr { // polygons keep their vertices on the heap
namespace { struct Heap : memory_resource { void* do_allocate(std::size_t n, std::size_t) override { return ::operator new(n); } void do_deallocate(void* p, std::size_t, std::size_t) override { ::operator delete(p); } bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } } heap; }
memory_resource* get_default_resource() noexcept { return &heap; }
}}}
using namespace fub;
namespace {
double mn(double a, double b) { return vp_sel(b < a, b, a); }
double mx(double a, double b) { return vp_sel(a < b, b, a); }
struct P { double x, y; };
P point(const char* n) { P p; p.x = vp_real(n); p.y = vp_real(n); return p; }
double segment(P v, P w, P p) { // distance to a segment of positive length
  const double dx = w.x - v.x, dy = w.y - v.y, t = mx(mn(((p.x - v.x) * dx + (p.y - v.y) * dy) / (dx * dx + dy * dy), 1), 0);
  const double ex = (1 - t) * v.x + t * w.x - p.x, ey = (1 - t) * v.y + t * w.y - p.y;
  return std::sqrt(ex * ex + ey * ey);
}
bool crosses(P v, P w, P p) { // the half line from p to the left meets the edge
  const double at = v.x + (w.x - v.x) * ((p.y - v.y) / (w.y - v.y));
  return (((v.y < p.y) & (p.y <= w.y)) | ((w.y < p.y) & (p.y <= v.y))) & (at < p.x);
}
Polygon closed(const std::vector<P>& v, int first = 0) {
  Polygon::Vector xs, ys; const int n = int(v.size());
  for (int k = 0; k <= n; ++k) { xs.push_back(v[(k + first) % n].x); ys.push_back(v[(k + first) % n].y); }
  return Polygon(xs, ys);
}
} // namespace
VP_ENTRY halfspace() {
  Eigen::Vector3d n, x; double n2 = 0, nx = 0; for (int k = 0; k < 3; ++k) { n[k] = vp_real("n"); x[k] = vp_real("x"); n2 += n[k] * n[k]; nx += n[k] * x[k]; }
  vp_assume(n2 > 0); const double o = vp_real("offset"); const Halfspace h(n, o);
  vp_eq(h(x), nx / std::sqrt(n2) - o, "distance along the unit normal, less the offset"); vp_eq(h(x[0], x[1], x[2]), nx / std::sqrt(n2) - o, "the same from coordinates");
  vp_cover("end");
}
VP_ENTRY polygon() { // any closed line without horizontal edges
  const int n = vp_param("edges", 3), first = vp_param("first", 0), side = vp_param("side", 0); std::vector<P> v; for (int k = 0; k < n; ++k) v.push_back(point("vertex"));
  const P p = point("p");
  for (int k = 0; k < n; ++k) { const P a = v[k], b = v[(k + 1) % n]; vp_assume(a.y != b.y); vp_assume((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) > 0);  }
  const Polygon g = closed(v, first); const double d = g.ComputeDistanceTo(p.x, p.y);
  if (side) {
    bool odd = false; for (int k = 0; k < n; ++k) odd = odd ^ crosses(v[k], v[(k + 1) % n], p);
    vp_assert((odd & (d >= 0)) | (!odd & (d <= 0)), "positive exactly where a half line crosses the polygon an odd number of times");
  } else {
    bool one = false; const double size = vp_sel(d < 0, -d, d);
    for (int k = 0; k < n; ++k) { const double e = segment(v[k], v[(k + 1) % n], p); vp_le(size, e, "no edge is nearer than the distance"); one = one | (e <= size); }
    vp_assert(one, "the distance is that to one of the edges");
  }
  vp_cover("end");
}
VP_ENTRY triangle() { // inside exactly if on the same side of all edges
  const P p = point("p"); std::vector<P> v, q; for (int k = 0; k < 3; ++k) { q.push_back(point("vertex")); v.push_back(P{p.x + q[k].x, p.y + q[k].y}); } // relative to the point
  for (int k = 0; k < 3; ++k) vp_assume(q[k].y != q[(k + 1) % 3].y);
  const double d = closed(v).ComputeDistanceTo(p.x, p.y), a = q[0].x * q[1].y - q[0].y * q[1].x, b = q[1].x * q[2].y - q[1].y * q[2].x, c = q[2].x * q[0].y - q[2].y * q[0].x;
  const double o = a + b + c; // twice the area
  switch (vp_param("case", 0)) {
  case 0: vp_assert(!((a > 0) & (b > 0) & (c > 0)) | (d >= 0), "positive inside"); break;
  case 1: vp_assert(!((o > 0) & ((a < 0) | (b < 0) | (c < 0))) | (d <= 0), "negative outside"); break;
  case 2: vp_assert(!((a < 0) & (b < 0) & (c < 0)) | (d >= 0), "positive inside, clockwise"); break;
  default: vp_assert(!((o < 0) & ((a > 0) | (b > 0) | (c > 0))) | (d <= 0), "negative outside, clockwise");
  }
  vp_cover("end");
}
VP_ENTRY box() { // horizontal and vertical edges, both orientations, any first vertex
  const P l = point("lower"), p = point("p"); P u; u.x = l.x + vp_real("w"); u.y = l.y + vp_real("h"); vp_assume(u.x > l.x); vp_assume(u.y > l.y);
  std::vector<P> v{{l.x, l.y}, {u.x, l.y}, {u.x, u.y}, {l.x, u.y}}; if (vp_param("clockwise", 0)) std::swap(v[1], v[3]);
  const double d = closed(v, vp_param("first", 0)).ComputeDistanceTo(p.x, p.y);
  const bool in = (p.x > l.x) & (p.x < u.x) & (p.y > l.y) & (p.y < u.y);
  const double dx = mx(mx(l.x - p.x, p.x - u.x), 0), dy = mx(mx(l.y - p.y, p.y - u.y), 0);
  vp_assert(!in | (d >= 0), "positive inside of the box"); vp_assert((dx == 0) & (dy == 0) | (d <= 0), "negative outside of the box");
  const double inner = mn(mn(p.x - l.x, u.x - p.x), mn(p.y - l.y, u.y - p.y));
  vp_eq(d * d, vp_sel(in, inner * inner, dx * dx + dy * dy), "the Euclidean distance to the box");
  vp_cover("end");
}
VP_ENTRY cone() {
  std::array<double, 3> x0, x; for (int k = 0; k < 3; ++k) { x0[k] = vp_real("base"); x[k] = vp_real("x"); }
  const double R = vp_real("radius"), H = vp_real("height"); vp_assume(R > 0); vp_assume(H > 0); const bool in = vp_param("in", 1) != 0;
  const double d = ConeIF(x0, R, H, in).ComputeDistanceTo(x);
  const double l = x[0] - x0[0], dy = x[1] - x0[1], dz = x[2] - x0[2], r = std::sqrt(dy * dy + dz * dz);
  const bool inside = (l >= 0) & (r * H <= (H - l) * R);
  const double face = segment(P{0, R}, P{H, 0}, P{l, r}), out = mx(r - R, 0), base = std::sqrt(l * l + out * out), want = mn(face, base);
  vp_eq(d, vp_sel(inside == in, -want, want), "the Euclidean distance to the cone, negative inside");
  vp_cover("end");
}
VP_ENTRY tube() { // starts upwards, ends downwards, mitred where two segments meet
  const int n = vp_param("points", 3); std::vector<P> c; for (int k = 0; k < n; ++k) c.push_back(point("centre"));
  c[1].x = c[0].x; vp_assume(c[1].y > c[0].y); if (n > 3) { c[n - 1].x = c[n - 2].x; vp_assume(c[n - 1].y < c[n - 2].y); }
  const double R = vp_real("radius"); vp_assume(R > 0);
  Eigen::Matrix<double, 3, Eigen::Dynamic> pts(3, n); for (int k = 0; k < n; ++k) { pts(0, k) = c[k].x; pts(1, k) = c[k].y; pts(2, k) = 0; }
  for (int k = 0; k + 1 < n; ++k) vp_assume((c[k + 1].x - c[k].x) * (c[k + 1].x - c[k].x) + (c[k + 1].y - c[k].y) * (c[k + 1].y - c[k].y) > 0);
  std::vector<P> t(n - 1), m(n); // tangents; normals of the mitre planes
  for (int k = 0; k + 1 < n; ++k) { const double dx = c[k + 1].x - c[k].x, dy = c[k + 1].y - c[k].y, s = std::sqrt(dx * dx + dy * dy); t[k] = P{dx / s, dy / s}; }
  m[0] = P{0, 1}; m[n - 1] = P{0, -1};
  for (int k = 1; k + 1 < n; ++k) { const P a = k == 1 ? P{0, 1} : t[k - 1]; const double x = 0.5 * (a.x + t[k].x), y = 0.5 * (a.y + t[k].y), s = x * x + y * y; vp_assume(s > 0); m[k] = P{x / std::sqrt(s), y / std::sqrt(s)}; }
  const ExpandTube tube(pts, R);
  const double x = vp_real("x"), y = vp_real("y"), z = vp_real("z"), d = tube(x, y, z);
  double want = 0;
  for (int k = 0; k + 1 < n; ++k) {
    const double lo = m[k].x * c[k].x + m[k].y * c[k].y - (m[k].x * x + m[k].y * y), hi = m[k + 1].x * x + m[k + 1].y * y - (m[k + 1].x * c[k + 1].x + m[k + 1].y * c[k + 1].y);
    const double len = t[k].x * (x - c[k].x) + t[k].y * (y - c[k].y), ex = x - (c[k].x + len * t[k].x), ey = y - (c[k].y + len * t[k].y), r = std::sqrt(ex * ex + ey * ey + z * z) - R;
    const double s = mx(mx(lo, hi), r); want = k ? mn(want, s) : s;
  }
  vp_eq(d, -want, "positive inside of one of the cylinders between the mitre planes"); vp_eq(tube(Eigen::Vector3d(x, y, z)), d, "points given as a vector");
  vp_cover("end");
}
namespace {
struct Base3 { double s; double ComputeDistanceTo(std::array<double, 3> x) const { return vp_uf4("base3", s, x[0], x[1], x[2]); } };
struct Base2 { double s; double ComputeDistanceTo(std::array<double, 2> x) const { return vp_uf3("base2", s, x[0], x[1]); } double ComputeDistanceTo(double x, double y) const { return vp_uf3("base2", s, x, y); } };
struct Base1 { double s; double ComputeDistanceTo(double x) const { return vp_uf2("base1", s, x); } };
} // namespace
VP_ENTRY invert() {
  const double s = vp_real("s"), x = vp_real("x"), y = vp_real("y"), z = vp_real("z"); using A3 = std::array<double, 3>; using A2 = std::array<double, 2>;
  vp_eq(Invert(Base3{s}).ComputeDistanceTo(A3{x, y, z}), -vp_uf4("base3", s, x, y, z), "inverting negates the distance"); vp_eq(Invert(Base3{s}).ComputeDistanceTo(A2{x, y}), -vp_uf4("base3", s, x, y, 0), "inverting negates the distance, in the plane");
  vp_eq(Invert(Base2{s}).ComputeDistanceTo(A3{x, y, z}), -vp_uf3("base2", s, x, y), "inverting negates the distance of a plane geometry"); vp_eq(Invert(Base2{s}).ComputeDistanceTo(A2{x, y}), -vp_uf3("base2", s, x, y), "inverting negates the distance");
  vp_eq(Invert(Base1{s}).ComputeDistanceTo(A3{x, y, z}), -vp_uf2("base1", s, x), "inverting negates the distance of a line geometry"); vp_eq(Invert(Base1{s}).ComputeDistanceTo(A2{x, y}), -vp_uf2("base1", s, x), "inverting negates the distance of a line geometry");
  vp_cover("end");
}
VP_ENTRY rotate() {
  const double s = vp_real("s"), x = vp_real("x"), y = vp_real("y"), z = vp_real("z"), a = vp_real("angle"), ox = vp_real("origin"), oy = vp_real("origin");
  vp_eq(RotateAxis<Base2>(Base2{s}).ComputeDistanceTo({x, y, z}), vp_uf3("base2", s, x, std::sqrt(y * y + z * z)), "distance of a body of revolution");
  const double c = std::cos(-a), n = std::sin(-a), dx = x - ox, dy = y - oy; // the point turned back
  vp_eq(RotateAroundPoint<Base2>(Base2{s}, a, {ox, oy}).ComputeDistanceTo({x, y}), vp_uf3("base2", s, ox + (c * dx - n * dy), oy + (n * dx + c * dy)), "a turned geometry has the distances of the points turned back");
  vp_cover("end");
}
VP_ENTRY polymorphic() {
  const int n = vp_param("members", 3); const std::array<double, 2> x{vp_real("x"), vp_real("y")};
  std::vector<PolymorphicGeometry<2>> g; std::vector<double> s; for (int k = 0; k < n; ++k) { s.push_back(vp_real("s")); g.push_back(PolymorphicGeometry<2>(Base2{s.back()})); }
  auto at = [&](double k) { return vp_uf3("base2", k, x[0], x[1]); };
  double want = std::numeric_limits<double>::lowest(); for (int k = 0; k < n; ++k) { vp_eq(g[k].ComputeDistanceTo(x), at(s[k]), "distance of the wrapped geometry"); want = mx(want, at(s[k])); }
  const PolymorphicUnion<2> u(g); vp_eq(u.ComputeDistanceTo(x), want, "the union of geometries which are positive inside");
  const PolymorphicGeometry<2> w(u), copy(w); vp_eq(w.ComputeDistanceTo(x), want, "a union wrapped"); vp_eq(copy.ComputeDistanceTo(x), want, "copies keep the geometry"); vp_eq(w.Clone()->ComputeDistanceTo(x), want, "clones keep the geometry");
  const PolymorphicGeometry<2> in(Invert<Base2>(Base2{s[0]})); vp_eq(in.ComputeDistanceTo(x), -at(s[0]), "an inverted geometry wrapped");
  vp_cover("end");
}
