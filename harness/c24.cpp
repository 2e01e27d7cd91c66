// C24: refinement tags.
#include "patch.hpp"
#include "fub/tagging_method/GradientDetector.hpp"
#include "fub/tagging_method/TagBuffer.hpp"
#include "fub/tagging_method/TagCutCells.hpp"
using namespace fub;
namespace {
// tags (and any other cell data) over a box with a rim of one cell
template <typename T, int R> struct Cells {
  IndexBox<R> box, inner; std::vector<T> mem; StridedDataView<T, R> full, view;
  Cells(const IndexBox<R>& in, int rim) : box(h::grown(in, rim)), inner(in) {
    std::array<std::ptrdiff_t, R> ext; long n = 1;
    for (int k = 0; k < R; ++k) n *= ext[k] = box.upper[k] - box.lower[k];
    mem.resize(n);
    full = PatchDataView<T, R>(mdspan<T, R>(mem.data(), dynamic_extents<R>(ext)), box.lower).Subview(box);
    view = full.Subview(in);
  }
  T& at(const Index<R>& i) { long o = 0, s = 1; for (int k = 0; k < R; ++k) { o += (i[k] - box.lower[k]) * s; s *= box.upper[k] - box.lower[k]; } return mem[o]; }
};
template <int R> IndexBox<R> theBox() { return h::boxOf<R>(vp_param("nx", 3), vp_param("ny", 3), vp_param("nz", 3)); }
template <int R> Cells<char, R> someTags(const IndexBox<R>& b, int rim, int values) { Cells<char, R> t(b, rim); for (char& c : t.mem) c = char(vp_int("tag", 0, values)); return t; }
// ------------------------------------------------ tag buffers
template <int R> void buffer() {
  const int w = vp_param("w", 1);
  IndexBox<R> b = theBox<R>();
  Cells<char, R> t = someTags(b, 1, vp_param("values", 1)), old = t;
  TagBuffer(w).TagCellsForRefinement(t.view);
  h::forBox(t.box, [&](const Index<R>& i) {
    if (!h::in(b, i)) { vp_assert(t.at(i) == old.at(i), "tags outside of the patch are left alone"); return; }
    bool near = false;
    IndexBox<R> n; for (int k = 0; k < R; ++k) { n.lower[k] = std::max(b.lower[k], i[k] - w); n.upper[k] = std::min(b.upper[k], i[k] + w + 1); }
    h::forBox(n, [&](const Index<R>& j) { near = near | (old.at(j) != 0); });
    vp_assert((t.at(i) != 0) == near, "exactly the cells within the buffer width of a tagged cell are tagged");
  });
  vp_cover("end");
}
// ------------------------------------------------ cut cells
template <int R> void cutcells() {
  IndexBox<R> b = theBox<R>(); const int extra = vp_param("extra", 0);
  Cells<char, R> t = someTags(b, 1, 2), old = t;
  IndexBox<R> vb = b; for (int k = 0; k < R; ++k) { vb.lower[k] += extra < 0 ? 1 : -extra; vb.upper[k] += extra < 0 ? 0 : extra; }
  Cells<double, R> v(vb, 0); for (double& x : v.mem) x = vp_real("volume");
  StridedDataView<const double, R> cv = v.full;
  TagCutCells().TagCellsForRefinement(t.view, cv);
  h::forBox(t.box, [&](const Index<R>& i) {
    const bool cut = h::in(b, i) && h::in(vb, i) ? (v.at(i) > 0) & (v.at(i) < 1) : false;
    vp_assert(((t.at(i) != 0) == (cut | (old.at(i) != 0))) & (cut | (t.at(i) == old.at(i))), "exactly the partially covered cells are tagged");
  });
  vp_cover("end");
}
// ------------------------------------------------ gradients
// value of the monitored quantity of one cell
struct Mass { template <typename S> auto operator()(const S& s) const -> std::decay_t<decltype(s.mass)> { return s.mass; } };
struct U { template <typename S> auto operator()(const S& s) const -> std::decay_t<decltype(s.u)> { return s.u; } };
struct Density { template <typename S> auto operator()(const S& s) const -> std::decay_t<decltype(s.density)> { return s.density; } };
struct Pressure { template <typename S> auto operator()(const S& s) const -> std::decay_t<decltype(s.pressure)> { return s.pressure; } };
// the same for single cells only
template <typename P> struct Single : P { template <typename E> double operator()(const Complete<E>& s) const { return P::operator()(s); } };
template <typename E, typename... P> void gradient(const E& eq, P... ps) {
  constexpr int R = E::Rank();
  IndexBox<R> b = theBox<R>();
  h::Patch<Complete<E>, R> p(eq, h::grown(b, 1), "q");
  Cells<char, R> t = someTags(b, 1, 2), old = t;
  const double tol[2] = {vp_real("tolerance"), vp_real("tolerance")};
  vp_assume(tol[0] > 0); vp_assume(tol[1] > 0);
  int k = 0;
  GradientDetector detector(eq, std::pair<P, double>{ps, tol[k++]}...);
  auto value = [&](const auto& proj, const Index<R>& i) { Complete<E> s(eq); std::size_t c = 0; h::eachReal(s, [&](double& x) { x = p.at(c++, i); }); return proj(s); };
  h::forBox(p.box, [&](const Index<R>& i) { (vp_assume(value(ps, i) != 0), ...); });
  const int mode = vp_param("volumes", 0);
  Cells<double, R> v(p.box, 0); for (double& x : v.mem) x = vp_real("volume");
  const auto before = p.snapshot();
  if constexpr (!decltype(detector)::is_array_based) {
    if (mode) { StridedDataView<const double, R> cv = v.full; detector.TagCellsForRefinement(t.view, AsConst(p.full), cv); }
    else detector.TagCellsForRefinement(t.view, AsConst(p.full));
  } else detector.TagCellsForRefinement(t.view, AsConst(p.full));
  p.unchanged(before, "tagging does not change the data");
  h::forBox(t.box, [&](const Index<R>& i) {
    bool steep = false;
    if (h::in(b, i)) for (int d = 0; d < R; ++d) {
      const Index<R> l = Shift(i, Direction(d), -1), r = Shift(i, Direction(d), 1);
      bool open = true;
      if (mode) open = (v.at(l) > 0) & (v.at(i) > 0) & (v.at(r) > 0);
      int c = 0;
      auto one = [&](const auto& proj) {
        const double xL = value(proj, l), xM = value(proj, i), xR = value(proj, r), e = tol[c++];
        auto a = [](double x) { return vp_sel(x < 0, -x, x); };
        steep = steep | (open & ((a(xM - xL) / (a(xM) + a(xL)) > e) | (a(xM - xR) / (a(xM) + a(xR)) > e)));
      };
      (one(ps), ...);
    }
    vp_assert(((t.at(i) != 0) == (steep | (old.at(i) != 0))) & (steep | (t.at(i) == old.at(i))), "exactly the cells with a steep relative difference to a neighbour are tagged");
  });
  vp_cover("end");
}
template <typename E> E eq() { return h::makeEq(Type<E>{}); }
} // namespace
VP_ENTRY buffer1() { buffer<1>(); } VP_ENTRY buffer2() { buffer<2>(); } VP_ENTRY buffer3() { buffer<3>(); }
VP_ENTRY cut1() { cutcells<1>(); } VP_ENTRY cut2() { cutcells<2>(); } VP_ENTRY cut3() { cutcells<3>(); }
VP_ENTRY array_u1() { gradient(eq<Burgers1d>(), U{}); } VP_ENTRY array_mass2() { gradient(eq<Advection2d>(), Mass{}); }
VP_ENTRY array_gas1() { gradient(eq<PerfectGas<1>>(), Density{}, Pressure{}); } VP_ENTRY array_gas3() { gradient(eq<PerfectGas<3>>(), Density{}); }
VP_ENTRY scalar_u1() { gradient(eq<Burgers1d>(), Single<U>{}); } VP_ENTRY scalar_mass2() { gradient(eq<Advection2d>(), Single<Mass>{}); }
VP_ENTRY scalar_gas1() { gradient(eq<PerfectGas<1>>(), Single<Density>{}, Single<Pressure>{}); } VP_ENTRY scalar_gas3() { gradient(eq<PerfectGas<3>>(), Single<Density>{}); }
VP_ENTRY both_gas1() { gradient(eq<PerfectGas<1>>(), Density{}, Single<Pressure>{}); }
