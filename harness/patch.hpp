// Patch data for every variable of a state, with a rim, and direct cell access.
#pragma once
#include "gas.hpp"
#include "fub/ForEach.hpp"
#include "fub/StateRow.hpp"
#include <deque>
#include <map>
namespace h {
template <int R, typename F> void forBox(const IndexBox<R>& b, F f) {
  for (int k = 0; k < R; ++k) if (b.lower[k] >= b.upper[k]) return;
  Index<R> i = b.lower;
  while (true) {
    f(i);
    int k = 0;
    while (k < R && ++i[k] == b.upper[k]) { i[k] = b.lower[k]; ++k; }
    if (k == R) return;
  }
}
template <int R> bool in(const IndexBox<R>& b, const Index<R>& i) {
  for (int k = 0; k < R; ++k) if (i[k] < b.lower[k] || i[k] >= b.upper[k]) return false;
  return true;
}
template <int R> IndexBox<R> grown(IndexBox<R> b, int w) { for (int k = 0; k < R; ++k) { b.lower[k] -= w; b.upper[k] += w; } return b; }
template <typename State, int R> struct Patch {
  IndexBox<R> box; // allocated cells
  std::deque<std::vector<double>> mem;
  std::vector<double*> comp;
  View<State, R> full;
  long n = 1;
  template <typename Eq> Patch(const Eq& eq, const IndexBox<R>& b, const char* name) : box(b) {
    std::array<std::ptrdiff_t, R> ext;
    for (int k = 0; k < R; ++k) { ext[k] = b.upper[k] - b.lower[k]; n *= ext[k]; }
    auto depths = Depths(eq, Type<State>{});
    ForEachVariable(overloaded{
      [&](PatchDataView<double, R, layout_stride>& v, ScalarDepth) {
        double* p = add(1, name);
        v = PatchDataView<double, R>(mdspan<double, R>(p, dynamic_extents<R>(ext)), b.lower).Subview(b);
      },
      [&](PatchDataView<double, R + 1, layout_stride>& v, auto depth) {
        int d = depth;
        double* p = add(d, name);
        std::array<std::ptrdiff_t, R + 1> e; std::copy(ext.begin(), ext.end(), e.begin()); e[R] = d;
        std::array<std::ptrdiff_t, R + 1> o; std::copy(b.lower.begin(), b.lower.end(), o.begin()); o[R] = 0;
        v = PatchDataView<double, R + 1>(mdspan<double, R + 1>(p, dynamic_extents<R + 1>(e)), o).Subview(Embed<R + 1>(b, {0, d}));
      }}, full, depths);
  }
  Patch(const Patch&) = delete;
  double* add(int d, const char* name) {
    mem.emplace_back(n * d);
    for (double& x : mem.back()) x = vp_real(name);
    for (int c = 0; c < d; ++c) comp.push_back(mem.back().data() + c * n);
    return mem.back().data();
  }
  long off(const Index<R>& i) const { long o = 0, s = 1; for (int k = 0; k < R; ++k) { o += (i[k] - box.lower[k]) * s; s *= box.upper[k] - box.lower[k]; } return o; }
  double& at(int c, const Index<R>& i) { return comp[c][off(i)]; }
  int ncomp() const { return comp.size(); }
  std::vector<double> cell(const Index<R>& i) { std::vector<double> v; for (int c = 0; c < ncomp(); ++c) v.push_back(at(c, i)); return v; }
  void set(const Index<R>& i, const std::vector<double>& v) { for (int c = 0; c < ncomp(); ++c) at(c, i) = v[c]; }
  View<State, R> view(const IndexBox<R>& b) { return Shrink(full, b); }
  static View<State, R> Shrink(const View<State, R>& v, const IndexBox<R>& b) {
    View<State, R> r;
    ForEachVariable(overloaded{
      [&](PatchDataView<double, R, layout_stride>& d, const PatchDataView<double, R, layout_stride>& s) { d = s.Subview(b); },
      [&](PatchDataView<double, R + 1, layout_stride>& d, const PatchDataView<double, R + 1, layout_stride>& s) { auto sb = s.Box(); d = s.Subview(Embed<R + 1>(b, {sb.lower[R], sb.upper[R]})); }}, r, v);
    return r;
  }
  std::vector<std::vector<double>> snapshot() const { return {mem.begin(), mem.end()}; }
  void unchanged(const std::vector<std::vector<double>>& s, const char* label) const { for (std::size_t k = 0; k < s.size(); ++k) for (std::size_t i = 0; i < s[k].size(); ++i) vp_eq(mem[k][i], s[k][i], label); }
  // everything outside b equals the snapshot
  void unchangedOutside(const std::vector<std::vector<double>>& s, const IndexBox<R>& b, const char* label) {
    forBox(box, [&](const Index<R>& i) {
      if (in(b, i)) return;
      long o = off(i);
      for (std::size_t k = 0; k < s.size(); ++k) for (std::size_t j = o; j < s[k].size(); j += n) vp_eq(mem[k][j], s[k][j], label);
    });
  }
};
template <int R> IndexBox<R> boxOf(int nx, int ny, int nz) {
  const int ext[3] = {nx, ny, nz}, org[3] = {3, -1, 5};
  IndexBox<R> b;
  for (int k = 0; k < R; ++k) { b.lower[k] = org[k]; b.upper[k] = org[k] + ext[k]; }
  return b;
}
} // namespace h
