// Cut-cell data over a box, every value symbolic.
#pragma once
#include "patch.hpp"
#include "fub/CutCellData.hpp"
namespace h {
template <int R> struct Geo {
  std::deque<std::vector<double>> mem; CutCellData<R> data;
  template <int K> PatchDataView<const double, K> add(const IndexBox<K>& b, const char* name) {
    std::array<std::ptrdiff_t, K> ext; long n = 1; for (int k = 0; k < K; ++k) n *= ext[k] = b.upper[k] - b.lower[k];
    mem.emplace_back(n); for (double& x : mem.back()) x = vp_real(name);
    return PatchDataView<const double, K>(mdspan<const double, K>(mem.back().data(), dynamic_extents<K>(ext)), b.lower);
  }
  // cells: box of cells; faces get one more in their direction
  explicit Geo(const IndexBox<R>& cells) {
    data.volume_fractions = add<R>(cells, "volume");
    const auto vec = Embed<R + 1>(cells, {0, R});
    data.volume_centeroid = add<R + 1>(vec, "volume.centroid"); data.boundary_normals = add<R + 1>(vec, "normal"); data.boundary_centeroids = add<R + 1>(vec, "boundary.centroid");
    data.distance_to_boundary_left = add<R + 1>(vec, "left"); data.distance_to_boundary_right = add<R + 1>(vec, "right");
    for (int d = 0; d < R; ++d) {
      IndexBox<R> f = cells; f.upper[d] += 1;
      data.face_fractions[d] = add<R>(f, "face"); data.unshielded_fractions[d] = add<R>(f, "us"); data.shielded_left_fractions[d] = add<R>(f, "sl"); data.shielded_right_fractions[d] = add<R>(f, "sr"); data.doubly_shielded_fractions[d] = add<R>(f, "ds");
      data.unshielded_fractions_rel[d] = add<R>(f, "us.rel"); data.shielded_left_fractions_rel[d] = add<R>(f, "sl.rel"); data.shielded_right_fractions_rel[d] = add<R>(f, "sr.rel"); data.doubly_shielded_fractions_rel[d] = add<R>(f, "ds.rel");
    }
  }
  Geo(const Geo&) = delete;
};
template <int K> double val(const PatchDataView<const double, K>& v, const Index<K>& i) { // read without the view's own index arithmetic
  const auto b = v.Box(); long o = 0, s = 1; for (int k = 0; k < K; ++k) { o += (i[k] - b.lower[k]) * s; s *= b.upper[k] - b.lower[k]; } return v.Span().data()[o];
}
template <int R> double val(const PatchDataView<const double, R + 1>& v, const Index<R>& i, int c) { Index<R + 1> j; for (int k = 0; k < R; ++k) j[k] = i[k]; j[R] = c; return val<R + 1>(v, j); }
} // namespace h
