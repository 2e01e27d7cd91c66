// A first-order flux method that only records what it is handed.
#pragma once
#include "gas.hpp"
namespace h {
struct Captured { int calls = 0; std::vector<std::vector<double>> state[2]; std::vector<std::vector<double>> flux; double dt = 0, dx = 0; int dir = -1; std::vector<double> face, vol[2]; };
inline Captured cap;
template <typename Eq> struct Capture {
  explicit Capture(const Eq& e) : eq(e) {}
  static constexpr int GetStencilWidth() noexcept { return 1; }
  const Eq& GetEquation() const noexcept { return eq; }
  void note(Duration dt, double dx, Direction dir) { cap.calls++; cap.dt = dt.count(); cap.dx = dx; cap.dir = int(dir); }
  template <typename F> void fill(F& f) { junk(f); }
  void ComputeNumericFlux(Conservative<Eq>& f, span<const Complete<Eq>, 2> s, Duration dt, double dx, Direction dir) {
    note(dt, dx, dir); for (int k = 0; k < 2; ++k) cap.state[k] = {comps(s[k])};
    junk(f); cap.flux = {comps(f)};
  }
  void ComputeNumericFlux(ConservativeArray<Eq>& f, span<const CompleteArray<Eq>, 2> s, Duration dt, double dx, Direction dir) {
    note(dt, dx, dir);
    for (int k = 0; k < 2; ++k) { cap.state[k].clear(); for (int l = 0; l < W; ++l) cap.state[k].push_back(lane(s[k], l)); }
    junk(f); cap.flux.clear(); for (int l = 0; l < W; ++l) cap.flux.push_back(lane(f, l));
  }
  template <typename V> void ComputeNumericFlux(ConservativeArray<Eq>& f, Array1d face, span<const CompleteArray<Eq>, 2> s, V vols, Duration dt, double dx, Direction dir) {
    ComputeNumericFlux(f, s, dt, dx, dir);
    cap.face.clear(); for (int l = 0; l < W; ++l) cap.face.push_back(face[l]);
    for (int k = 0; k < 2; ++k) { cap.vol[k].clear(); for (int l = 0; l < W; ++l) cap.vol[k].push_back(vols[k][l]); }
  }
  double ComputeStableDt(span<const Complete<Eq>, 2> s, double dx, Direction dir) { note(Duration(0), dx, dir); for (int k = 0; k < 2; ++k) cap.state[k] = {comps(s[k])}; cap.dt = pos("stable"); return cap.dt; }
  Eq eq;
};
} // namespace h
