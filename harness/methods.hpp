// The numerical flux methods under one interface: Eq, Method, make(eq).
#pragma once
#include "gas.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/EinfeldtSignalVelocities.hpp"
#include "fub/equations/EulerEquation.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
namespace h {
template <typename E> constexpr bool isMixEq = std::is_base_of_v<PerfectGasConstants, E>;
template <typename E> E symEq(bool msq = false) {
  if constexpr (!isMixEq<E>) return makeEq(Type<E>{});
  else return makeEq(Type<E>{}, vp_param("species", 1), vp_param("scalars", 1), msq);
}
template <typename E, typename M> struct Plain { using Eq = E; using Method = M; static M make(const E& eq) { return M(eq); } };
template <typename E, typename S> struct WithSignals { using Eq = E; using Method = Hll<E, S>; static Method make(const E& eq) { return Method(eq, S{}); } };
using GodAdv = Plain<Advection2d, Godunov<Advection2d>>;
using GodBurgers = Plain<Burgers1d, Godunov<Burgers1d>>;
using HllShallow = WithSignals<ShallowWater, ShallowWaterSignalVelocities>;
template <int N> using HllGas = WithSignals<PerfectGas<N>, EinfeldtSignalVelocities<PerfectGas<N>>>;
template <int N> using HllMix = WithSignals<PerfectGasMix<N>, EinfeldtSignalVelocities<PerfectGasMix<N>>>;
template <int N> using HllemGas = Plain<PerfectGas<N>, perfect_gas::Hllem<PerfectGas<N>, false>>;
template <int N> using HllemLGas = Plain<PerfectGas<N>, perfect_gas::Hllem<PerfectGas<N>, true>>;
template <int N> using HllemMix = Plain<PerfectGasMix<N>, perfect_gas::Hllem<PerfectGasMix<N>, false>>;
template <int N> using HllemLMix = Plain<PerfectGasMix<N>, perfect_gas::Hllem<PerfectGasMix<N>, true>>;
template <typename L> using MhAdv = Plain<Advection2d, MusclHancock<Advection2d, GodunovMethod<Advection2d>, L>>;
template <typename L> using MhBurgers = Plain<Burgers1d, MusclHancock<Burgers1d, GodunovMethod<Burgers1d>, L>>;
template <typename E, typename S, typename L> struct MhHll {
  using Eq = E; using Base = HllMethod<E, S>; using Method = MusclHancock<E, Base, L>;
  static Method make(const E& eq) { return Method(eq, Base(eq, S{})); }
};
template <typename L> using MhShallow = MhHll<ShallowWater, ShallowWaterSignalVelocities, L>;
template <int N, typename L> using MhGas = MhHll<PerfectGas<N>, EinfeldtSignalVelocities<PerfectGas<N>>, L>;
template <typename L> using Central = CentralDifferenceGradient<L>;
template <typename E, typename L> using Mh2Cons = Plain<E, MusclHancock2<E, ConservativeGradient<E, Central<L>>, ConservativeReconstruction<E>, perfect_gas::Hllem<E, false>>>;
template <typename E, typename L> using Mh2Prim = Plain<E, MusclHancock2<E, PrimitiveGradient<E, Central<L>>, PrimitiveReconstruction<E>, perfect_gas::Hllem<E, false>>>;
template <typename E, typename L> using Mh2Char = Plain<E, MusclHancock2<E, CharacteristicsGradient<E, Central<L>>, CharacteristicsReconstruction<E>, perfect_gas::Hllem<E, false>>>;

template <typename T> constexpr int width = 2 * T::Method::GetStencilWidth();
template <typename T> using StateOf = Complete<typename T::Eq>;
template <typename T> std::vector<StateOf<T>> makeStencil(const typename T::Eq& eq, int n = width<T>) {
  std::vector<StateOf<T>> v; for (int i = 0; i < n; ++i) v.push_back(makeState(eq, "q")); return v;
}
template <typename T> span<const StateOf<T>, width<T>> asSpan(const std::vector<StateOf<T>>& v) { return span<const StateOf<T>, width<T>>(v.data(), width<T>); }
template <typename T> std::vector<double> numFlux(typename T::Method& m, const std::vector<StateOf<T>>& s, double dt, double dx, Direction dir) {
  Conservative<typename T::Eq> f(m.GetEquation()); junk(f);
  m.ComputeNumericFlux(f, asSpan<T>(s), Duration(dt), dx, dir);
  return comps(f);
}
template <typename T> std::vector<CompleteArray<typename T::Eq>> chunks(const typename T::Eq& eq, const std::vector<std::vector<StateOf<T>>>& lanes) { // lanes[l][k]
  std::vector<CompleteArray<typename T::Eq>> a;
  for (int k = 0; k < width<T>; ++k) { std::vector<StateOf<T>> c; for (int l = 0; l < W; ++l) c.push_back(lanes[l][k]); a.push_back(chunkOf(eq, c)); }
  return a;
}
template <typename T> ConservativeArray<typename T::Eq> numFluxArray(typename T::Method& m, const std::vector<CompleteArray<typename T::Eq>>& a, double dt, double dx, Direction dir) {
  using A = CompleteArray<typename T::Eq>;
  ConservativeArray<typename T::Eq> f(m.GetEquation()); junk(f);
  m.ComputeNumericFlux(f, span<const A, width<T>>(a.data(), width<T>), Duration(dt), dx, dir);
  return f;
}
template <typename E> std::vector<double> physFlux(const E& eq, const Complete<E>& q, Direction dir) { Conservative<E> f(eq); junk(f); E e = eq; Flux(e, f, q, dir); return comps(f); }
} // namespace h
