// Stands in for the HLLEM flux: records the two states it is handed.
#ifndef FUB_PERFECT_GAS_HLLEM_METHOD_HPP
#define FUB_PERFECT_GAS_HLLEM_METHOD_HPP
#include "fub/Duration.hpp"
#include "fub/core/span.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "capture.hpp"
namespace fub::perfect_gas {
template <typename Eq, bool L = true> struct Hllem : h::Capture<Eq> {
  Hllem(const Eq& e) : h::Capture<Eq>(e) {}
  Array1d ComputeStableDt(span<const CompleteArray<Eq>, 2>, double, Direction) { return Array1d::Zero(); }
  Array1d ComputeStableDt(span<const CompleteArray<Eq>, 2>, Array1d, span<const Array1d, 2>, double, Direction) { return Array1d::Zero(); }
  using h::Capture<Eq>::ComputeStableDt;
};
template <typename Eq> Hllem(const Eq&) -> Hllem<Eq, true>;
template <typename Eq, bool L = true> using HllemMethod = FluxMethod<Hllem<Eq, L>>;
} // namespace fub::perfect_gas
#endif
