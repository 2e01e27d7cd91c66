// C16: each splitting method applies every operator for exactly one time step, in order, and stops at the first failure.
#include "vp.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include <vector>
using namespace fub;
namespace {
struct Log { std::vector<int> op; std::vector<double> dt; long fail = -1; double err = 0; };
using Res = Result<void, TimeStepTooLarge>;
struct Op {
  Log* log; int id;
  Res operator()(Duration t) const {
    long k = log->op.size();
    log->op.push_back(id); log->dt.push_back(t.count());
    if (k == log->fail) return TimeStepTooLarge{Duration(log->err), id};
    return boost::outcome_v2::success();
  }
};
Res drive(const SplittingMethod& m, Log& log, double dt, int n) {
  Op a{&log, 1}, b{&log, 2}, c{&log, 3}, d{&log, 4};
  switch (n) {
  case 1: return m.Advance(Duration(dt), a);
  case 2: return m.Advance(Duration(dt), SplittingMethod::AdvanceFunction(a), SplittingMethod::AdvanceFunction(b));
  case 3: return m.Advance(Duration(dt), SplittingMethod::AdvanceFunction(a), SplittingMethod::AdvanceFunction(b), SplittingMethod::AdvanceFunction(c));
  case 22: return m.AdvanceRecursively(Duration(dt), a, b);
  case 33: return m.AdvanceRecursively(Duration(dt), a, b, c);
  default: return m.AdvanceRecursively(Duration(dt), a, b, c, d);
  }
}
template <typename M> void run(bool symmetric) {
  M base; AnySplitMethod any(base);
  const SplittingMethod& m = vp_param("any", 0) ? static_cast<const SplittingMethod&>(any) : base;
  const int p = vp_param("n", 2), n = p == 22 ? 2 : p == 33 ? 3 : p;
  double dt = vp_real("dt");
  Log full;
  Res r = drive(m, full, dt, p);
  vp_assert(bool(r), "without a failing operator the step succeeds");
  const int calls = full.op.size();
  double sum[5] = {0, 0, 0, 0, 0}; int next = 1;
  for (int k = 0; k < calls; ++k) {
    sum[full.op[k]] += full.dt[k];
    vp_assert(full.op[k] <= next, "operators are first applied in the given order");
    if (full.op[k] == next) ++next;
  }
  vp_assert(next == n + 1, "every operator is applied");
  for (int i = 1; i <= n; ++i) vp_eq(sum[i], dt, "the sub-steps of every operator add up to the requested time step");
  if (!symmetric) vp_assert(calls == n, "first-order splitting applies every operator once");
  else for (int k = 0; k < calls; ++k) {
    vp_assert(full.op[k] == full.op[calls - 1 - k], "symmetric splitting: the sequence of operators is palindromic");
    vp_eq(full.dt[k], full.dt[calls - 1 - k], "symmetric splitting: the sequence of sub-steps is palindromic");
  }
  Log bad; bad.fail = vp_int("fail", 0, calls - 1); bad.err = vp_real("err");
  Res e = drive(m, bad, dt, p);
  vp_assert(!e, "a failing sub-step makes the step fail");
  vp_assert((long)bad.op.size() == bad.fail + 1, "no operator is applied after a failing sub-step");
  for (std::size_t k = 0; k < bad.op.size(); ++k) { vp_assert(bad.op[k] == full.op[k], "the same operators up to the failure"); vp_eq(bad.dt[k], full.dt[k], "the same sub-steps up to the failure"); }
  vp_eq(e.error().dt.count(), bad.err, "the failure of the sub-step is returned"); vp_assert(e.error().level == bad.op.back(), "the failure of the sub-step is returned (level)");
  vp_cover("step");
}
} // namespace
VP_ENTRY godunov() { run<GodunovSplitting>(false); }
VP_ENTRY strang() { run<StrangSplitting>(true); }
VP_ENTRY lumped() { run<StrangSplittingLumped>(true); }
