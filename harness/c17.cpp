// C17: advancing a hierarchy of refinement levels, observed by a level integrator that keeps each level's clock.
#include "vp.hpp"
#include "fub/ext/Mpi.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include <vector>
using namespace fub;
extern "C" double vp_remote_min;
namespace {
using Res = Result<void, TimeStepTooLarge>;
enum Phase { Idle, Pre, Advanced, Complete_, Copied };
struct World {
  int levels = 1, ratio[4] = {1, 1, 1, 1}, freq = 1; long cycles = 0; bool subcycle = true;
  double time[4] = {0, 0, 0, 0}, want[4]; Phase phase[4] = {Idle, Idle, Idle, Idle}; bool reset[4] = {false, false, false, false}, corrected[4] = {}, coarsened[4] = {};
  int steps[4] = {0, 0, 0, 0}, part[4] = {0, 0, 0, 0}; double stable[4];
  long event = 0, fail = -1; double err = 0; int failLevel = -1; bool failed = false; int filled = -1; bool done = false;
  void live() { if (failed) vp_fail("nothing further happens after a failing level step"); }
  bool finer(int l) { return l + 1 < levels; }
  Res may(int l) { if (event++ == fail) { failed = true; failLevel = l; return TimeStepTooLarge{Duration(err), l}; } return boost::outcome_v2::success(); }
} w;
struct Options { int regrid_frequency; };
struct Mock {
  Mock& GetContext() { return *this; }
  Options GetOptions() const { return {w.freq}; }
  std::ptrdiff_t GetCycles(int = 0) const { return w.cycles; }
  Duration GetTimePoint(int l = 0) const { return Duration(w.time[l]); }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  bool LevelExists(int l) const { return l < w.levels; }
  struct Ratio { int v; int max() const { return v; } };
  Ratio GetRatioToCoarserLevel(int l) const { return {w.ratio[l]}; }
  void GetCounterRegistry() {} void GetGriddingAlgorithm() {} void PreAdvanceHierarchy() {} void PostAdvanceHierarchy() {} void ResetHierarchyConfiguration() {} void CopyDataToScratch(int) {}
  Duration ComputeStableDt(int l) { return Duration(w.stable[l]); }
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    w.live();
    vp_assert(w.phase[l] == Idle, "a level step begins after the previous one has ended");
    for (int f = l + 1; f < w.levels; ++f) vp_eq(w.time[f], w.time[l], "when a level is prepared for its step, all finer levels are at its time");
    vp_eq(dt.count(), w.want[l], "every level advances in equal steps: the step of the coarser level over the refinement ratio");
    if (w.subcycle) { vp_assert(sub.second == (l ? w.ratio[l] : 1) && sub.first == w.part[l], "the sub-step index counts the steps within the coarser step"); w.part[l] = (w.part[l] + 1) % sub.second; }
    w.phase[l] = Pre; w.reset[l] = w.corrected[l] = w.coarsened[l] = false;
  }
  void ResetCoarseFineFluxes(int f, int c) { w.live(); vp_assert(f == c + 1 && w.phase[c] == Pre && !w.reset[c], "the coarse-fine fluxes are reset once, at the beginning of the coarse step"); vp_eq(w.time[f], w.time[c], "the coarse-fine fluxes are reset before the finer level advances"); w.reset[c] = true; }
  Res AdvanceLevelNonRecursively(int l, Duration dt, std::pair<int, int>) {
    w.live();
    vp_assert(w.phase[l] == Pre, "a level is prepared before it is advanced");
    vp_eq(dt.count(), w.want[l], "a level is advanced by its own step");
    if (w.finer(l)) { vp_assert(w.reset[l], "the coarse-fine fluxes were reset for this step"); vp_assert(w.phase[l + 1] == Idle, "the finer level has finished its steps"); vp_eq(w.time[l + 1], w.time[l] + dt.count(), "the finer level has reached the new time before the coarser one advances"); }
    Res r = w.may(l);
    if (!r) return r;
    w.time[l] += dt.count(); w.phase[l] = Advanced; w.steps[l]++;
    return r;
  }
  void ApplyFluxCorrection(int f, int c, Duration dt) { w.live(); vp_assert(f == c + 1 && w.phase[c] == Advanced && !w.corrected[c], "the accumulated fine fluxes correct the coarse level once, after its advance"); vp_eq(dt.count(), w.want[c], "the correction uses the coarse step"); w.corrected[c] = true; }
  void CoarsenConservatively(int f, int c) { w.live(); vp_assert(f == c + 1 && w.phase[c] == Advanced && !w.coarsened[c], "fine data is averaged down once, after the coarse advance"); w.coarsened[c] = true; }
  void CompleteFromCons(int l, Duration dt) { w.live(); vp_assert(w.phase[l] == Advanced && w.corrected[l] && w.coarsened[l], "states are completed after the correction and the averaging"); w.phase[l] = Complete_; }
  void CopyScratchToData(int l) { w.live(); vp_assert(w.phase[l] == (w.finer(l) ? Complete_ : Advanced), "the new data is published when it is complete"); w.phase[l] = Copied; }
  Res PostAdvanceLevel(int l, Duration dt, std::pair<int, int>) {
    w.live();
    vp_assert(w.phase[l] == Copied, "the step of a level ends with published data"); vp_eq(dt.count(), w.want[l], "the step of a level ends with its own step");
    Res r = w.may(l);
    if (!r) return r;
    w.phase[l] = Idle; if (l == 0) w.done = true;
    return r;
  }
  void FillGhostLayerSingleLevel(int l) { w.live(); vp_assert(l == 0, "the coarsest level is filled alone"); fill(l); }
  void FillGhostLayerTwoLevels(int f, int c) { w.live(); vp_assert(f == c + 1 && f < w.levels, "ghost cells of a finer level come from the next coarser one"); fill(f); }
  void fill(int l) { if (w.subcycle) { vp_assert(w.done, "ghost cells are refreshed when the hierarchy has advanced"); vp_assert(w.filled == l - 1, "ghost cells are refreshed from coarse to fine"); w.filled = l; } }
  void AccumulateCoarseFineFluxes() {} void ComputeNumericFluxes() {} void UpdateConservatively() {}
};
} // namespace
namespace {
void setup(bool subcycle) {
  w = World{};
  w.subcycle = subcycle; w.levels = vp_param("levels", 1);
  for (int l = 1; l < w.levels; ++l) w.ratio[l] = vp_int("ratio", 1, vp_param("maxratio", 3));
  w.freq = vp_int("frequency", 1, 2); w.cycles = vp_int("cycles", 0, 3);
}
template <typename S> void advance(bool subcycle) {
  setup(subcycle);
  double t0 = vp_real("time"), dt = vp_real("dt"); vp_assume(dt > 0);
  int n[4] = {1, 1, 1, 1}; long events = 0;
  for (int l = 0; l < w.levels; ++l) { w.time[l] = t0; if (l) n[l] = subcycle ? n[l - 1] * w.ratio[l] : 1; w.want[l] = dt / n[l]; events += 2 * n[l]; }
  w.fail = vp_int("fail", -1, events - 1); w.err = vp_real("err");
  S solver{Mock{}};
  Res r = solver.AdvanceHierarchy(Duration(dt));
  if (w.fail < 0) {
    vp_assert(bool(r) && w.done, "without a failing level step the hierarchy advances");
    for (int l = 0; l < w.levels; ++l) { vp_eq(w.time[l], t0 + dt, "every level has advanced by exactly the requested step"); vp_assert(w.steps[l] == n[l], "every level takes as many steps as the refinement ratios above it multiply to"); }
    if (subcycle) vp_assert(w.filled == (w.cycles % w.freq == 0 ? w.levels - 1 : -1), "ghost cells of all levels are refreshed in the cycles that regrid");
    vp_cover("advanced");
  } else {
    vp_assert(w.failed && !r, "a failing level step is reported");
    vp_eq(r.error().dt.count(), w.err * n[w.failLevel], "the reported time step is scaled to the coarsest level");
    vp_cover("failed");
  }
}
template <typename S> void stable(bool subcycle) {
  setup(subcycle);
  vp_remote_min = vp_real("remote"); vp_assume(vp_remote_min < 1e308);
  double m = vp_remote_min; int n = 1;
  for (int l = 0; l < w.levels; ++l) { if (l && subcycle) n *= w.ratio[l]; w.stable[l] = vp_real("stable"); vp_assume(w.stable[l] > 0 && w.stable[l] < 1e300); m = vp_sel(n * w.stable[l] < m, n * w.stable[l], m); }
  S solver{Mock{}};
  vp_eq(solver.ComputeStableDt().count(), m, "the stable step is the minimum over all levels, scaled to the coarsest one, and all processes");
  vp_cover("stable");
}
} // namespace
VP_ENTRY sub_advance() { advance<SubcycleFineFirstSolver<Mock>>(true); }
VP_ENTRY no_advance() { advance<NoSubcycleSolver<Mock>>(false); }
VP_ENTRY sub_stable() { stable<SubcycleFineFirstSolver<Mock>>(true); }
VP_ENTRY no_stable() { stable<NoSubcycleSolver<Mock>>(false); }
