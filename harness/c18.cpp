// C18: one level step with dimensional splitting, and with source terms, observed by a recording context.
#include "vp.hpp"
#include "fub/ext/Mpi.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include <memory>
#include <vector>
using namespace fub;
extern "C" { extern double vp_remote_min; extern int vp_reductions; }
namespace {
using Res = Result<void, TimeStepTooLarge>;
enum Stage { None, Filled, Prepared, Checked, Fluxed, Updated, Completed };
struct World {
  int level = 0; long cycles = 0; int rank = 1, order[3] = {0, 1, 2}, visits[3] = {0, 0, 0}; double advanced[3] = {0, 0, 0};
  Stage stage = None; int dir = -1, step = 0; double dt = 0, stable = 0, stepDt[3]; double minStable[16]; int failStep = -1; bool failed = false, check = true; bool odd = false;
  // level hooks
  int regrid = 0, levels = 1; double time[4]; std::vector<int> fills; int hooks = 0; bool postFails = false; double err = 0;
  void live() { if (failed) vp_fail("nothing further happens after the time step was found too large"); }
} w;
int num(Direction d) { return static_cast<int>(d); }
struct Grid {};
struct Context {
  Context& GetContext() { return *this; }
  std::shared_ptr<Grid> GetGriddingAlgorithm() const { return nullptr; }
  void GetCounterRegistry() const {}
  std::ptrdiff_t GetCycles(int = 0) const { return w.cycles; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  Duration GetTimePoint(int l = 0) const { return Duration(w.time[l]); }
  bool LevelExists(int l) const { return l < w.levels; }
  int GetRatioToCoarserLevel(int) const { return 2; }
  void CoarsenConservatively() {} void CopyDataToScratch() {} void CopyScratchToData() {} void ApplyFluxCorrection() {} void ResetCoarseFineFluxes() {}
  void at(int l) { w.live(); vp_assert(l == w.level, "every part of a level step works on that level"); }
  void is(Direction d, double dt) { vp_assert(num(d) == w.dir, "the parts of a sweep work in one direction"); vp_eq(dt, w.dt, "the parts of a sweep use one time step"); }
  void ApplyBoundaryCondition(int l, Direction d) { at(l); vp_assert(w.stage == None || w.stage == Completed, "boundaries are refreshed between sweeps"); w.dir = num(d); w.stage = Filled; }
  void PreSplitStep(int l, Duration dt, Direction d, std::pair<int, int> n) {
    at(l);
    vp_assert(n.first == w.step, "sweeps are numbered consecutively");
    vp_assert(w.stage == None || w.stage == Completed || (w.stage == Filled && w.dir == num(d)), "a sweep begins after the previous one has been completed");
    if (w.visits[num(d)] > 0) vp_assert(w.stage == Filled, "a repeated sweep begins with refreshed boundaries");
    w.dir = num(d); w.dt = dt.count(); w.stage = Prepared; ++w.step;
  }
  Duration ComputeStableDt(int l, Direction d) {
    if (!w.check) { vp_assert(num(d) < w.rank, "directions exist"); return Duration(w.stepDt[num(d)]); }
    at(l); vp_assert(w.stage == Prepared && num(d) == w.dir, "the time step of a sweep is checked before its fluxes are computed");
    w.stage = Checked;
    double s = vp_real("stable"); vp_assume(s < 1e300);
    vp_remote_min = vp_real("remote"); vp_assume(vp_remote_min < 1e300);
    w.stable = vp_sel(vp_remote_min < s, vp_remote_min, s);
    return Duration(s);
  }
  void ComputeNumericFluxes(int l, Duration dt, Direction d) {
    at(l); is(d, dt.count()); vp_assert(w.stage == Checked, "fluxes are computed once per sweep, after the time step was checked");
    vp_le(w.dt, w.stable, "no sweep uses a step larger than the stable one"); w.stage = Fluxed;
  }
  void UpdateConservatively(int l, Duration dt, Direction d) { at(l); is(d, dt.count()); vp_assert(w.stage == Fluxed, "cells are updated once per sweep, with the fluxes of that sweep"); w.stage = Updated; }
  bool acc = false;
  void CompleteFromCons(int l, Duration dt) { at(l); vp_eq(dt.count(), w.dt, "the parts of a sweep use one time step"); vp_assert(w.stage == Updated, "states are completed once per sweep, after the update"); w.stage = Completed; }
  void AccumulateCoarseFineFluxes(int l, double scale, Direction d) { at(l); is(d, scale); vp_assert(w.stage == Fluxed || w.stage == Updated || w.stage == Completed, "the fluxes of the sweep are accumulated after they were computed"); done(); }
  void done() {
    const int d = w.dir;
    if (w.visits[d] == 0) { int seen = 0; for (int i = 0; i < w.rank; ++i) seen += w.visits[i] > 0; vp_assert(d == w.order[seen], "directions are swept in the order of the cycle"); }
    w.visits[d]++; w.advanced[d] += w.dt;
  }
  int PreAdvanceLevel(int, Duration, std::pair<int, int>) { return w.regrid; }
  Res PostAdvanceLevel(int l, Duration, std::pair<int, int>) { w.hooks |= 1; if (w.postFails) return TimeStepTooLarge{Duration(w.err), l}; return boost::outcome_v2::success(); }
  void PreAdvanceHierarchy() { w.hooks |= 2; }
  void PostAdvanceHierarchy(Duration d) { w.hooks |= 4; w.dt = d.count(); }
  void FillGhostLayerSingleLevel(int l) { vp_assert(l == 0, "only the coarsest level is filled alone"); w.fills.push_back(0); }
  void FillGhostLayerTwoLevels(int f, int c) { vp_assert(c == f - 1 && f > 0 && f < w.levels, "a finer level is filled from the next coarser one"); w.fills.push_back(f); }
};
template <int R, typename Split> void sweep() {
  w = World{}; w.rank = R;
  w.level = vp_param("level", 0); w.cycles = vp_int("cycles", 0, 5);
  const int first = vp_int("subcycle", 0, 1);
  if ((w.cycles + first) % 2) for (int i = 0; i < R; ++i) w.order[i] = R - 1 - i;
  double dt = vp_real("dt"); vp_assume(dt > 0);
  DimensionalSplitLevelIntegrator<R, Context, Split> level(Context{});
  Res r = level.AdvanceLevelNonRecursively(w.level, Duration(dt), {first, 2});
  vp_assert(vp_reductions > 0, "the stable step is agreed between processes");
  if (r) {
    vp_assert(w.stage == Completed, "a level step ends with completed states");
    for (int d = 0; d < R; ++d) { vp_assert(w.visits[d] > 0, "every direction is swept"); vp_eq(w.advanced[d], dt, "the sweeps of a direction, with their accumulated fluxes, add up to the step"); }
    vp_cover("advanced");
  } else {
    vp_assert(w.stage == Checked, "a level step fails before the fluxes of the failing sweep");
    vp_assert(!(w.dt <= w.stable), "a level step fails only if the stable step is exceeded");
    vp_eq(r.error().dt.count(), w.stable, "the failure carries the stable step"); vp_assert(r.error().level == w.level, "the failure carries the level");
    vp_cover("too large");
  }
}
template <int R> void level() {
  w = World{}; w.rank = R; w.check = false;
  double m = vp_real("s0"); w.stepDt[0] = m; vp_assume(m < 1e300);
  for (int d = 1; d < R; ++d) { w.stepDt[d] = vp_real("s"); vp_assume(w.stepDt[d] < 1e300); m = vp_sel(w.stepDt[d] < m, w.stepDt[d], m); }
  DimensionalSplitLevelIntegrator<R, Context> lv(Context{});
  vp_eq(lv.ComputeStableDt(0).count(), m, "the stable step of a level is the minimum over its directions");
  // preparation: every regridded level, and a level that lags or leads the coarsest one
  w.levels = vp_int("levels", 1, 3); w.regrid = vp_int("regrid", 0, 3); const int l = vp_int("level", 0, w.levels - 1);
  for (int i = 0; i < w.levels; ++i) w.time[i] = vp_real("time");
  lv.PreAdvanceLevel(l, Duration(vp_real("dt")), {0, 1});
  std::vector<int> want; for (int i = w.regrid; i < w.levels; ++i) want.push_back(i);
  if (l < w.regrid && w.time[l] != w.time[0]) want.push_back(l);
  vp_assert(w.fills == want, "ghost cells of all regridded levels are filled from coarse to fine, and of a level that is ahead of the coarsest");
  w.postFails = vp_int("fails", 0, 1); w.err = vp_real("err");
  Res r = lv.PostAdvanceLevel(l, Duration(1.0), {0, 1});
  vp_assert(w.hooks & 1, "the context ends the step"); vp_assert(bool(r) == !w.postFails, "a failure at the end of the step is passed on");
  if (w.postFails) vp_eq(r.error().dt.count(), w.err, "a failure at the end of the step is passed on unchanged");
  lv.PreAdvanceHierarchy(); double d = vp_real("d"); lv.PostAdvanceHierarchy(Duration(d));
  vp_assert((w.hooks & 6) == 6, "the context begins and ends the step of the hierarchy"); vp_eq(w.dt, d, "the context is told the step of the hierarchy");
  vp_cover("level");
}
// ------------------------------------------------------- source terms
struct Src {
  std::vector<int> op; std::vector<double> dt; long fail = -1; double err = 0, sysDt = 0, srcDt = 0; int level = 0, hooks = 0;
  Res may(int who, int l, double t) { vp_assert(l == level, "both operators advance the same level"); long k = op.size(); if (k && fail >= 0 && k > fail) vp_fail("no operator runs after a failing one"); op.push_back(who); dt.push_back(t); if (k == fail) return TimeStepTooLarge{Duration(err), l}; return boost::outcome_v2::success(); }
} s;
struct Sys : Context {
  static constexpr int Rank = 2;
  void ApplyFluxCorrection() {} void AccumulateCoarseFineFluxes() {}
  Duration ComputeStableDt(int) { return Duration(s.sysDt); }
  Res AdvanceLevelNonRecursively(int l, Duration dt, std::pair<int, int>) { return s.may(1, l, dt.count()); }
  void PreAdvanceLevel(int, Duration, std::pair<int, int>) { s.hooks |= 1; }
  Res PostAdvanceLevel(int l, Duration, std::pair<int, int>) { s.hooks |= 2; if (s.fail >= 0) return TimeStepTooLarge{Duration(s.err), l}; return boost::outcome_v2::success(); }
  void PreAdvanceHierarchy() { s.hooks |= 4; }
  void PostAdvanceHierarchy(Duration) { s.hooks |= 8; }
};
struct Term {
  static constexpr int Rank = 1;
  Duration ComputeStableDt(int) { return Duration(s.srcDt); }
  Res AdvanceLevel(Context&, int l, Duration dt) { return s.may(0, l, dt.count()); }
  void PreAdvanceHierarchy() { s.hooks |= 16; }
  void PostAdvanceHierarchy(Duration) { s.hooks |= 32; }
};
template <typename Split> void source(int kind) { // 0 Lie, 1 Strang, 2 Strang lumped
  s = Src{}; s.level = vp_int("level", 0, 2);
  SplitSystemSourceLevelIntegrator<Sys, Term, Split> lv{Sys{}, Term{}};
  s.sysDt = vp_real("sys"); s.srcDt = vp_real("src");
  vp_eq(lv.ComputeStableDt(s.level).count(), vp_sel(s.srcDt < s.sysDt, s.srcDt, s.sysDt), "the stable step is the smaller one of system and source");
  double dt = vp_real("dt"); s.fail = vp_int("fail", -1, kind == 0 ? 1 : kind == 1 ? 3 : 2); s.err = vp_real("err");
  Res r = lv.AdvanceLevelNonRecursively(s.level, Duration(dt), {0, 1});
  if (s.fail < 0) {
    double sum[2] = {0, 0}; for (std::size_t k = 0; k < s.op.size(); ++k) sum[s.op[k]] += s.dt[k];
    vp_assert(bool(r), "both operators succeed"); vp_eq(sum[0], dt, "the source is advanced by the step"); vp_eq(sum[1], dt, "the system is advanced by the step");
    if (kind) for (std::size_t k = 0; k < s.op.size(); ++k) { vp_assert(s.op[k] == s.op[s.op.size() - 1 - k], "symmetric splitting of system and source"); vp_eq(s.dt[k], s.dt[s.op.size() - 1 - k], "symmetric splitting of system and source"); }
    vp_cover("advanced");
  } else { vp_assert(!r && (long)s.op.size() == s.fail + 1, "a failing operator ends the step"); vp_eq(r.error().dt.count(), s.err, "the failure of an operator is returned"); vp_cover("failed"); }
  lv.PreAdvanceHierarchy(); lv.PreAdvanceLevel(0, Duration(dt), {0, 1}); Res p = lv.PostAdvanceLevel(0, Duration(dt), {0, 1}); lv.PostAdvanceHierarchy(Duration(dt));
  vp_assert(s.hooks == 63, "both operators are told the begin and end of steps");
  vp_assert(bool(p) == (s.fail < 0), "a failure of the system at the end of the step is passed on");
}
} // namespace
VP_ENTRY lie1() { sweep<1, GodunovSplitting>(); } VP_ENTRY lie2() { sweep<2, GodunovSplitting>(); } VP_ENTRY lie3() { sweep<3, GodunovSplitting>(); }
VP_ENTRY strang2() { sweep<2, StrangSplitting>(); } VP_ENTRY strang3() { sweep<3, StrangSplitting>(); }
VP_ENTRY lumped2() { sweep<2, StrangSplittingLumped>(); }
VP_ENTRY level1() { level<1>(); } VP_ENTRY level2() { level<2>(); } VP_ENTRY level3() { level<3>(); }
VP_ENTRY source_lie() { source<GodunovSplitting>(0); } VP_ENTRY source_strang() { source<StrangSplitting>(1); } VP_ENTRY source_lumped() { source<StrangSplittingLumped>(2); }
