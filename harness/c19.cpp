// C19: the simulation driver, observed by a solver and an output that decide everything else arbitrarily.
#include "vp.hpp"
#include "fub/RunSimulation.hpp"
#include <memory>
using namespace fub;
namespace fub::git { const char* libfive_git_version() { return ""; } const char* libfive_git_revision() { return ""; } const char* libfive_git_branch() { return ""; } }
namespace {
struct Grid { double time = 0; long cycles = 0; long data = 0; Duration GetTimePoint() const { return Duration(time); } std::ptrdiff_t GetCycles() const { return cycles; } };
struct Registry { Timer get_timer(const char*) { return Timer{}; } };
struct World {
  double finalTime, eps, cfl, next = 0, stable = 0, time = 0, stepDt = 0, failDt = 0; long maxCycles; bool backup;
  long cycles = 0, data = 0, version = 0; int steps = 0, limit = 3; bool asked = false, prepared = false, computed = false, failed = false, pending = false, ended = false; int sinceOutput = 0; bool due = false; bool first = true;
  bool over() const { return !(time + eps < finalTime) || (maxCycles >= 0 && cycles >= maxCycles); }
} w;
Registry registry;
using Res = boost::outcome_v2::result<void, TimeStepTooLarge>;
struct Solver {
  std::shared_ptr<Grid> grid;
  Solver() : grid(std::make_shared<Grid>()) {}
  Solver(const Solver& o) : grid(std::make_shared<Grid>(*o.grid)) {} // copies are deep
  Solver& operator=(const Solver& o) { grid = std::make_shared<Grid>(*o.grid); return *this; }
  const std::shared_ptr<Grid>& GetGriddingAlgorithm() const { return grid; }
  Registry* GetCounterRegistry() const { return &registry; }
  Duration GetTimePoint() const { return grid->GetTimePoint(); }
  std::ptrdiff_t GetCycles() const { return grid->cycles; }
  void state() { vp_eq(grid->time, w.time, "time is that of the last successful step"); vp_assert(grid->cycles == w.cycles && grid->data == w.data, "data and cycle are those of the last successful step"); }
  void PreAdvanceHierarchy() { state(); vp_assert(!w.pending, "a successful step is ended before the next begins"); w.prepared = true; }
  Duration ComputeStableDt() { state(); vp_assert(!w.failed, "after a failure the reported time step is used"); w.stable = vp_real("stable"); vp_assume(w.stable > w.eps); w.computed = true; return Duration(w.stable); }
  Res AdvanceHierarchy(Duration d) {
    state();
    const double dt = d.count();
    if (w.ended) vp_fail("no further step after a failure without a backup");
    vp_assert(!w.over(), "no step is taken after the final time or the last cycle");
    vp_assert(w.prepared, "a step is prepared before it is taken"); vp_assert(w.asked, "the next output time is asked for before every step"); vp_assert(w.failed || w.computed, "the stable time step is computed before every regular step");
    const double s = w.cfl * (w.failed ? w.failDt : w.stable);
    vp_le(dt, s, "no step is larger than the stable one (or the one reported by the failure) times the CFL number");
    vp_le(w.time + dt, w.finalTime, "no step passes the final time"); vp_le(w.time + dt, w.next, "no step passes the next output time");
    vp_assert(dt == s || w.time + dt == w.finalTime || w.time + dt == w.next, "a step is as large as allowed: final and output times are hit exactly");
    vp_assert(dt > 0, "time proceeds");
    grid->data = 1000 + ++w.version; // a step, failing or not, changes the data
    w.asked = w.prepared = w.computed = false;
    if (++w.steps > w.limit) vp_stop();
    if (vp_int("fails", 0, 1)) {
      w.failed = true; w.failDt = vp_real("failDt"); vp_assume(w.failDt > w.eps);
      grid->time = vp_real("garbage"); if (!w.backup) w.ended = true;
      return TimeStepTooLarge{Duration(w.failDt), 0};
    }
    w.failed = false; w.stepDt = dt; w.pending = true; w.sinceOutput++;
    grid->time = w.time + dt; grid->cycles++;
    w.time = grid->time; w.cycles++; w.data = grid->data;
    return boost::outcome_v2::success();
  }
  void PostAdvanceHierarchy(Duration dt) { vp_assert(w.pending, "only successful steps are ended"); vp_eq(dt.count(), w.stepDt, "the end of a step is told its size"); w.pending = false; }
};
struct Output : BasicOutput<Grid> {
  Duration NextOutputTime(Duration t) override { vp_eq(t.count(), w.time, "the next output time is asked for at the current time"); w.next = vp_real("next"); vp_assume(w.next > w.time); w.asked = true; return Duration(w.next); }
  bool ShallOutputNow(const Grid& g) override { vp_eq(g.time, w.time, "outputs are scheduled at the current time"); w.due = vp_int("due", 0, 1); return w.due; }
  void operator()(const Grid& g) override {
    vp_eq(g.time, w.time, "outputs see the current state"); vp_assert(g.data == w.data && g.cycles == w.cycles, "outputs see the current state");
    vp_assert(!w.pending, "outputs follow completed steps");
    vp_assert(w.sinceOutput > 0, "nothing is written twice: a step precedes every output");
    vp_assert(w.due || w.over(), "outputs are written when due or at the end");
    w.sinceOutput = 0;
  }
};
} // namespace
VP_ENTRY run() {
  w = World{};
  RunOptions o;
  w.finalTime = vp_real("final"); w.eps = vp_real("eps"); vp_assume(w.eps > 0); w.cfl = vp_real("cfl"); vp_assume(w.cfl > 0 && w.cfl <= 1);
  w.backup = vp_param("backup", 1); w.limit = vp_param("steps", 3);
  const int mc = vp_param("maxcycles", -2); w.maxCycles = mc > -2 ? mc : vp_int("maxCycles", -1, 3); w.cycles = mc > -2 ? 0 : vp_int("cycles", 0, 1); w.time = vp_real("time0");
  o.final_time = Duration(w.finalTime); o.max_cycles = w.maxCycles; o.smallest_time_step_size = Duration(w.eps); o.cfl = w.cfl; o.do_backup = w.backup;
  Solver s; s.grid->time = w.time; s.grid->cycles = w.cycles;
  Output out;
  RunSimulation(s, o, std::chrono::steady_clock::now(), out);
  if (w.ended) { vp_assert(w.failed, "without a backup a failure ends the run"); vp_cover("gave up"); return; }
  vp_assert(!w.failed, "a failed step is retried");
  vp_assert(w.over(), "the run ends only at the final time or after the last cycle");
  s.state();
  vp_assert(w.sinceOutput == 0, "the final state is offered to the outputs");
  vp_cover("finished");
}
