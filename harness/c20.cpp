// C20: output scheduling.
#include "vp.hpp"
#include "fub/core/type_traits.hpp"
#include <fmt/format.h>
#include <fmt/ranges.h>
#include "fub/ext/ProgramOptions.hpp"
#include "fub/ext/Log.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include "fub/output/AsOutput.hpp"
#include <limits>
using namespace fub;
namespace fub {
ProgramOptions ToMap(const pybind11::dict& d) { return d.m; }
template <> Duration GetOptionOr(const ProgramOptions& m, const std::string& n, const Duration& v) { auto i = m.find(n); return i == m.end() ? v : Duration(i->second.cast<double>()); } // as in ProgramOptions.cpp
}
namespace {
struct Grid { double t; long c; Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return c; } };
std::string nm(const char* n, int i) { return std::string(n) + char('0' + i); }
struct Schedule {
  int nf, ni; std::vector<std::ptrdiff_t> f; std::vector<Duration> I; std::vector<int> k; double t, eps; long cycle;
  Schedule() {
    nf = vp_param("freqs", 1); ni = vp_param("intervals", 1);
    t = vp_real("t"); eps = vp_real("eps"); cycle = vp_int("cycle", 0, 1000);
    vp_assume(eps > 0 && t >= 0 && t < 1e6);
    for (int i = 0; i < nf; ++i) f.push_back(vp_int(nm("freq", i).c_str(), 1, 4));
    for (int i = 0; i < ni; ++i) {
      double v = vp_real(nm("interval", i).c_str());
      k.push_back(vp_choice(nm("k", i).c_str(), vp_param("kmax", 3)));
      vp_assume(v > 4 * eps && v < 1e6 && k[i] * v <= t && t < (k[i] + 1) * v);
      I.push_back(Duration(v));
    }
  }
  bool due(double tt, long c) const { // tt in the same interval numbers as t
    bool r = tt == 0;
    for (int i = 0; i < nf; ++i) r |= c % f[i] == 0;
    for (int i = 0; i < ni; ++i) r |= tt - k[i] * I[i].count() < 2 * eps;
    return r;
  }
};
struct Probe : BasicOutput<Grid> {
  int* log; double next; bool due; const Grid* g = nullptr; double asked = 0;
  Probe(int* l, double n, bool d) : log(l), next(n), due(d) {}
  Duration NextOutputTime(Duration t) override { asked = t.count(); return Duration(next); }
  bool ShallOutputNow(const Grid& gg) override { g = &gg; return due; }
  void operator()(const Grid& gg) override { vp_assert(&gg == g, "the grid that was asked for is written"); ++*log; }
};
} // namespace
VP_ENTRY schedule() { // one scheduled output
  Schedule s;
  OutputAtFrequencyOrInterval<Grid>* o; int calls = 0;
  auto mk = MakeOutput<Grid>(s.f, s.I, [&](const Grid&) { ++calls; });
  struct O : OutputAtFrequencyOrInterval<Grid> { using OutputAtFrequencyOrInterval<Grid>::OutputAtFrequencyOrInterval; void operator()(const Grid&) override {} } ov(s.f, s.I, Duration(s.eps));
  o = &ov;
  Grid g{s.t, s.cycle};
  vp_assert(o->ShallOutputNow(g) == s.due(s.t, s.cycle), "fires exactly at multiples of its frequencies and at its scheduled times");
  const double n = o->NextOutputTime(Duration(s.t)).count();
  double want = std::numeric_limits<double>::max();
  for (int i = 0; i < s.ni; ++i) want = std::min(want, (s.k[i] + 1) * s.I[i].count() + s.eps);
  if (s.ni) { vp_eq(n, want, "the next output time is the next multiple of an interval, plus the smallest step"); vp_assert(n > s.t, "the next output time is later than the current time"); }
  else vp_assert(n == want, "no interval, no output time");
  (*mk)(g); vp_assert(calls == 1, "an output calls its function once");
  vp_cover("end");
}
VP_ENTRY history() { // a driver that never steps past the next output time
  Schedule s;
  struct O : OutputAtFrequencyOrInterval<Grid> { using OutputAtFrequencyOrInterval<Grid>::OutputAtFrequencyOrInterval; void operator()(const Grid&) override {} } o({}, s.I, Duration(s.eps));
  vp_assume(s.t - s.k[0] * s.I[0].count() >= 2 * s.eps);
  double t = s.t; long k = s.k[0], fired = 0, c = s.cycle;
  const int N = vp_param("steps", 3);
  for (int i = 0; i < N; ++i) {
    double dt = vp_real(nm("dt", i).c_str()); vp_assume(dt > 2 * s.eps && dt < 1e6);
    const double n = o.NextOutputTime(Duration(t)).count();
    t = std::min(t + dt, n); ++c;
    const int hop = vp_choice(nm("hop", i).c_str(), 2); vp_assume((t >= (k + 1) * s.I[0].count()) == hop); k += hop;
    vp_assert(t >= k * s.I[0].count() && t < (k + 1) * s.I[0].count(), "no scheduled time is stepped over");
    Grid g{t, c};
    fired += o.ShallOutputNow(g);
    vp_assert(fired == k - s.k[0], "every scheduled time is written exactly once");
  }
  vp_cover("end");
}
VP_ENTRY multiple() { // collections
  const int n = vp_param("outputs", 3);
  const int hole = vp_choice("hole", n + 1); // a missing member, if < n
  std::vector<int> log(n, 0); std::vector<Probe*> p(n, nullptr); std::vector<double> next(n); std::vector<int> due(n);
  MultipleOutputs<Grid> m;
  double want = std::numeric_limits<double>::max(); bool any = false;
  for (int i = 0; i < n; ++i) {
    next[i] = vp_real(nm("next", i).c_str()); due[i] = vp_choice(nm("due", i).c_str(), 2); vp_assume(next[i] < 1e300);
    std::unique_ptr<Probe> u; if (i != hole) { u = std::make_unique<Probe>(&log[i], next[i], due[i]); p[i] = u.get(); want = std::min(want, next[i]); any |= due[i]; }
    m.AddOutput(std::move(u));
  }
  Grid g{vp_real("t"), vp_int("cycle", 0, 1000)};
  vp_assert(m.NextOutputTime(Duration(g.t)).count() == want, "the next output time is the earliest of all members");
  for (auto q : p) if (q) vp_eq(q->asked, g.t, "members are asked for the current time");
  vp_assert(m.ShallOutputNow(g) == any, "a collection is due when a member is due");
  m(g);
  for (int i = 0; i < n; ++i) vp_assert(log[i] == (i != hole && due[i]), "exactly the members that are due are written, once");
  vp_cover("end");
}
VP_ENTRY options() { // collections built from program options: common schedule unless a member has its own
  struct O : OutputAtFrequencyOrInterval<Grid> { int tag; O(const ProgramOptions& o, int t) : OutputAtFrequencyOrInterval<Grid>(o), tag(t) {} void operator()(const Grid&) override { ++hits()[tag]; } static int* hits() { static int h[2]; return h; } };
  O::hits()[0] = O::hits()[1] = 0;
  OutputFactory<Grid> factory;
  vp_assert(factory.RegisterOutput<O>("a", 0) && factory.RegisterOutput<O>("b", 1), "outputs can be registered");
  vp_assert(!factory.RegisterOutput<O>("a", 1), "a name is registered once"); vp_assert(factory.Contains("b") && !factory.Contains("c"), "names are known");
  const double t = vp_real("t"), eps = vp_real("eps"), I = vp_real("I"); const long f = 2 + vp_choice("f", 2), c = vp_int("cycle", 0, 1000);
  vp_assume(eps > 0 && t > 0 && t < 1e6 && I < 1e6 && I > 4 * eps);
  const int k = vp_choice("k", 2); vp_assume(k * I <= t && t < (k + 1) * I);
  const bool ownF = vp_choice("ownF", 2), ownI = vp_choice("ownI", 2);
  long h = 1; if (ownF) h = 3 + vp_choice("h", 2);
  double J = 1; int l = 0; if (ownI) { J = vp_real("J"); l = vp_choice("l", 2); vp_assume(J > 4 * eps && J < 1e6 && l * J <= t && t < (l + 1) * J); }
  std::vector<pybind11::dict> outs(3);
  outs[0].m["type"] = pybind11::cast("a"); outs[1].m["type"] = pybind11::cast("b"); outs[2].m["type"] = pybind11::cast("c");
  for (auto& x : outs) x.m["smallest_time_step_size"] = pybind11::cast(eps);
  if (ownF) outs[1].m["frequencies"] = pybind11::cast(std::vector<int>{int(h)});
  if (ownI) outs[1].m["intervals"] = pybind11::cast(std::vector<double>{J});
  ProgramOptions o;
  o["outputs"] = pybind11::cast(outs); o["frequencies"] = pybind11::cast(std::vector<int>{int(f)}); o["intervals"] = pybind11::cast(std::vector<double>{I});
  MultipleOutputs<Grid> m(factory, o);
  Grid g{t, c};
  const bool d0 = c % f == 0 || t - k * I < 2 * eps, d1 = (ownF ? c % h == 0 : c % f == 0) || (ownI ? t - l * J < 2 * eps : t - k * I < 2 * eps);
  vp_eq(m.NextOutputTime(Duration(t)).count(), ownI ? std::min((k + 1) * I, (l + 1) * J) + eps : (k + 1) * I + eps, "the next output time follows from the options");
  vp_assert(m.ShallOutputNow(g) == (d0 || d1), "a collection is due when a member is due");
  m(g);
  vp_assert(O::hits()[0] == d0, "the common schedule applies"); vp_assert(O::hits()[1] == d1, "a schedule of its own replaces the common one");
  vp_cover("end");
}
