// C28: performance counters.
#include "vp.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include <string>
#include <vector>
using namespace fub;
extern "C" { extern int vp_rank, vp_size, vp_gathers; extern double vp_gather_d[3][4]; extern long long vp_gather_l[3][4]; }
namespace {
constexpr long B = 1L << 40;
struct Model { long n = 0, sum = 0, lo = 0, hi = 0; std::vector<long> all;
  void add(long x) { lo = n ? (x < lo ? x : lo) : x; hi = n ? (x > hi ? x : hi) : x; ++n; sum += x; all.push_back(x); }
  double mean() const { return n ? double(sum) / double(n) : 0.0; }
  double variance() const { double s = 0, m = mean(); for (long x : all) s += (double(x) - m) * (double(x) - m); return n ? s / double(n) : 0.0; } };
long measure() { return vp_int("measurement", -B, B); }
void compare(const Counter& c, const Model& m) {
  vp_assert(c.get_count() == static_cast<unsigned long>(m.n), "number of measurements");
  vp_assert(c.get_value() == m.sum, "the value of a counter is the sum of its measurements");
  vp_assert(c.get_min() == m.lo, "smallest measurement"); vp_assert(c.get_max() == m.hi, "largest measurement");
  vp_eq(c.get_mean(), m.mean(), "mean"); vp_eq(c.get_variance(), m.variance(), "variance");
  const double d = c.get_stddev(); vp_eq(d * d, m.variance(), "the standard deviation is the square root of the variance"); vp_assert(d >= 0, "standard deviations are not negative");
}
} // namespace
VP_ENTRY local() {
  Counter c("work"); Model m; compare(c, m);
  for (int k = 0; k < vp_param("n", 3); ++k) { const long x = measure(); c.add(x); m.add(x); compare(c, m); }
  vp_assert(c.get_name() == "work", "a counter keeps its name");
  c.reset(); compare(c, Model());
  const long x = measure(); Model r; c.add(x); r.add(x); compare(c, r);
  vp_cover("end");
}
VP_ENTRY gather() {
  vp_size = vp_param("ranks", 3); vp_rank = vp_param("rank", 0); const int root = vp_param("root", 0);
  Counter c("work"); Model m; for (int k = 0; k < vp_param("n", 2); ++k) { const long x = measure(); c.add(x); m.add(x); }
  // the other ranks
  std::vector<double> means; long lo = 0, hi = 0;
  for (int i = 0; i < vp_size; ++i) {
    const long l = i == vp_rank ? m.lo : measure(), h = i == vp_rank ? m.hi : measure(); const double a = i == vp_rank ? m.mean() : vp_real("mean");
    vp_gather_l[0][i] = l; vp_gather_l[1][i] = h; vp_gather_d[2][i] = a; means.push_back(a);
    lo = i ? (l < lo ? l : lo) : l; hi = i ? (h > hi ? h : hi) : h;
  }
  const auto r = c.gather_statistics(MPI_COMM_WORLD, root);
  vp_assert(vp_gathers == 3, "every rank takes part in the three gathers");
  vp_assert(r.has_value() == (vp_rank == root), "only the root gets a result");
  if (r) {
    vp_assert(r->name == "work", "the result carries the name"); vp_assert(r->count == static_cast<unsigned long>(m.n), "the result carries the count");
    vp_assert(r->min == lo, "minimum over all ranks"); vp_assert(r->max == hi, "maximum over all ranks");
    double s = 0, v = 0; for (double a : means) s += a; s /= double(vp_size); for (double a : means) v += (a - s) * (a - s); v /= double(vp_size);
    vp_eq(r->mean, s, "mean over the ranks"); vp_eq(r->variance, v, "variance over the ranks"); vp_eq(r->stddev * r->stddev, v, "the standard deviation belongs to the variance"); vp_assert(r->stddev >= 0, "standard deviations are not negative");
  }
  vp_cover("end");
}
VP_ENTRY registry() {
  const char* names[] = {"advance", "advance hierarchy", "output"};
  CounterRegistry reg; Model m[3]; Counter* first[3] = {};
  for (int k = 0; k < vp_param("n", 4); ++k) {
    const int j = vp_choice("name", 3); Counter* c = reg.get(names[j]);
    if (!first[j]) first[j] = c;
    vp_assert(c == first[j], "a name refers to the same counter each time"); vp_assert(c->get_name() == names[j], "the counter has the name it was asked for");
    const long x = measure(); c->add(x); m[j].add(x);
  }
  for (int j = 0; j < 3; ++j) if (first[j]) { vp_assert(first[j]->get_count() == static_cast<unsigned long>(m[j].n) && first[j]->get_value() == m[j].sum, "measurements go to the counter they were made with"); }
  vp_size = 1; vp_rank = 0;
  vp_cover("end");
}
VP_ENTRY statistics() { // one rank
  const char* names[] = {"advance", "output"};
  CounterRegistry reg; Model m[2]; bool used[2] = {};
  for (int k = 0; k < vp_param("n", 2); ++k) { const int j = vp_choice("name", 2); const long x = measure(); used[j] = true; reg.get(names[j])->add(x); m[j].add(x); }
  vp_size = 1; vp_rank = 0; vp_gathers = -100;
  const bool map = vp_choice("map", 2);
  std::vector<CounterResult> rs;
  if (map) { for (auto& [n, r] : reg.gather_statistics_map()) { vp_assert(n == r.name, "results are filed under their names"); rs.push_back(r); } } else rs = reg.gather_statistics();
  vp_assert(rs.size() == std::size_t(used[0] + used[1]), "one result per counter");
  for (int j = 0; j < 2; ++j) if (used[j]) { int hits = 0; for (auto& r : rs) if (r.name == names[j]) { ++hits; vp_assert(r.count == static_cast<unsigned long>(m[j].n) && r.min == m[j].lo && r.max == m[j].hi, "count, minimum and maximum of one rank"); vp_eq(r.mean, m[j].mean(), "mean of one rank"); vp_eq(r.variance, 0.0, "one rank does not vary"); } vp_assert(hits == 1, "one result per counter"); }
  vp_cover("end");
}
VP_ENTRY timers() {
  CounterRegistry reg; Counter* c = reg.get("work");
  { Timer t = reg.get_timer("work"); vp_assert(c->get_count() == 0, "a running timer has not measured yet"); vp_assert(t.get_name() == "work", "a timer has the name of its counter");
    { Timer inner = reg.get_timer("inner"); }
    vp_assert(reg.get("inner")->get_count() == 1 && c->get_count() == 0, "timers are independent"); }
  vp_assert(c->get_count() == 1 && c->get_min() > 0, "a timer makes one measurement");
  vp_assert(c->get_value() > reg.get("inner")->get_value(), "an enclosing timer measures longer");
  { Timer a = reg.get_timer("work"); Timer b(std::move(a)); Timer d; d = std::move(b); vp_assert(c->get_count() == 1, "moving a timer does not stop it"); }
  vp_assert(c->get_count() == 2 && c->get_min() > 0, "a moved timer makes one measurement");
  { Timer none; } vp_assert(c->get_count() == 2, "an unused timer measures nothing");
  try { Timer t = reg.get_timer("work"); throw 1; } catch (int) {}
  vp_assert(c->get_count() == 3, "a timer measures when an error leaves its block");
  vp_cover("end");
}
