// C11: the states a second-order method hands to its first-order flux are the half-step evolved face values.
#include "gas.hpp"
#include "capture.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/equations/EulerEquation.hpp"
#if VPG == 2
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
#endif
using namespace h;
namespace {
template <typename E> constexpr bool isMix = std::is_base_of_v<PerfectGasConstants, E>;
template <typename E> constexpr bool isGas = !std::is_same_v<E, Advection2d> && !std::is_same_v<E, Burgers1d> && !std::is_same_v<E, ShallowWater>;
template <typename E> E theEq() {
  if constexpr (!isMix<E>) return makeEq(Type<E>{});
  else return makeEq(Type<E>{}, vp_param("species", 1), vp_param("scalars", 1), vp_param("msq", 0));
}
template <typename E> double msqOf(const E& e) { if constexpr (isMix<E>) return e.Msq; else return 1.0; }
using V = std::vector<double>;
template <typename S> S fromComps(S s, const V& v) { std::size_t k = 0; eachReal(s, [&](double& x) { x = v[k++]; }); return s; }
template <typename E> V consOf(const E& eq, const Complete<E>& q) { Conservative<E> c(eq); ForEachComponent([](double& a, double b) { a = b; }, c, AsCons(q)); return comps(c); }
template <typename E> V fluxOf(const E& eq, const Complete<E>& q, Direction dir) { E e = eq; Conservative<E> f(eq); Flux(e, f, q, dir); return comps(f); }
// the admissible region for the reconstructed states
template <typename E> void admissible(const E& eq, const V& cons) {
  if constexpr (std::is_same_v<E, ShallowWater>) vp_assume(cons[0] > 0);
  else if constexpr (isGas<E>) {
    Conservative<E> c = fromComps(Conservative<E>(eq), cons);
    double m2 = 0; for (int i = 0; i < E::Rank(); ++i) m2 = m2 + c.momentum[i] * c.momentum[i];
    vp_assume(c.density > 0); vp_assume(c.energy - msqOf(eq) * 0.5 * m2 / c.density > 0);
  }
}
template <typename E> Complete<E> completed(const E& eq, const V& cons) {
  E e = eq; Complete<E> q(eq); Conservative<E> c = fromComps(Conservative<E>(eq), cons); CompleteFromCons(e, q, c); return q;
}
// ---------------------------------------------------------------- conservative slopes
// A cell with the two values at its lower and upper face; the cell value is their mean.
template <typename E> struct Cell { Complete<E> lo, up, mid; V slope; };
template <typename E> Cell<E> cellOf(const E& eq, bool flat = false) {
  Cell<E> c{makeState(eq, "q"), Complete<E>(eq), Complete<E>(eq), {}};
  c.up = flat ? c.lo : makeState(eq, "q");
  V a = consOf(eq, c.lo), b = consOf(eq, c.up), m = a; c.slope = a;
  for (std::size_t i = 0; i < a.size(); ++i) { m[i] = 0.5 * (a[i] + b[i]); c.slope[i] = b[i] - a[i]; }
  if (!flat) admissible(eq, m); // follows from convexity
  c.mid = flat ? c.lo : completed(eq, m);
  return c;
}
template <typename E> V evolved(const E& eq, const Cell<E>& c, bool upper, double dt, double dx, Direction dir) {
  V f = fluxOf(eq, c.lo, dir), g = fluxOf(eq, c.up, dir), r = consOf(eq, upper ? c.up : c.lo);
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = r[i] + 0.5 * dt / dx * (f[i] - g[i]);
  admissible(eq, r);
  return comps(completed(eq, r));
}
// a limiter that returns given slopes and checks which cells it is asked about
struct Given { int call = 0; std::vector<V> slope[2]; std::vector<V> cells[4]; bool masked = false; std::vector<bool> mask[2]; };
Given given;
struct GivenSlope {
  template <typename E> void ComputeLimitedSlope(Conservative<E>& s, span<const Complete<E>, 3> st) {
    int k = given.call++;
    if (k > 1) vp_fail("one slope per adjacent cell");
    for (int i = 0; i < 3; ++i) same(comps(st[i]), given.cells[k + i][0], "the slope of a cell is taken from the cell and its two neighbours");
    s = fromComps(s, given.slope[k][0]);
  }
  template <typename E> void ComputeLimitedSlope(ConservativeArray<E>& s, span<const CompleteArray<E>, 3> st) {
    int k = given.call++;
    if (k > 1) vp_fail("one slope per adjacent cell");
    for (int i = 0; i < 3; ++i) for (int l = 0; l < W; ++l) same(lane(st[i], l), given.cells[k + i][l], "the slope of a cell is taken from the cell and its two neighbours");
    for (int l = 0; l < W; ++l) setLane(s, l, given.slope[k][l]);
  }
};
// the gradient variant for MusclHancock2
template <typename E, typename G, typename GA> struct GivenGradient {
  using Gradient = G; using GradientArray = GA;
  explicit GivenGradient(const E& e) : eq(e) {}
  E eq;
  void ComputeGradient(G& g, span<const Complete<E>, 3> st, double dx, Direction) {
    int k = given.call++;
    if (k > 1) vp_fail("one slope per adjacent cell");
    vp_eq(dx, cap.dx, "the cell width reaches the slope");
    for (int i = 0; i < 3; ++i) same(comps(st[i]), given.cells[k + i][0], "the slope of a cell is taken from the cell and its two neighbours");
    g = fromComps(g, given.slope[k][0]);
  }
  void ComputeGradient(GA& g, span<const CompleteArray<E>, 3> st, double dx, Direction) {
    int k = given.call++;
    if (k > 1) vp_fail("one slope per adjacent cell");
    vp_eq(dx, cap.dx, "the cell width reaches the slope");
    for (int i = 0; i < 3; ++i) for (int l = 0; l < W; ++l) same(lane(st[i], l), given.cells[k + i][l], "the slope of a cell is taken from the cell and its two neighbours");
    for (int l = 0; l < W; ++l) setLane(g, l, given.slope[k][l]);
  }
};
struct Setup { double dt, dx; Direction dir; int d; };
Setup setup() { Setup s; s.dt = pos("dt"); s.dx = pos("dx"); s.d = vp_param("dir", 0); s.dir = static_cast<Direction>(s.d); cap = Captured{}; cap.dx = s.dx; given = Given{}; return s; }
void handed(const Setup& s, const std::vector<V> (&want)[2], const std::vector<V>& flux) {
  if (cap.calls != 1) vp_fail("the first-order flux is evaluated once");
  vp_eq(cap.dt, s.dt, "the time step reaches the first-order flux"); vp_eq(cap.dx, s.dx, "the cell width reaches the first-order flux");
  vp_assert(cap.dir == s.d, "the direction reaches the first-order flux");
  for (int k = 0; k < 2; ++k) for (std::size_t l = 0; l < want[k].size(); ++l) same(cap.state[k][l], want[k][l], k ? "lower face value of the right cell at the half step" : "upper face value of the left cell at the half step");
  for (std::size_t l = 0; l < flux.size(); ++l) same(flux[l], cap.flux[l], "the flux is that of the first-order method");
  vp_cover("reconstructed");
}
// what: 0 one stencil, 1 chunk, 2 two cells with gradients, 3 masked chunk
template <typename E, typename M> struct Run {
  static void one(bool flat) {
    Setup s = setup(); E eq = theEq<E>();
    Cell<E> c[2] = {cellOf(eq, flat), cellOf(eq, flat)};
    std::vector<Complete<E>> st{makeState(eq, "far"), c[0].mid, c[1].mid, makeState(eq, "far")};
    for (int i = 0; i < 4; ++i) given.cells[i] = {comps(st[i])};
    double scale = vp_param("perdx", 0) ? s.dx : 1.0;
    for (int k = 0; k < 2; ++k) { V g = c[k].slope; for (double& x : g) x = x / scale; given.slope[k] = {g}; }
    std::vector<V> want[2];
    for (int k = 0; k < 2; ++k) want[k] = {flat ? comps(c[k].mid) : evolved(eq, c[k], k == 0, s.dt, s.dx, s.dir)};
    M m(eq); Conservative<E> f(eq); junk(f);
    m.ComputeNumericFlux(f, span<const Complete<E>, 4>(st.data(), 4), Duration(s.dt), s.dx, s.dir);
    handed(s, want, {comps(f)});
  }
  static void two() {
    Setup s = setup(); E eq = theEq<E>();
    Cell<E> c[2] = {cellOf(eq), cellOf(eq)};
    std::vector<Complete<E>> st{c[0].mid, c[1].mid};
    std::vector<Conservative<E>> g;
    std::vector<V> want[2];
    for (int k = 0; k < 2; ++k) { V v = c[k].slope; for (double& x : v) x = x / s.dx; g.push_back(fromComps(Conservative<E>(eq), v)); want[k] = {evolved(eq, c[k], k == 0, s.dt, s.dx, s.dir)}; }
    M m(eq); Conservative<E> f(eq); junk(f);
    m.ComputeNumericFlux(f, span<const Complete<E>, 2>(st.data(), 2), span<const Conservative<E>, 2>(g.data(), 2), Duration(s.dt), s.dx, s.dir);
    handed(s, want, {comps(f)});
  }
  static void chunk() {
    Setup s = setup(); E eq = theEq<E>();
    double scale = vp_param("perdx", 0) ? s.dx : 1.0;
    std::vector<Complete<E>> st[4]; std::vector<V> want[2];
    for (int l = 0; l < W; ++l) {
      Cell<E> c[2] = {cellOf(eq), cellOf(eq)};
      st[0].push_back(makeState(eq, "far")); st[1].push_back(c[0].mid); st[2].push_back(c[1].mid); st[3].push_back(makeState(eq, "far"));
      for (int k = 0; k < 2; ++k) { V g = c[k].slope; for (double& x : g) x = x / scale; given.slope[k].push_back(g); want[k].push_back(evolved(eq, c[k], k == 0, s.dt, s.dx, s.dir)); }
    }
    std::vector<CompleteArray<E>> a;
    for (int i = 0; i < 4; ++i) { a.push_back(chunkOf(eq, st[i])); for (int l = 0; l < W; ++l) given.cells[i].push_back(comps(st[i][l])); }
    M m(eq); ConservativeArray<E> f(eq); junk(f);
    m.ComputeNumericFlux(f, span<const CompleteArray<E>, 4>(a.data(), 4), Duration(s.dt), s.dx, s.dir);
    std::vector<V> out; for (int l = 0; l < W; ++l) out.push_back(lane(f, l));
    handed(s, want, out);
  }
};
template <typename E> using Old = MusclHancock<E, Capture<E>, GivenSlope>;
template <typename E> using NoSlope = MusclHancock<E, Capture<E>, NoGradient>;
template <typename E> using Cons2 = MusclHancock2<E, GivenGradient<E, Conservative<E>, ConservativeArray<E>>, ConservativeReconstruction<E>, Capture<E>>;
// ---------------------------------------------------------------- primitive and characteristic slopes
template <typename E> struct W1 { double rho, p, c; V u, Y, X; }; // primitive values of one cell
template <typename E> W1<E> primOf(const E& eq, const Complete<E>& q) {
  W1<E> w; w.rho = q.density; w.p = q.pressure; w.c = q.speed_of_sound;
  for (int i = 0; i < E::Rank(); ++i) w.u.push_back(q.momentum[i] / q.density);
  if constexpr (isMix<E>) { for (int i = 0; i < eq.n_species; ++i) w.Y.push_back(q.species[i] / q.density); for (int i = 0; i < eq.n_passive_scalars; ++i) w.X.push_back(q.passive_scalars[i] / q.density); }
  return w;
}
template <typename E> W1<E> symSlope(const E& eq) {
  W1<E> w; w.c = 0; w.rho = vp_real("drho"); w.p = vp_real("dp"); for (int i = 0; i < E::Rank(); ++i) w.u.push_back(vp_real("du"));
  if constexpr (isMix<E>) { for (int i = 0; i < eq.n_species; ++i) w.Y.push_back(vp_real("dY")); for (int i = 0; i < eq.n_passive_scalars; ++i) w.X.push_back(vp_real("dX")); }
  return w;
}
// w +- dx/2 dw - dt/2 A(w) dw, completed from the definitions; g = slope per unit length
template <typename E> V halfStep(const E& eq, const W1<E>& w, const W1<E>& g, bool upper, const Setup& s) {
  double h = upper ? 0.5 * s.dx : -0.5 * s.dx, t = 0.5 * s.dt, un = w.u[s.d], M2 = msqOf(eq);
  double rho = w.rho + h * g.rho - t * (un * g.rho + w.rho * g.u[s.d]);
  double p = w.p + h * g.p - t * (un * g.p + w.rho * w.c * w.c * g.u[s.d]);
  vp_assume(rho > 0); vp_assume(p > 0);
  Complete<E> q(eq); q.density = rho; q.pressure = p; q.speed_of_sound = std::sqrt(eq.gamma * p / rho);
  double e = p / (eq.gamma - 1);
  for (int i = 0; i < E::Rank(); ++i) {
    double u = w.u[i] + h * g.u[i] - t * un * g.u[i]; if (i == s.d) u = u - t * g.p / (w.rho * M2);
    q.momentum[i] = rho * u; e = e + 0.5 * M2 * rho * u * u;
  }
  q.energy = e; vp_assume(e > 0); // follows
  if constexpr (isMix<E>) {
    for (int i = 0; i < eq.n_species; ++i) q.species[i] = rho * (w.Y[i] + h * g.Y[i] - t * un * g.Y[i]);
    for (int i = 0; i < eq.n_passive_scalars; ++i) q.passive_scalars[i] = rho * (w.X[i] + h * g.X[i] - t * un * g.X[i]);
  }
  return comps(q);
}
template <typename E> Primitive<E> asGradient(const E& eq, const W1<E>&, const W1<E>& g, int, Type<Primitive<E>>) {
  Primitive<E> r(eq); r.density = g.rho; r.pressure = g.p; for (int i = 0; i < E::Rank(); ++i) r.velocity[i] = g.u[i];
  if constexpr (isMix<E>) { for (int i = 0; i < eq.n_species; ++i) r.species[i] = g.Y[i]; for (int i = 0; i < eq.n_passive_scalars; ++i) r.passive_scalars[i] = g.X[i]; }
  return r;
}
// amplitudes of the characteristic fields: dp -+ M rho c du, drho - dp/c^2, transverse velocities in cyclic order
template <typename E> Characteristics<E> asGradient(const E& eq, const W1<E>& w, const W1<E>& g, int d, Type<Characteristics<E>>) {
  Characteristics<E> r(eq); double M = 1; if constexpr (isMix<E>) M = std::sqrt(eq.Msq);
  r.minus = g.p - M * w.rho * w.c * g.u[d]; r.plus = g.p + M * w.rho * w.c * g.u[d]; r.zero[0] = g.rho - g.p / (w.c * w.c);
  for (int i = 1; i < E::Rank(); ++i) r.zero[i] = g.u[(d + i) % E::Rank()];
  if constexpr (isMix<E>) { for (int i = 0; i < eq.n_species; ++i) r.species[i] = g.Y[i]; for (int i = 0; i < eq.n_passive_scalars; ++i) r.passive_scalars[i] = g.X[i]; }
  return r;
}
template <typename E, typename G, typename M> struct RunW {
  static void one() {
    Setup s = setup(); E eq = theEq<E>();
    std::vector<Complete<E>> st; for (int i = 0; i < 4; ++i) st.push_back(makeState(eq, "q"));
    std::vector<V> want[2];
    for (int i = 0; i < 4; ++i) given.cells[i] = {comps(st[i])};
    for (int k = 0; k < 2; ++k) { auto w = primOf(eq, st[1 + k]); auto g = symSlope(eq); given.slope[k] = {comps(asGradient(eq, w, g, s.d, Type<G>{}))}; want[k] = {halfStep(eq, w, g, k == 0, s)}; }
    M m(eq); Conservative<E> f(eq); junk(f);
    m.ComputeNumericFlux(f, span<const Complete<E>, 4>(st.data(), 4), Duration(s.dt), s.dx, s.dir);
    handed(s, want, {comps(f)});
  }
  static void chunk() {
    Setup s = setup(); E eq = theEq<E>();
    std::vector<Complete<E>> st[4]; std::vector<V> want[2]; std::vector<CompleteArray<E>> a;
    for (int i = 0; i < 4; ++i) { for (int l = 0; l < W; ++l) { st[i].push_back(makeState(eq, "q")); given.cells[i].push_back(comps(st[i][l])); } a.push_back(chunkOf(eq, st[i])); }
    for (int k = 0; k < 2; ++k) for (int l = 0; l < W; ++l) { auto w = primOf(eq, st[1 + k][l]); auto g = symSlope(eq); given.slope[k].push_back(comps(asGradient(eq, w, g, s.d, Type<G>{}))); want[k].push_back(halfStep(eq, w, g, k == 0, s)); }
    M m(eq); ConservativeArray<E> f(eq); junk(f);
    m.ComputeNumericFlux(f, span<const CompleteArray<E>, 4>(a.data(), 4), Duration(s.dt), s.dx, s.dir);
    std::vector<V> out; for (int l = 0; l < W; ++l) out.push_back(lane(f, l));
    handed(s, want, out);
  }
};
template <typename E> using Prim2 = MusclHancock2<E, GivenGradient<E, Primitive<E>, PrimitiveArray<E>>, PrimitiveReconstruction<E>, Capture<E>>;
template <typename E> using Char2 = MusclHancock2<E, GivenGradient<E, Characteristics<E>, CharacteristicsArray<E>>, CharacteristicsReconstruction<E>, Capture<E>>;
// ---------------------------------------------------------------- masked chunk: active faces only, whatever inactive lanes hold
struct Fractions { std::array<bool, W> on; Array1d face; std::array<Array1d, 4> vol; };
Fractions fractions() {
  Fractions r; r.on = maskBits(); r.face = Array1d::Zero();
  for (int i = 0; i < 4; ++i) r.vol[i] = Array1d::Zero();
  for (int l = 0; l < W; ++l) { if (r.on[l]) r.face[l] = pos("open"); for (int i = 0; i < 4; ++i) if (r.on[l]) r.vol[i][l] = pos("vol"); }
  return r;
}
void handedMasked(const Setup& s, const Fractions& fr, const std::vector<V> (&want)[2]) {
  if (cap.calls != 1) vp_fail("the first-order flux is evaluated once");
  vp_eq(cap.dt, s.dt, "the time step reaches the first-order flux"); vp_eq(cap.dx, s.dx, "the cell width reaches the first-order flux");
  vp_assert(cap.dir == s.d, "the direction reaches the first-order flux");
  for (int l = 0; l < W; ++l) {
    vp_eq(cap.face[l], fr.face[l], "the face fractions reach the first-order flux");
    for (int k = 0; k < 2; ++k) vp_eq(cap.vol[k][l], fr.vol[1 + k][l], "the volume fractions of the adjacent cells reach the first-order flux");
    if (fr.on[l]) for (int k = 0; k < 2; ++k) same(cap.state[k][l], want[k][l], k ? "lower face value of the right cell at the half step (masked)" : "upper face value of the left cell at the half step (masked)");
  }
  vp_cover("reconstructed");
}
#if VPG == 2
// Primitive MUSCL of the perfect gas on locally linear data, extrema and constant data; characteristic MUSCL with an arbitrary limiter.
template <int N> struct Prims { std::vector<Complete<PerfectGas<N>>> st; W1<PerfectGas<N>> mid[2], g[2]; };
// kind 0/3: increasing/decreasing and linear in every primitive, 1: extremum in every primitive at both inner cells, 2: constant
template <int N> Prims<N> primsOf(const PerfectGas<N>& eq, int kind, const Setup& s) {
  Prims<N> r; using E = PerfectGas<N>;
  V w0{pos("rho"), pos("p")}, dw; for (int i = 0; i < N; ++i) w0.push_back(vp_real("u"));
  for (int i = 0; i < 2 + N; ++i) { double d = kind == 2 ? 0.0 : vp_real("dw"); if (kind != 2) vp_assume(d > 1e-9); dw.push_back(d); }
  for (int c = 0; c < 4; ++c) {
    V w = w0; double m = kind == 0 ? c : kind == 3 ? 3 - c : kind == 1 ? c % 2 : 0; for (int i = 0; i < 2 + N; ++i) w[i] = w0[i] + m * dw[i];
    vp_assume(w[0] > 0); vp_assume(w[1] > 0);
    Complete<E> q; q.density = w[0]; q.pressure = w[1]; q.speed_of_sound = std::sqrt(eq.gamma * w[1] / w[0]);
    double e = w[1] / (eq.gamma - 1);
    for (int i = 0; i < N; ++i) { q.momentum[i] = w[0] * w[2 + i]; e = e + 0.5 * w[0] * w[2 + i] * w[2 + i]; }
    q.energy = e; r.st.push_back(q);
    if (c == 1 || c == 2) {
      W1<E>& m = r.mid[c - 1]; m.rho = w[0]; m.p = w[1]; m.c = q.speed_of_sound; for (int i = 0; i < N; ++i) m.u.push_back(w[2 + i]);
      W1<E>& g = r.g[c - 1]; double f = kind == 0 ? 1.0 : kind == 3 ? -1.0 : 0.0; g.rho = f * dw[0] / s.dx; g.p = f * dw[1] / s.dx; g.c = 0; for (int i = 0; i < N; ++i) g.u.push_back(f * dw[2 + i] / s.dx);
    }
  }
  return r;
}
struct Phi { double operator()(double a, double b) const { return vp_uf2("phi", a, b); } Array1d operator()(Array1d a, Array1d b) const { Array1d r; for (int l = 0; l < W; ++l) r[l] = vp_uf2("phi", a[l], b[l]); return r; } };
// limited characteristic amplitudes of a cell, turned into primitive slopes per unit length
template <int N> W1<PerfectGas<N>> phiSlope(const PerfectGas<N>& eq, const Complete<PerfectGas<N>>& a, const Complete<PerfectGas<N>>& b, const Complete<PerfectGas<N>>& c, const Setup& s) {
  auto L = primOf(eq, a), M = primOf(eq, b), R = primOf(eq, c); Phi phi; double z = M.rho * M.c, c2 = M.c * M.c;
  auto amp = [&](auto f) { return phi(f(L, M), f(M, R)); };
  double km = amp([&](auto& x, auto& y) { return (y.p - x.p) - z * (y.u[s.d] - x.u[s.d]); }), kp = amp([&](auto& x, auto& y) { return (y.p - x.p) + z * (y.u[s.d] - x.u[s.d]); });
  double k0 = amp([&](auto& x, auto& y) { return (y.rho - x.rho) - (y.p - x.p) / c2; });
  W1<PerfectGas<N>> g; g.c = 0; g.p = 0.5 * (km + kp) / s.dx; g.rho = k0 / s.dx + g.p / c2;
  for (int i = 0; i < N; ++i) g.u.push_back(i == s.d ? 0.5 * (kp - km) / z / s.dx : amp([&](auto& x, auto& y) { return y.u[i] - x.u[i]; }) / s.dx);
  return g;
}
template <int N> perfect_gas::MusclHancockPrim<N> primMethod(const PerfectGas<N>& eq) { return perfect_gas::MusclHancockPrim<N>(eq); }
template <int N> void pgPrim(bool masked) {
  using E = PerfectGas<N>; Setup s = setup(); E eq = theEq<E>(); const int kind = vp_param("kind", 0);
  Fractions fr; if (masked) fr = fractions();
  std::vector<Complete<E>> st[4]; std::vector<V> want[2]; std::vector<CompleteArray<E>> a;
  for (int l = 0; l < W; ++l) {
    if (masked && !fr.on[l]) { for (int i = 0; i < 4; ++i) { Complete<E> q; junk(q); st[i].push_back(q); } for (int k = 0; k < 2; ++k) want[k].push_back({}); continue; }
    auto p = primsOf<N>(eq, kind, s);
    for (int i = 0; i < 4; ++i) st[i].push_back(p.st[i]);
    for (int k = 0; k < 2; ++k) want[k].push_back(halfStep(eq, p.mid[k], p.g[k], k == 0, s));
  }
  for (int i = 0; i < 4; ++i) a.push_back(chunkOf(eq, st[i]));
  auto m = primMethod<N>(eq); ConservativeArray<E> f; junk(f);
  if (masked) {
    bool any = false; for (int l = 0; l < W; ++l) any = any || fr.on[l];
    if (!any) { vp_cover("nothing open"); return; }
    m.ComputeNumericFlux(f, fr.face, span<const CompleteArray<E>, 4>(a.data(), 4), span<const Array1d, 4>(fr.vol.data(), 4), Duration(s.dt), s.dx, s.dir);
    handedMasked(s, fr, want);
  } else {
    m.ComputeNumericFlux(f, span<const CompleteArray<E>, 4>(a.data(), 4), Duration(s.dt), s.dx, s.dir);
    std::vector<V> out; for (int l = 0; l < W; ++l) out.push_back(lane(f, l));
    handed(s, want, out);
  }
}
template <int N> void pgChar(int what) {
  using E = PerfectGas<N>; Setup s = setup(); E eq = theEq<E>(); perfect_gas::MusclHancockCharacteristic<N> m(eq, Phi{});
  if (what == 0) {
    std::vector<Complete<E>> st; for (int i = 0; i < 4; ++i) st.push_back(makeState(eq, "q"));
    std::vector<V> want[2]; for (int k = 0; k < 2; ++k) want[k] = {halfStep(eq, primOf(eq, st[1 + k]), phiSlope<N>(eq, st[k], st[k + 1], st[k + 2], s), k == 0, s)};
    Conservative<E> f; junk(f);
    m.ComputeNumericFlux(f, span<const Complete<E>, 4>(st.data(), 4), Duration(s.dt), s.dx, s.dir);
    handed(s, want, {comps(f)}); return;
  }
  Fractions fr; if (what == 2) fr = fractions();
  std::vector<Complete<E>> st[4]; std::vector<V> want[2]; std::vector<CompleteArray<E>> a;
  for (int l = 0; l < W; ++l) {
    bool off = what == 2 && !fr.on[l];
    for (int i = 0; i < 4; ++i) { if (off) { Complete<E> q; junk(q); st[i].push_back(q); } else st[i].push_back(makeState(eq, "q")); }
    for (int k = 0; k < 2; ++k) want[k].push_back(off ? V{} : halfStep(eq, primOf(eq, st[1 + k][l]), phiSlope<N>(eq, st[k][l], st[k + 1][l], st[k + 2][l], s), k == 0, s));
  }
  for (int i = 0; i < 4; ++i) a.push_back(chunkOf(eq, st[i]));
  ConservativeArray<E> f; junk(f);
  if (what == 2) {
    m.ComputeNumericFlux(f, fr.face, span<const CompleteArray<E>, 4>(a.data(), 4), span<const Array1d, 4>(fr.vol.data(), 4), Duration(s.dt), s.dx, s.dir);
    handedMasked(s, fr, want);
  } else {
    m.ComputeNumericFlux(f, span<const CompleteArray<E>, 4>(a.data(), 4), Duration(s.dt), s.dx, s.dir);
    std::vector<V> out; for (int l = 0; l < W; ++l) out.push_back(lane(f, l));
    handed(s, want, out);
  }
}
#endif
} // namespace
#define C1(n, ...) VP_ENTRY old_s_##n() { Run<__VA_ARGS__, Old<__VA_ARGS__>>::one(false); } VP_ENTRY old_a_##n() { Run<__VA_ARGS__, Old<__VA_ARGS__>>::chunk(); } \
  VP_ENTRY old_g_##n() { Run<__VA_ARGS__, Old<__VA_ARGS__>>::two(); } VP_ENTRY flat_##n() { Run<__VA_ARGS__, NoSlope<__VA_ARGS__>>::one(true); } \
  VP_ENTRY cons_s_##n() { Run<__VA_ARGS__, Cons2<__VA_ARGS__>>::one(false); } VP_ENTRY cons_a_##n() { Run<__VA_ARGS__, Cons2<__VA_ARGS__>>::chunk(); }
#define C2(n, ...) VP_ENTRY prim_s_##n() { RunW<__VA_ARGS__, Primitive<__VA_ARGS__>, Prim2<__VA_ARGS__>>::one(); } VP_ENTRY prim_a_##n() { RunW<__VA_ARGS__, Primitive<__VA_ARGS__>, Prim2<__VA_ARGS__>>::chunk(); } \
  VP_ENTRY char_s_##n() { RunW<__VA_ARGS__, Characteristics<__VA_ARGS__>, Char2<__VA_ARGS__>>::one(); } VP_ENTRY char_a_##n() { RunW<__VA_ARGS__, Characteristics<__VA_ARGS__>, Char2<__VA_ARGS__>>::chunk(); }
#if VPG == 1
C1(adv, Advection2d) C1(burgers, Burgers1d) C1(shallow, ShallowWater) C1(gas1, PerfectGas<1>) C1(gas2, PerfectGas<2>) C1(gas3, PerfectGas<3>) C1(mix1, PerfectGasMix<1>) C1(mix2, PerfectGasMix<2>)
C2(gas1, PerfectGas<1>) C2(gas2, PerfectGas<2>) C2(gas3, PerfectGas<3>) C2(mix1, PerfectGasMix<1>) C2(mix2, PerfectGasMix<2>) C2(mix3, PerfectGasMix<3>)
#endif
#if VPG == 2
VP_ENTRY pchar_s() { pgChar<VPN>(0); } VP_ENTRY pchar_a() { pgChar<VPN>(1); } VP_ENTRY pchar_m() { pgChar<VPN>(2); } VP_ENTRY pprim_a() { pgPrim<VPN>(false); } VP_ENTRY pprim_m() { pgPrim<VPN>(true); }
#endif
