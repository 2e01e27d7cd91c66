// C30: the stiff integrator. radau_ (Fortran) is replaced by a stand-in that may end in any way.
#include "vp.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include <vector>
using namespace fub;
namespace {
constexpr int N = 2;
// what the stand-in knows: the state vector k is the solution at time T[k]; y[0] holds k
double T[8], V[8]; int known = 0, calls = 0, bad = 0;
double want_rtol, want_atol, want_h; bool want_fb, want_jac;
struct User { double a; int rhs = 0, fb = 0, jac = 0; double t = 0, y = 0; } user;
int snapshot(double* y, double t) { const int k = known++; T[k] = t; V[k] = vp_real("y"); y[0] = k; y[1] = V[k]; return k; }
} // namespace
extern "C" void radau_(int* n, void (*fcn)(int*, double*, double*, double*, float*, int*), double* x, double* y, double* xend, double* h, double* rtol, double* atol, int* itol,
    void (*jac)(int*, double*, double*, double*, int*, float*, int*), int* ijac, int* mljac, int* mujac, void (*)(int*, double*, int*, float*, int*), int* imas, int* mlmas, int* mumas,
    void (*sol)(int*, double*, double*, double*, int*, int*, int*, float*, int*, int*), int* iout, double* work, int* lwork, int* iwork, int* liwork, float* rpar, int* ipar, int* idid) {
  ++calls;
  vp_assert(calls <= 6, "the integrator is restarted a bounded number of times");
  if (calls > 6) vp_stop();
  vp_assert(*n == N && *itol == 0 && *imas == 0 && *mljac == N, "the problem is described correctly");
  vp_eq(*rtol, want_rtol, "the tolerances are the user's"); vp_eq(*atol, want_atol, "the tolerances are the user's"); vp_eq(*h, want_h, "the first step is the user's");
  vp_assert((*ijac != 0) == want_jac && (*iout != 0) == want_fb, "feedback and Jacobian are used if given");
  vp_assert(*lwork >= N * (N + 7 * N + 3 * 7 + 3) + 20 && *liwork >= (2 + 3) * N + 20, "the work space is large enough");
  for (int i = 0; i < *lwork; ++i) work[i] += 0.0;
  for (int i = 20; i < *liwork; ++i) iwork[i] = 0;
  const int k = int(y[0]);
  vp_assert(k >= 0 && k < known, "the integrator starts from a state of the solution"); if (k < 0 || k >= known) vp_stop();
  vp_eq(y[1], V[k], "the integrator starts from a state of the solution"); vp_eq(*x, T[k], "the interval starts at the time of the state");
  vp_assert(*xend > *x, "time runs forwards");
  // evaluate the right-hand side somewhere
  double xs = vp_real("x"), ys[N] = {vp_real("ys"), vp_real("ys")}, f[N] = {0, 0}; int nn = N;
  const int r = user.rhs; fcn(&nn, &xs, ys, f, rpar, ipar);
  vp_assert(user.rhs == r + 1, "the user's right-hand side is evaluated"); for (int i = 0; i < N; ++i) vp_eq(f[i], user.a * ys[i] + xs + i, "the user's right-hand side is evaluated");
  if (*iout) { int nr = 1, cont = 0, lrc = 0, irtrn = 0; double xo = 0; const int b = user.fb; sol(&nr, &xo, &xs, ys, &cont, &lrc, &nn, rpar, ipar, &irtrn); vp_assert(user.fb == b + 1 && irtrn == 0, "the user's feedback is called"); vp_eq(user.t, xs, "time of the feedback"); vp_eq(user.y, ys[1], "state of the feedback"); }
  if (*ijac) { double d[N * N] = {}; int ld = N; const int b = user.jac; jac(&nn, &xs, ys, d, &ld, rpar, ipar); vp_assert(user.jac == b + 1, "the user's Jacobian is called"); for (int i = 0; i < N * N; ++i) vp_eq(d[i], user.a * i + xs + ys[1], "the user's Jacobian is called"); }
  static const int out[] = {1, 2, -1, -2, -3, -4, -42, 0, -5};
  *idid = out[vp_choice("outcome", 9)];
  if (*idid == 1 || *idid == 2) { *x = *xend; snapshot(y, *x); }
  else if (*idid == -1) {}
  else { const double m = vp_real("reached"); vp_assume(m >= *x); vp_assume(m < *xend); *x = m; snapshot(y, m); } // gives up in between
}
namespace {
void run(RadauSolver& proto, bool clone, bool fb, bool jac) {
  const double t0 = vp_real("t0"), dt = vp_real("dt"); vp_assume(dt > 0);
  user.a = vp_real("a"); want_fb = fb; want_jac = jac;
  proto.relative_tolerance = want_rtol = vp_real("rtol"); proto.absolute_tolerance = want_atol = vp_real("atol"); proto.initial_time_step_size = want_h = vp_real("h");
  std::unique_ptr<OdeSolver> copy; const OdeSolver* s = &proto; if (clone) { copy = s->Clone(); s = copy.get(); }
  double mem[N + 2] = {vp_real("guard"), 0, 0, vp_real("guard")}; const double g0 = mem[0], g1 = mem[3]; double* y = mem + 1;
  snapshot(y, t0);
  auto system = [&](span<double> f, span<const double> y, double t) { ++user.rhs; for (int i = 0; i < N; ++i) f[i] = user.a * y[i] + t + i; };
  auto feedback = [&](span<const double> y, double t) { ++user.fb; user.t = t; user.y = y[1]; };
  auto jacobian = [&](span<double> d, span<const double> y, double t) { ++user.jac; for (int i = 0; i < d.size(); ++i) d[i] = user.a * i + t + y[1]; };
  OdeSolver::system_type sys(system); OdeSolver::feedback_type fbk(feedback); OdeSolver::jacobian_type jc(jacobian);
  bool thrown = false;
  try {
    if (fb && jac) s->Integrate(sys, span<double>(y, N), t0, dt, fbk, jc);
    else if (fb) s->Integrate(sys, span<double>(y, N), t0, dt, fbk);
    else s->Integrate(sys, span<double>(y, N), t0, dt);
  } catch (const std::exception&) { thrown = true; }
  if (!thrown) {
    const int k = int(y[0]);
    vp_eq(T[k], t0 + dt, "the integration returns the solution at the end of the interval"); vp_eq(y[1], V[k], "the integration returns the solution at the end of the interval");
    vp_cover("done");
  } else vp_cover("failed");
  vp_eq(mem[0], g0, "only the state is written"); vp_eq(mem[3], g1, "only the state is written");
}
} // namespace
VP_ENTRY plain() { RadauSolver s; run(s, false, false, false); }
VP_ENTRY callbacks() { RadauSolver s; run(s, false, true, vp_param("jac", 1)); }
VP_ENTRY cloned() { RadauSolver s; run(s, true, false, false); }
