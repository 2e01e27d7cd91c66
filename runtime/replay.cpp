// Native implementation of the harness interface: replays one counterexample against the real code.
// usage: replay <entry> <file>;  file lines: "in <name> <value>", "param <name> <value>"
// exit: 0 nothing violated, 10 violated, 11 an assumption failed (not a replay)
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <malloc.h>
static std::map<std::string, std::string> in, par;
static std::map<std::string, int> cnt;
static bool failed = false, assumeFailed = false;
static std::string lookup(const char* n) {
  int k = cnt[n]++;
  std::string s = k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
  auto it = in.find(s);
  return it == in.end() ? std::string("0.5") : it->second;
}
static void fail(const char* l, const char* d) {
  if (assumeFailed) return;
  failed = true;
  printf("FAILED %s %s\n", l, d);
  fflush(stdout);
}
extern "C" {
double vp_real(const char* n) { return strtod(lookup(n).c_str(), nullptr); }
long vp_int(const char* n, long lo, long hi) { long v = (long)strtod(lookup(n).c_str(), nullptr); return v < lo ? lo : v > hi ? hi : v; }
int vp_choice(const char* n, int k) { int v = (int)strtod(lookup(n).c_str(), nullptr); return v < 0 || v >= k ? 0 : v; }
long vp_param(const char* n, long d) { auto it = par.find(n); return it == par.end() ? d : atol(it->second.c_str()); }
// an assumption that fails by rounding only is tolerated by the caller: replay values are rounded models
void vp_assume(int c) { if (!c) { if (!failed) { printf("ASSUME-FAILED\n"); fflush(stdout); std::_Exit(11); } } }
void vp_assert(int c, const char* l) { if (!c) fail(l, ""); }
void vp_eq(double a, double b, const char* l) {
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  double tol = 1e-8 * (std::fabs(a) + std::fabs(b)) + 1e-11;
  if (!(std::fabs(a - b) <= tol)) { char d[128]; snprintf(d, sizeof d, ": %.17g != %.17g", a, b); fail(l, d); }
}
void vp_le(double a, double b, const char* l) {
  if (a <= b) return;
  double tol = 1e-8 * (std::fabs(a) + std::fabs(b)) + 1e-11;
  if (!(a <= b + tol)) { char d[128]; snprintf(d, sizeof d, ": %.17g > %.17g", a, b); fail(l, d); }
}
void vp_cover(const char*) {}
void vp_fail(const char* l) { fail(l, ""); }
void vp_stop() { std::_Exit(failed ? 10 : 0); }
static std::map<std::string, std::vector<std::pair<std::vector<double>, double>>> table;
static double uf(const char* f, std::vector<double> a) {
  for (auto& e : table[f]) {
    bool eq = e.first.size() == a.size();
    for (size_t i = 0; eq && i < a.size(); ++i) eq = std::fabs(e.first[i] - a[i]) <= 1e-12 * (std::fabs(a[i]) + 1);
    if (eq) return e.second;
  }
  double h = 0.37; unsigned long long s = 1469598103934665603ull;
  for (const char* c = f; *c; ++c) { s ^= (unsigned char)*c; s *= 1099511628211ull; }
  h += (double)(s % 97) / 97.0;
  int i = 0;
  for (double x : a) { ++i; h = h * 1.37 + x * (0.61 + 0.17 * i) + 0.11 * std::sin(3.1 * x + i + h); }
  return h;
}
double vp_uf1(const char* f, double a) { return uf(f, {a}); }
double vp_uf2(const char* f, double a, double b) { return uf(f, {a, b}); }
double vp_uf3(const char* f, double a, double b, double c) { return uf(f, {a, b, c}); }
double vp_uf4(const char* f, double a, double b, double c, double d) { return uf(f, {a, b, c, d}); }
double vp_uf5(const char* f, double a, double b, double c, double d, double e) { return uf(f, {a, b, c, d, e}); }
double vp_uf6(const char* f, double a, double b, double c, double d, double e, double g) { return uf(f, {a, b, c, d, e, g}); }
double vp_sel(int c, double a, double b) { return c ? a : b; }
long vp_live(const void* p) { return p ? (long)malloc_usable_size(const_cast<void*>(p)) : -1; }
void vp_print_real(const char* n, double x) { printf("%s = %.17g\n", n, x); }
void vp_print_int(const char* n, long x) { printf("%s = %ld\n", n, x); }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream f(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream ss(line);
    std::string k, n, v;
    ss >> k >> n;
    if (k == "uf") {
      std::vector<double> a;
      while (ss >> v && v != "=") a.push_back(strtod(v.c_str(), nullptr));
      ss >> v;
      table[n].push_back({a, strtod(v.c_str(), nullptr)});
      continue;
    }
    ss >> v;
    if (k == "in") in[n] = v;
    else if (k == "param") par[n] = v;
  }
  void* s = dlsym(RTLD_DEFAULT, argv[1]);
  if (!s) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  try {
    reinterpret_cast<void (*)()>(s)();
  } catch (std::exception& e) { printf("FAILED abort: exception %s\n", e.what()); return 10; }
  catch (...) { printf("FAILED abort: unknown exception\n"); return 10; }
  printf(failed ? "REPLAY: violated\n" : "REPLAY: holds\n");
  return failed ? 10 : 0;
}
