#include <fstream>
// Translation to z3 and the decision procedure for assertions.
#pragma once
#include "poly.hpp"
#include <chrono>
#include <functional>
#include <random>
#include <z3++.h>

std::string show(T t, int depth);
struct Stats {
  long queries = 0, sat = 0, unsat = 0, unknown = 0, folded = 0, polyQueries = 0, splitLeaves = 0, feas = 0;
  long nonzeroAssumed = 0, nfConfirmed = 0;
  double nfSec = 0;
  double solverSec = 0;
};

enum class Res { Valid, Cex, Unknown };

class Solver {
public:
  z3::context c;
  Stats st;
  PolyMgr pm;
  unsigned qTimeout = 4000;    // ms for one query
  unsigned fTimeout = 1000;    // feasibility
  double decideBudget = 60;    // seconds per assertion
  std::mt19937_64 rng{1};
  std::unordered_map<T, Z3_ast> memo;
  std::vector<z3::expr> keep;
  std::map<std::string, z3::func_decl> ufs;
  std::vector<T> realVars, bvVars;
  std::string lastInfo;

  // sqrt of a perfect square of a monomial quotient: |root|, without |.| where signs are known
  bool perfectSqrt(T x, const std::function<bool(T)>& nonneg, T& out) {
    if (x->hasSpecial) return false;
    size_t lim = pm.limit; pm.limit = 400;
    bool ok = false;
    try {
      Frac f = pm.of(x);
      if (f.n.size() == 1) {
        const mpq_class& c = f.n.begin()->second;
        mpz_class n = c.get_num(), d = c.get_den();
        if (n > 0 && mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) {
          ok = true;
          T num = TM.real(mpq_class(sqrt(n), sqrt(d))), den = TM.rone;
          auto put = [&](T& acc, T a, uint32_t e) {
            if (e & 1) { ok = false; return; }
            T b = nonneg(a) ? a : (e & 2) ? TM.rabs(a) : a;
            for (uint32_t i = 0; i < e / 2; ++i) acc = TM.rmul(acc, b);
          };
          for (auto& q : f.n.begin()->first) if (ok) put(num, pm.atomTerm[q.first], q.second);
          for (auto& z : f.d) {
            if (!ok) break;
            const Poly& p = pm.dens[z.first];
            if (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->first[0].second == 1) put(den, pm.atomTerm[p.begin()->first[0].first], z.second);
            else ok = false;
          }
          if (ok) out = den == TM.rone ? num : TM.rdiv(num, den);
        }
      }
    } catch (PolyLimit&) { ok = false; }
    pm.limit = lim;
    return ok;
  }
  z3::expr tr(T t) {
    auto it = memo.find(t);
    if (it != memo.end()) return z3::expr(c, it->second);
    z3::expr e = tr0(t);
    keep.push_back(e);
    memo[t] = e;
    return e;
  }
  z3::expr asBV(T t) { z3::expr e = tr(t); return t->w == 1 ? z3::ite(e, c.bv_val(1, 1), c.bv_val(0, 1)) : e; }
  z3::expr tr0(T t) {
    auto A = [&](int i) { return tr(t->a[i]); };
    switch (t->op) {
    case Op::RConst: return c.real_val(t->q->get_str().c_str());
    case Op::RSpecial: throw std::runtime_error("inf/nan reached the solver");
    case Op::RVar: return c.real_const(t->name.c_str());
    case Op::RAdd: return A(0) + A(1);
    case Op::RMul: return A(0) * A(1);
    case Op::RDiv: return A(0) / A(1);
    case Op::RIte: case Op::BIte: case Op::VIte: return z3::ite(A(0), A(1), A(2));
    case Op::RSqrt: return c.real_const(("sqrt!" + std::to_string(t->id)).c_str());
    case Op::RFloor: return z3::to_real(z3::expr(c, Z3_mk_real2int(c, A(0))));
    case Op::RFromBV: return z3::to_real(z3::bv2int(A(0), t->u != 0));
    case Op::RUF: {
      std::string n = t->name + "/" + std::to_string(t->a.size());
      auto it = ufs.find(n);
      if (it == ufs.end()) {
        z3::sort_vector sv(c);
        for (size_t i = 0; i < t->a.size(); ++i) sv.push_back(c.real_sort());
        it = ufs.emplace(n, c.function(t->name.c_str(), sv, c.real_sort())).first;
      }
      z3::expr_vector ev(c);
      for (T x : t->a) ev.push_back(tr(x));
      return it->second(ev);
    }
    case Op::BConst: return c.bool_val(t->u != 0);
    case Op::VConst: return c.bv_val((uint64_t)t->u, t->w);
    case Op::BVar: return c.bool_const(t->name.c_str());
    case Op::VVar: return c.bv_const(t->name.c_str(), t->w);
    case Op::BNot: return !A(0);
    case Op::BAnd: return A(0) && A(1);
    case Op::BOr: return A(0) || A(1);
    case Op::BXor: return A(0) != A(1);
    case Op::RLt: return A(0) < A(1);
    case Op::REq: case Op::VEq: return A(0) == A(1);
    case Op::VUlt: return z3::ult(A(0), A(1));
    case Op::VSlt: return z3::slt(A(0), A(1));
    case Op::VAdd: return A(0) + A(1);
    case Op::VMul: return A(0) * A(1);
    case Op::VUDiv: return z3::udiv(A(0), A(1));
    case Op::VSDiv: return A(0) / A(1);
    case Op::VURem: return z3::urem(A(0), A(1));
    case Op::VSRem: return z3::srem(A(0), A(1));
    case Op::VShl: return z3::shl(A(0), A(1));
    case Op::VLShr: return z3::lshr(A(0), A(1));
    case Op::VAShr: return z3::ashr(A(0), A(1));
    case Op::VAnd: return A(0) & A(1);
    case Op::VOr: return A(0) | A(1);
    case Op::VXor: return A(0) ^ A(1);
    case Op::VConcat: return z3::concat(asBV(t->a[0]), asBV(t->a[1]));
    case Op::VExtract: return A(0).extract(t->u + t->w - 1, t->u);
    case Op::BExtr: return A(0).extract(t->u, t->u) == c.bv_val(1, 1);
    case Op::VZext: return z3::zext(asBV(t->a[0]), t->w - t->a[0]->w);
    case Op::VSext: return z3::sext(asBV(t->a[0]), t->w - t->a[0]->w);
    }
    throw std::runtime_error("tr");
  }
  // ---- collecting sub terms
  void collect(const std::vector<T>& roots, std::vector<T>& out) {
    std::unordered_set<T> seen;
    std::vector<T> st(roots.begin(), roots.end());
    while (!st.empty()) {
      T t = st.back(); st.pop_back();
      if (!seen.insert(t).second) continue;
      out.push_back(t);
      for (T x : t->a) st.push_back(x);
    }
  }
  // axioms for square roots and known functions occurring in the roots
  std::vector<z3::expr> axioms(const std::vector<T>& sub) {
    std::vector<z3::expr> r;
    for (T t : sub) {
      if (t->op == Op::RSqrt) {
        z3::expr s = tr(t), x = tr(t->a[0]);
        r.push_back(s >= 0);
        r.push_back(z3::implies(x >= 0, s * s == x));
        r.push_back(z3::implies(x > 0, s > 0));
      } else if (t->op == Op::RUF) {
        z3::expr e = tr(t);
        if (t->name == "exp") { r.push_back(e > 0); }
        if (t->name == "pow") r.push_back(z3::implies(tr(t->a[0]) > 0, e > 0));
        if (t->name == "sin" || t->name == "cos") {
          r.push_back(e >= -1); r.push_back(e <= 1);
          T s = TM.ruf("sin", {t->a[0]}), k = TM.ruf("cos", {t->a[0]});
          r.push_back(tr(s) * tr(s) + tr(k) * tr(k) == 1);
        }
        if (t->name == "pow" && TM.isRC(t->a[0]) && *t->a[0]->q == 1) r.push_back(e == 1);
      }
    }
    return r;
  }
  struct Clock {
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double s() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  };
  static bool isInt(T t) { return t->w >= 1; }
  // returns sat/unsat/unknown for the conjunction, fills A when sat
  z3::check_result check(const std::vector<T>& conj, unsigned timeout, Assign* A, bool nonzeroDivs = false, const std::vector<std::pair<T, double>>* fix = nullptr) {
    Clock ck;
    z3::check_result res = z3::unknown;
    std::vector<T> sub;
    collect(conj, sub);
    bool hasInt = false, hasReal = false, hasNL = false, hasFloor = false;
    for (T t : sub) {
      if (t->w >= 2 || t->op == Op::BVar) hasInt = true;
      if (t->op == Op::RVar || t->op == Op::RSqrt || t->op == Op::RUF) hasReal = true;
      if (t->op == Op::RMul && !TM.isRC(t->a[0])) hasNL = true;
      if (t->op == Op::RDiv || t->op == Op::RSqrt) hasNL = true;
      if (t->op == Op::RFloor || t->op == Op::RUF) hasFloor = true;
    }
    std::vector<z3::expr> fs;
    try {
      for (T t : conj) fs.push_back(tr(t));
      for (auto& e : axioms(sub)) fs.push_back(e);
      if (nonzeroDivs) for (T t : sub) if (t->op == Op::RDiv) fs.push_back(tr(t->a[1]) != 0);
      if (fix) for (auto& p : *fix) fs.push_back(tr(p.first) == c.real_val(mpq_class(p.second).get_str().c_str()));
    } catch (std::runtime_error& e) { lastInfo = e.what(); st.unknown++; return z3::unknown; }
    auto attempt = [&](z3::solver s, unsigned to) {
      z3::params p(c);
      p.set("timeout", to);
      s.set(p);
      for (auto& e : fs) s.add(e);
      z3::check_result r = z3::unknown;
      try { r = s.check(); } catch (z3::exception& ex) { lastInfo = ex.msg(); r = z3::unknown; }
      if (r == z3::sat && A) {
        try { readModel(s.get_model(), sub, *A); } catch (z3::exception& ex) { lastInfo = ex.msg(); }
      }
      return r;
    };
    st.queries++;
    if (hasReal && hasNL && !hasInt && !hasFloor) {
      res = attempt(z3::tactic(c, "qfnra-nlsat").mk_solver(), timeout);
      if (res == z3::unknown) res = attempt(z3::solver(c), timeout / 2 + 200);
    } else {
      res = attempt(z3::solver(c), timeout);
      if (res == z3::unknown && hasNL && !hasInt) res = attempt(z3::tactic(c, "qfnra-nlsat").mk_solver(), timeout);
    }
    if (res == z3::sat) st.sat++; else if (res == z3::unsat) st.unsat++; else st.unknown++;
    st.solverSec += ck.s();
    return res;
  }
  double num(const z3::expr& v) {
    if (v.is_numeral()) {
      std::string s = v.get_decimal_string(30);
      if (!s.empty() && s.back() == '?') s.pop_back();
      return std::strtod(s.c_str(), nullptr);
    }
    if (v.is_algebraic()) {
      std::string s = Z3_get_numeral_decimal_string(c, v, 30);
      if (!s.empty() && s.back() == '?') s.pop_back();
      return std::strtod(s.c_str(), nullptr);
    }
    return 0;
  }
  void readModel(z3::model m, const std::vector<T>& sub, Assign& A) {
    A = Assign();
    for (T t : sub) {
      if (t->op == Op::RVar) A.r[t] = num(m.eval(tr(t), true));
      else if (t->op == Op::RUF && !isMath(t->name)) A.uf[t] = num(m.eval(tr(t), true));
      else if (t->op == Op::BVar) A.v[t] = m.eval(tr(t), true).is_true();
      else if (t->op == Op::VVar) { z3::expr v = m.eval(tr(t), true); A.v[t] = v.get_numeral_uint64(); }
    }
  }
  // true if already unsatisfiable when square roots are just non-negative numbers
  bool absUnsat(const std::vector<T>& conj, unsigned to) {
    std::unordered_set<T> seen;
    std::vector<T> todo(conj.begin(), conj.end());
    std::vector<z3::expr> fs;
    bool any = false;
    Clock ck;
    try {
      for (T t : conj) fs.push_back(tr(t));
      while (!todo.empty()) {
        T t = todo.back(); todo.pop_back();
        if (!seen.insert(t).second) continue;
        if (t->op == Op::RSqrt) { fs.push_back(tr(t) >= 0); any = true; continue; }
        for (T x : t->a) todo.push_back(x);
      }
      if (!any) return false;
      z3::solver s(c);
      z3::params p(c); p.set("timeout", to); s.set(p);
      for (auto& e : fs) s.add(e);
      z3::check_result r = s.check();
      st.queries++; st.solverSec += ck.s();
      if (r == z3::unsat) { st.unsat++; return true; }
      if (r == z3::sat) st.sat++; else st.unknown++;
    } catch (z3::exception&) {} catch (std::runtime_error&) {}
    return false;
  }
  // linear abstraction: every product, quotient, root and function value is an unknown of its own
  std::unordered_map<T, Z3_ast> lmemo;
  std::vector<T> lroots;
  // number of a term modulo associativity and commutativity of sums and products
  std::unordered_map<T, int> acOf;
  std::map<std::vector<uint64_t>, int> acIds;
  int ac(T t) {
    auto it = acOf.find(t);
    if (it != acOf.end()) return it->second;
    std::vector<uint64_t> k{(uint64_t)t->op, (uint64_t)t->w};
    if (t->a.empty() || t->op == Op::RUF) { k.push_back(1); k.push_back(t->id); }
    else if (t->op == Op::RAdd || t->op == Op::RMul) {
      k.push_back(2);
      std::vector<T> todo{t}; std::vector<uint64_t> parts;
      while (!todo.empty()) { T x = todo.back(); todo.pop_back(); for (T y : x->a) if (y->op == t->op) todo.push_back(y); else parts.push_back(ac(y)); }
      std::sort(parts.begin(), parts.end()); k.insert(k.end(), parts.begin(), parts.end());
    } else if (t->op == Op::RSqrt || t->op == Op::RDiv || t->op == Op::RIte || t->op == Op::BIte || t->op == Op::BNot || t->op == Op::RLt) { k.push_back(3); for (T y : t->a) k.push_back(ac(y)); }
    else if (t->op == Op::BAnd || t->op == Op::BOr || t->op == Op::REq) { k.push_back(4); std::vector<uint64_t> parts; for (T y : t->a) parts.push_back(ac(y)); std::sort(parts.begin(), parts.end()); k.insert(k.end(), parts.begin(), parts.end()); }
    else { k.push_back(1); k.push_back(t->id); }
    int id = acIds.emplace(k, (int)acIds.size()).first->second;
    acOf[t] = id;
    return id;
  }
  static bool twoConst(T f) { return f->op == Op::RIte && TM.isRC(f->a[1]) && TM.isRC(f->a[2]); }
  z3::expr lin(T t) {
    auto it = lmemo.find(t);
    if (it != lmemo.end()) return z3::expr(c, it->second);
    auto A = [&](int i) { return lin(t->a[i]); };
    auto atom = [&] { return c.real_const(("lin!" + std::to_string(ac(t))).c_str()); };
    z3::expr e = [&]() -> z3::expr {
      switch (t->op) {
      case Op::RAdd: return A(0) + A(1);
      case Op::RMul:
        if (TM.isRC(t->a[0]) || TM.isRC(t->a[1])) return A(0) * A(1);
        for (int i = 0; i < 2; ++i) { // a choice between constants
          T f = t->a[i];
          if (twoConst(f)) return z3::ite(lin(f->a[0]), lin(f->a[1]) * A(1 - i), lin(f->a[2]) * A(1 - i));
        }
        return atom();
      case Op::RDiv: if (TM.isRC(t->a[1])) return A(0) / A(1); return atom();
      case Op::RSqrt: case Op::RUF: case Op::RFloor: case Op::RFromBV: return atom();
      case Op::RIte: case Op::BIte: return z3::ite(A(0), A(1), A(2));
      case Op::BNot: return !A(0);
      case Op::BAnd: return A(0) && A(1);
      case Op::BOr: return A(0) || A(1);
      case Op::BXor: return A(0) != A(1);
      case Op::RLt: return A(0) < A(1);
      case Op::REq: return A(0) == A(1);
      case Op::RConst: case Op::RVar: case Op::BConst: case Op::BVar: return tr(t);
      default: if (t->w == 1) return c.bool_const(("linb!" + std::to_string(ac(t))).c_str()); throw std::runtime_error("lin");
      }
    }();
    keep.push_back(e);
    lmemo[t] = e;
    return e;
  }
  bool linUnsat(const std::vector<T>& conj, unsigned to) {
    Clock ck;
    try {
      z3::solver s(c, "QF_LRA");
      z3::params p(c); p.set("timeout", to); s.set(p);
      std::unordered_set<T> seen;
      std::vector<T> todo;
      bool real = false;
      for (T t : conj) { s.add(lin(t)); todo.push_back(t); }
      while (!todo.empty()) {
        T t = todo.back(); todo.pop_back();
        if (!seen.insert(t).second) continue;
        if (t->op == Op::RLt || t->op == Op::REq) real = true;
        if (t->op == Op::RSqrt) { s.add(lin(t) >= 0); continue; }
        if (t->op == Op::RMul && !TM.isRC(t->a[0]) && !TM.isRC(t->a[1]) && !twoConst(t->a[0]) && !twoConst(t->a[1])) { if (t->a[0] == t->a[1]) s.add(lin(t) >= 0); continue; }
        if (t->op == Op::RUF || t->op == Op::RFloor || t->op == Op::RFromBV || (t->w > 1)) continue;
        if (t->op == Op::RDiv && !TM.isRC(t->a[1])) continue;
        for (T x : t->a) todo.push_back(x);
      }
      if (!real) return false;
      z3::check_result r = s.check();
      if (getenv("VP_DBG3")) { fprintf(stderr, "lin %d t %.3f goal %s\n", r, ck.s(), show(conj.back(), 4).c_str()); if (r == z3::sat && getenv("VP_DBG3")[0] == '2') { std::ofstream("/tmp/lin.smt2") << s.to_smt2() << s.get_model(); } }
      st.queries++; st.solverSec += ck.s();
      if (r == z3::unsat) { st.unsat++; return true; }
      if (r == z3::sat) st.sat++; else st.unknown++;
    } catch (z3::exception&) {} catch (std::runtime_error& e) { if (getenv("VP_DBG3")) fprintf(stderr, "lin error %s\n", e.what()); }
    return false;
  }
  // ---- guesses
  static double pick(std::mt19937_64& g) {
    static const double nice[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 0.25, 1.5, -1.5, 4, 5, 7, 0.125, -0.25, 10, -10};
    unsigned k = g() % 4;
    if (k == 0) return nice[g() % (sizeof(nice) / sizeof(double))];
    double u = (double)(int64_t)(g() % 4096) / 4096.0;
    if (k == 1) return std::round(u * 64) / 16.0;        // [0,4]
    if (k == 2) return std::round((u - 0.5) * 128) / 16.0; // [-4,4]
    return std::round(u * 16) ;                             // integers
  }
  // bounds read off constraints of the form const < var and their like
  struct Bound { double lo = -1e300, hi = 1e300; };
  void bounds(T p, bool pos, std::unordered_map<T, Bound>& b) {
    if (p->op == Op::BNot) { bounds(p->a[0], !pos, b); return; }
    if (p->op == Op::BAnd && pos) { bounds(p->a[0], true, b); bounds(p->a[1], true, b); return; }
    if (p->op == Op::BOr && !pos) { bounds(p->a[0], false, b); bounds(p->a[1], false, b); return; }
    if (p->op != Op::RLt) return;
    T x = p->a[0], y = p->a[1];
    if (!pos) std::swap(x, y); // not (x < y): y <= x
    auto val = [](T t, double& d) { if (t->op != Op::RConst || !t->q) return false; d = t->q->get_d(); return true; };
    double d;
    if (y->op == Op::RVar && val(x, d)) b[y].lo = std::max(b[y].lo, d);
    if (x->op == Op::RVar && val(y, d)) b[x].hi = std::min(b[x].hi, d);
  }
  bool guess(const std::vector<T>& conj, Assign& out, int tries, const Assign* base = nullptr) {
    std::vector<T> sub;
    collect(conj, sub);
    std::vector<T> rv, vv;
    for (T t : sub) { if (t->op == Op::RVar) rv.push_back(t); if (t->op == Op::VVar || t->op == Op::BVar) vv.push_back(t); }
    std::unordered_map<T, Bound> bd;
    for (T t : conj) bounds(t, true, bd);
    Clock ck;
    for (int i = 0; i < tries && ck.s() < 1.0; ++i) {
      Assign A;
      bool keep = base && i % 2 == 0;
      double scale = i % 5 < 3 ? 1.0 : i % 5 == 3 ? 1.0 / 16 : 1.0 / 1024; // quantities of either sign small compared to the positive ones
      for (T t : rv) {
        if (keep && rng() % 4) { auto it = base->r.find(t); if (it != base->r.end()) { A.r[t] = it->second; continue; } }
        double x = pick(rng);
        auto it = bd.find(t);
        if (it == bd.end()) x *= scale;
        else {
          double lo = it->second.lo, hi = it->second.hi;
          if (lo > -1e299 && hi < 1e299) { double u = (double)(1 + rng() % 63) / 64; x = lo + (hi - lo) * u; }
          else if (lo > -1e299) { if (x <= lo) { x = lo + std::abs(x - lo); if (x <= lo) x = lo + 0.25 * (1 + rng() % 8); } if (lo == 0 && t->name.rfind("dt", 0) == 0) x *= scale; }
          else if (hi < 1e299) { if (x >= hi) { x = hi - std::abs(x - hi); if (x >= hi) x = hi - 0.25 * (1 + rng() % 8); } }
        }
        A.r[t] = x;
      }
      for (T t : vv) {
        if (keep && rng() % 4) { auto it = base->v.find(t); if (it != base->v.end()) { A.v[t] = it->second; continue; } }
        uint64_t q = rng(); A.v[t] = (q % 3 ? (q >> 8) % 9 : -((q >> 8) % 5)) & maskw(t->w);
      }
      bool ok = true;
      for (T t : conj) if (!evalV(t, A)) { ok = false; break; }
      if (ok) { out = A; out.mr.clear(); out.mv.clear(); return true; }
    }
    return false;
  }
  bool holds(const std::vector<T>& conj, const Assign& A) { for (T t : conj) if (!evalV(t, A)) return false; return true; }

  // ---- substitution of boolean facts
  struct Subst {
    std::unordered_map<T, T> m;
    void fact(T c, bool v) {
      if (c->op == Op::BNot) { fact(c->a[0], !v); return; }
      if (c->op == Op::BAnd && v) { fact(c->a[0], true); fact(c->a[1], true); }
      m[c] = TM.boolc(v);
      if (c->op == Op::RLt && v) {
        T r = TM.rlt(c->a[1], c->a[0]); if (!TM.isC(r)) m[r] = TM.ff;
        T e = TM.req(c->a[0], c->a[1]); if (!TM.isC(e)) m[e] = TM.ff;
      }
      if (c->op == Op::REq && v) {
        T r = TM.rlt(c->a[0], c->a[1]); if (!TM.isC(r)) m[r] = TM.ff;
        r = TM.rlt(c->a[1], c->a[0]); if (!TM.isC(r)) m[r] = TM.ff;
        // propagate x == const / x == y for variables
        T x = c->a[0], y = c->a[1];
        if (x->op == Op::RVar && TM.isRC(y)) m[x] = y;
        else if (y->op == Op::RVar && TM.isRC(x)) m[y] = x;
      }
    }
    T app(T t) {
      auto it = m.find(t);
      if (it != m.end()) return it->second;
      if (t->a.empty()) return t;
      std::vector<T> n; bool ch = false;
      // evaluate condition first
      if (t->op == Op::RIte || t->op == Op::BIte || t->op == Op::VIte) {
        T c0 = app(t->a[0]);
        T r = c0 == TM.tt ? app(t->a[1]) : c0 == TM.ff ? app(t->a[2]) : TM.ite(c0, app(t->a[1]), app(t->a[2]));
        m[t] = r; return r;
      }
      for (T x : t->a) { T y = app(x); n.push_back(y); ch |= y != x; }
      T r = ch ? rebuild(t, n) : t;
      m[t] = r;
      return r;
    }
    T rebuild(T t, std::vector<T>& n) {
      switch (t->op) {
      case Op::RAdd: return TM.radd(n[0], n[1]);
      case Op::RMul: return TM.rmul(n[0], n[1]);
      case Op::RDiv: return TM.rdiv(n[0], n[1]);
      case Op::RSqrt: return TM.rsqrt(n[0]);
      case Op::RFloor: return TM.rfloor(n[0]);
      case Op::RUF: return TM.ruf(t->name, n);
      case Op::RFromBV: return TM.rfrombv(t->u, n[0]);
      case Op::RLt: return TM.rlt(n[0], n[1]);
      case Op::REq: return TM.req(n[0], n[1]);
      case Op::BNot: return TM.bnot(n[0]);
      case Op::BAnd: return TM.band(n[0], n[1]);
      case Op::BOr: return TM.bor(n[0], n[1]);
      case Op::BXor: return TM.bxor(n[0], n[1]);
      case Op::VEq: return TM.veq(n[0], n[1]);
      case Op::VUlt: return TM.vlt(false, n[0], n[1]);
      case Op::VSlt: return TM.vlt(true, n[0], n[1]);
      case Op::VConcat: return TM.vconcat(n[0], n[1]);
      case Op::VExtract: return TM.vextract(n[0], t->u, t->w);
      case Op::BExtr: return TM.vextract(n[0], t->u, 1);
      case Op::VZext: return TM.vzext(n[0], t->w);
      case Op::VSext: return TM.vsext(n[0], t->w);
      default: return TM.vbin(t->op, n[0], n[1]);
      }
    }
  };
  // ---- the decision procedure
  // innermost ite condition (or boolean atom under an ite condition) without ites inside
  T findCond(const std::vector<T>& roots) {
    std::unordered_set<T> seen;
    std::function<bool(T)> hasIte;
    std::unordered_map<T, bool> hm;
    hasIte = [&](T t) -> bool {
      auto it = hm.find(t); if (it != hm.end()) return it->second;
      bool r = (t->op == Op::RIte || t->op == Op::BIte || t->op == Op::VIte);
      for (T x : t->a) if (r) break; else r = hasIte(x);
      hm[t] = r; return r;
    };
    T best = nullptr;
    std::function<void(T)> go = [&](T t) {
      if (best || !seen.insert(t).second) return;
      if (!hasIte(t)) return;
      if (t->op == Op::RIte || t->op == Op::BIte || t->op == Op::VIte) {
        if (!hasIte(t->a[0])) {
          // choose an atom of the condition
          T q = t->a[0];
          while (q->op == Op::BNot || q->op == Op::BAnd || q->op == Op::BOr || q->op == Op::BXor) q = q->a[0];
          best = q; return;
        }
      }
      for (T x : t->a) go(x);
    };
    for (T r : roots) go(r);
    return best;
  }
  bool nonzeroUsed = false;
  struct Timeout {};
  // equality of rationals by normal form: 1 proven, 0 not decided
  int polyEq(const std::vector<T>& pc, T a, T b) {
    try {
      Frac f = pm.of(TM.rsub(a, b));
      st.polyQueries++;
      if (f.n.empty()) {
        std::vector<T> sub; collect({a, b}, sub);
        std::set<T> divs;
        for (T t : sub) if (t->op == Op::RDiv) divs.insert(t->a[1]);
        // the identity is unconditional only if the divisors are non-zero
        for (T d : divs) {
          if (knownNonzero.count(d)) continue;
          auto key = std::make_pair(d, pcKey(pc));
          if (nzPc.count(key)) continue;
          if (nzOpen.count(key)) { nonzeroUsed = true; continue; }
          if (check({TM.req(d, TM.rzero)}, 300, nullptr) == z3::unsat) { knownNonzero.insert(d); continue; }
          std::vector<T> q = pc; q.push_back(TM.req(d, TM.rzero));
          if (check(q, 300, nullptr) == z3::unsat) { nzPc.insert(key); continue; }
          nzOpen.insert(key); nonzeroUsed = true;
        }
        // the solver is asked as well, within a small time allowance
        if (st.nfSec < 3) {
          Clock c2;
          std::vector<T> q = pc; q.push_back(TM.bnot(TM.req(a, b)));
          if (check(q, 400, nullptr, true) == z3::unsat) st.nfConfirmed++;
          st.nfSec += c2.s();
        }
        return 1;
      }
    } catch (PolyLimit&) {}
    return 0;
  }
  std::unordered_set<T> knownNonzero;
  std::set<std::pair<T, size_t>> nzPc, nzOpen;
  size_t pcKey(const std::vector<T>& pc) { size_t h = 7; for (T t : pc) h = h * 1000003u + t->id; return h; }

  // ---- comparisons by normal form: decided by sign where possible, otherwise brought to one shape
  struct Canon {
    Solver& S; PolyMgr& pm;
    std::map<uint32_t, mpq_class> low; // atom > low
    std::unordered_map<T, T> memo;
    std::unordered_map<T, bool> hm;
    bool used = false;
    Canon(Solver& s, const std::vector<T>& pc) : S(s), pm(s.pm) {
      for (T p : pc) facts(p);
      pcs = &pc;
    }
    void facts(T p) {
      if (p->op == Op::BAnd) { facts(p->a[0]); facts(p->a[1]); return; }
      if (p->op == Op::RLt && TM.isRC(p->a[0]) && p->a[0]->q && p->a[1]->op == Op::RVar) {
        uint32_t a = pm.atom(p->a[1]);
        auto it = low.find(a);
        if (it == low.end() || it->second < *p->a[0]->q) low[a] = *p->a[0]->q;
      }
    }
    bool hasIte(T t) {
      auto it = hm.find(t); if (it != hm.end()) return it->second;
      bool r = (t->op == Op::RIte || t->op == Op::BIte || t->op == Op::VIte);
      for (T x : t->a) if (r) break; else r = hasIte(x);
      hm[t] = r; return r;
    }
    // 2 positive, 1 non-negative, -1 non-positive, -2 negative, 0 unknown
    int atomSign(uint32_t a) {
      auto it = low.find(a);
      if (it != low.end() && it->second >= 0) return 2;
      if (pm.sqrtOf[a] >= 0) { int s = fracSign(pm.sqrtFrac[pm.sqrtOf[a]]); return s == 2 ? 2 : 1; }
      return 0;
    }
    int polySign(const Poly& p0) {
      if (p0.empty() || p0.size() > 400) return 0;
      Poly p = p0;
      for (auto& l : low) if (l.second != 0 && l.second > 0) { // atom = low + positive
        Poly n; bool occ = false;
        for (auto& x : p) {
          uint32_t e = 0; Mono m;
          for (auto& q : x.first) if (q.first == l.first) e = q.second; else m.push_back(q);
          if (!e) { Poly one; one[x.first] = x.second; PolyMgr::addTo(n, one); continue; }
          occ = true;
          mpq_class c = x.second; mpz_class bin = 1;
          for (uint32_t k = 0; k <= e; ++k) { // binomial
            mpq_class lp = 1; for (uint32_t i = 0; i < e - k; ++i) lp *= l.second;
            Mono mm = k ? PolyMgr::mmul(m, Mono{{l.first, k}}) : m;
            Poly one; one[mm] = c * lp * mpq_class(bin); PolyMgr::addTo(n, one);
            bin = bin * (e - k) / (k + 1);
          }
        }
        if (occ) p = n;
        if (p.size() > 2000) return 0;
      }
      int all = 0; bool strict = false;
      for (auto& x : p) {
        int s = sgn(x.second) * 2;
        for (auto& q : x.first) {
          int a = atomSign(q.first);
          if (q.second % 2 == 0) a = (a == 2 || a == -2) ? 2 : 1;
          if (a == 0) return 0;
          int mag = std::min(std::abs(s), std::abs(a)); s = (s > 0) == (a > 0) ? mag : -mag;
        }
        if (all == 0) all = s > 0 ? 1 : -1;
        else if ((s > 0) != (all > 0)) return 0;
        if (std::abs(s) == 2) strict = true;
      }
      return strict ? 2 * all : all;
    }
    int fracSign(const Frac& f) {
      int s = polySign(f.n);
      if (!s) return 0;
      for (auto& z : f.d) {
        if (z.second % 2 == 0) continue;
        int d = polySign(pm.dens[z.first]);
        if (!d) return 0;
        if (d < 0) s = -s;
      }
      return s;
    }
    // a denominator of known sign that is linear in an atom x: sign * (x - v) up to a positive constant
    struct LinDen { int sign = 0; uint32_t at = 0; Poly v; };
    std::map<uint32_t, LinDen> lden;
    const LinDen& linDen(uint32_t i) {
      auto it = lden.find(i); if (it != lden.end()) return it->second;
      LinDen r; const Poly& p = pm.dens[i];
      if (p.size() >= 2 && p.size() <= 4) {
        for (auto& x : p) if (x.first.size() == 1 && x.first[0].second == 1 && pm.sqrtOf[x.first[0].first] < 0) {
          uint32_t at = x.first[0].first; int occ = 0;
          for (auto& y : p) for (auto& q : y.first) if (q.first == at) ++occ;
          if (occ != 1) continue;
          r.at = at;
          for (auto& y : p) if (&y != &x) r.v[y.first] = -y.second / x.second;
          int s = polySign(p); r.sign = std::abs(s) == 2 ? (s > 0) == (sgn(x.second) > 0) ? 1 : -1 : 0;
          break;
        }
      }
      return lden[i] = r;
    }
    // the shape: sign-relevant numerator and denominators; flip tells whether the sign was reversed
    bool shape(const Frac& f0, std::string& key, bool& flip, Poly& n) {
      flip = false;
      n = f0.n;
      Frac k;
      for (auto& z : f0.d) {
        if (z.second % 2 == 0) continue;
        int d = polySign(pm.dens[z.first]);
        if (d > 0) continue;
        if (d < 0) { flip = !flip; continue; }
        k.d[z.first] = 1;
      }
      // positive monomial content
      Mono g = n.begin()->first;
      for (auto& x : n) { Mono h; for (auto& q : g) for (auto& r : x.first) if (q.first == r.first) h.push_back({q.first, std::min(q.second, r.second)}); g = h; if (g.empty()) break; }
      Mono strip;
      for (auto& q : g) if (atomSign(q.first) == 2) strip.push_back(q); else if (q.second > 2) strip.push_back({q.first, (q.second - 1) / 2 * 2});
      if (!strip.empty()) {
        Poly p2;
        for (auto& x : n) { Mono m; for (auto& r : x.first) { uint32_t e = r.second; for (auto& q : strip) if (q.first == r.first) e -= q.second; if (e) m.push_back({r.first, e}); } p2[m] = x.second; }
        n = p2;
      }
      // factors of known sign that are linear in some atom x: divide by (x - v)
      auto divide = [&](uint32_t at, const Poly& v, bool neg) {
        for (;;) {
          std::map<uint32_t, Poly> co; uint32_t deg = 0; // coefficients in x
          for (auto& x : n) { uint32_t e = 0; Mono m; for (auto& q : x.first) if (q.first == at) e = q.second; else m.push_back(q); co[e][m] = x.second; deg = std::max(deg, e); }
          if (!deg) return;
          Poly acc; std::map<uint32_t, Poly> quo; // Horner: the last accumulator is the remainder
          for (uint32_t e = deg + 1; e-- > 0;) {
            acc = pm.mul(acc, v);
            if (co.count(e)) PolyMgr::addTo(acc, co[e]);
            if (e) quo[e - 1] = acc;
          }
          if (!acc.empty()) return;
          Poly p2;
          for (auto& q : quo) for (auto& x : q.second) { Mono m = q.first ? PolyMgr::mmul(x.first, Mono{{at, q.first}}) : x.first; Poly one; one[m] = x.second; PolyMgr::addTo(p2, one); }
          n = p2; if (neg) flip = !flip;
        }
      };
      try {
        for (auto& l : low) if (l.second > 0) divide(l.first, pm.constP(l.second), false);
        for (uint32_t i = 0; i < pm.dens.size(); ++i) {
          auto& f = linDen(i);
          if (f.sign) divide(f.at, f.v, f.sign < 0);
        }
      } catch (PolyLimit&) {}
      mpq_class lead = n.rbegin()->second;
      if (lead < 0) flip = !flip;
      for (auto& x : n) x.second /= lead;
      k.n = n;
      key = pm.key(k);
      return k.d.empty();
    }
    T cmp(T t) { // t = RLt or REq without ites
      size_t lim = pm.limit; pm.limit = 3000;
      T r = t;
      try {
        T d = TM.rsub(t->a[0], t->a[1]);
        if (!d->hasSpecial) {
          Frac f = pm.of(d);
          if (f.n.empty()) { used = true; r = t->op == Op::REq ? TM.tt : TM.ff; }
          else {
            int s = fracSign(f);
            if (t->op == Op::REq && std::abs(s) == 2) { used = true; r = TM.ff; }
            else if (t->op == Op::RLt && s == -2) { used = true; r = TM.tt; }
            else if (t->op == Op::RLt && s > 0) { used = true; r = TM.ff; }
            else {
              std::string key; bool flip; Poly n;
              bool pure = shape(f, key, flip, n);
              auto it = S.canonRep.find(key);
              if (it == S.canonRep.end()) {
                T rep = pure && n.size() <= 40 ? pm.polyTerm(n) : flip ? TM.rsub(t->a[1], t->a[0]) : d;
                it = S.canonRep.emplace(key, rep).first;
              }
              used = true;
              if (t->op == Op::REq) r = TM.req(it->second, TM.rzero);
              else r = flip ? TM.rlt(TM.rzero, it->second) : TM.rlt(it->second, TM.rzero);
            }
          }
        }
      } catch (PolyLimit&) {}
      pm.limit = lim;
      return r;
    }
    // what the path condition says about comparisons, in normal form
    const std::vector<T>* pcs = nullptr;
    std::unordered_map<T, bool> lits;
    int liftDepth = 0;
    void learn(T p, bool v) {
      while (p->op == Op::BNot) { p = p->a[0]; v = !v; }
      if (p->op == Op::BAnd && v) { learn(p->a[0], v); learn(p->a[1], v); return; }
      if (p->op == Op::BOr && !v) { learn(p->a[0], v); learn(p->a[1], v); return; }
      if ((p->op != Op::RLt && p->op != Op::REq) || hasIte(p)) return;
      T r = cmp(p);
      if (r != TM.tt && r != TM.ff) lits[r] = v;
    }
    T cmpK(T t) {
      T r = cmp(t);
      if (r == TM.tt || r == TM.ff) return r;
      if (pcs) { auto* l = pcs; pcs = nullptr; bool u = used; for (T p : *l) learn(p, true); used = u; }
      if (lits.empty()) return r;
      auto it = lits.find(r);
      if (it != lits.end()) return it->second ? TM.tt : TM.ff;
      if (r->op == Op::REq || r->op == Op::RLt) {
        T x = r->a[0] == TM.rzero ? r->a[1] : r->a[1] == TM.rzero ? r->a[0] : nullptr;
        if (!x) return r;
        auto has = [&](T q) { auto i = lits.find(q); return i == lits.end() ? 0 : i->second ? 1 : -1; };
        int pos = has(TM.rlt(TM.rzero, x)), neg = has(TM.rlt(x, TM.rzero)), zero = has(TM.req(x, TM.rzero));
        if (r->op == Op::REq) { if (pos == 1 || neg == 1) return TM.ff; if (pos == -1 && neg == -1) return TM.tt; }
        else {
          bool up = r->a[0] == TM.rzero; int oth = up ? neg : pos;
          if (zero == 1 || oth == 1) return TM.ff;
          if (zero == -1 && oth == -1) return TM.tt;
        }
      }
      return r;
    }
    // branches that are equal as rational functions become the same term
    T leaf(T x) {
      if (x->hasSpecial || hasIte(x) || (x->op != Op::RAdd && x->op != Op::RMul && x->op != Op::RDiv && x->op != Op::RSqrt)) return x;
      auto it = S.leafRep.find(x); if (it != S.leafRep.end()) { if (it->second != x) used = true; return it->second; }
      size_t lim = pm.limit; pm.limit = 3000;
      T r = x;
      try {
        const Frac& f = pm.of(x);
        if (f.n.empty()) r = TM.rzero;
        else {
          bool found = false;
          for (T y : S.leaves) if (pm.sameFrac(pm.of(y), pm.of(x))) { r = y; found = true; break; }
          if (!found) S.leaves.push_back(x);
        }
        if (r != x) used = true;
      } catch (PolyLimit&) {}
      pm.limit = lim;
      S.leafRep[x] = r;
      return r;
    }
    T go(T t) {
      auto it = memo.find(t); if (it != memo.end()) return it->second;
      if (t->a.empty()) return t;
      T r;
      if ((t->op == Op::RLt || t->op == Op::REq) && !hasIte(t)) r = cmpK(t);
      else if (t->op == Op::RIte) {
        T c0 = go(t->a[0]);
        if (c0 == TM.tt) r = go(t->a[1]);
        else if (c0 == TM.ff) r = go(t->a[2]);
        else {
          T x = leaf(go(t->a[1])), y = leaf(go(t->a[2]));
          r = nullptr;
          if (c0->op == Op::RLt && c0->a[0] == TM.rzero && !hasIte(x) && !hasIte(y)) { // min/max: one orientation
            size_t lim = pm.limit; pm.limit = 3000;
            try {
              T d = TM.rsub(x, y);
              if (!d->hasSpecial) {
                Frac f = pm.of(d);
                std::string k1, k2; bool fl; Poly n;
                if (!f.n.empty()) {
                  shape(f, k1, fl, n);
                  auto kt = S.canonRep.find(k1);
                  if (kt != S.canonRep.end() && kt->second == c0->a[1]) r = TM.ite(TM.rlt(c0->a[1], TM.rzero), y, x);
                }
              }
            } catch (PolyLimit&) {}
            pm.limit = lim;
          }
          if (!r) r = TM.ite(c0, x, y);
        }
      } else {
        std::vector<T> n; bool ch = false;
        for (T x : t->a) { T y = go(x); n.push_back(y); ch |= y != x; }
        if (!ch) r = t;
        else if (t->op == Op::BIte || t->op == Op::VIte) r = TM.ite(n[0], n[1], n[2]);
        else { Subst s; r = s.rebuild(t, n); }
        if (ch && (r->op == Op::RLt || r->op == Op::REq) && !hasIte(r)) r = cmpK(r);
        else if ((r->op == Op::RLt || r->op == Op::REq) && liftDepth < 4) { // a comparison that comes out the same on both sides of a choice
          int k = r->a[0]->op == Op::RIte ? 0 : r->a[1]->op == Op::RIte ? 1 : -1;
          if (k >= 0) {
            ++liftDepth;
            T c0 = r->a[k]->a[0], z = r->a[1 - k], x = r->a[k]->a[1], y = r->a[k]->a[2];
            auto mk = [&](T v) { return r->op == Op::REq ? TM.req(v, z) : k == 0 ? TM.rlt(v, z) : TM.rlt(z, v); };
            T p = go(mk(x)), q = go(mk(y));
            if (p == q) r = p;
            else if (p == TM.tt && q == TM.ff) r = c0;
            else if (p == TM.ff && q == TM.tt) r = TM.bnot(c0);
            --liftDepth;
          }
        }
      }
      memo[t] = r;
      return r;
    }
  };
  std::map<std::string, T> canonRep;
  std::unordered_map<T, T> leafRep; std::vector<T> leaves;
  // proves pc => goal; returns Valid / Cex (A filled) / Unknown
  Res prove(std::vector<T> pc, T goal, Assign& A, Clock& ck, int depth, bool z3first) {
    if (goal == TM.tt) return Res::Valid;
    for (T p : pc) if (p == TM.ff) return Res::Valid;
    if (ck.s() > decideBudget) return Res::Unknown;
    if (goal->op == Op::BAnd) {
      Res r1 = prove(pc, goal->a[0], A, ck, depth, z3first);
      if (r1 == Res::Cex) return r1;
      Assign B;
      Res r2 = prove(pc, goal->a[1], B, ck, depth, z3first);
      if (r2 == Res::Cex) { A = B; return r2; }
      return r1 == Res::Unknown ? r1 : r2;
    }
    if (goal->op == Op::REq && polyEq(pc, goal->a[0], goal->a[1])) return Res::Valid;
    std::vector<T> q = pc;
    q.push_back(TM.bnot(goal));
    if (linUnsat(q, depth == 0 ? 2000 : 300)) return Res::Valid;
    // cheap model search
    {
      Assign G;
      if (guess(q, G, depth == 0 ? 400 : 60)) {
        std::vector<std::pair<T, double>> fix;
        for (auto& p : G.r) fix.push_back(p);
        std::vector<T> q2 = q;
        for (auto& p : G.v) q2.push_back(p.first->w == 1 ? (p.second ? p.first : TM.bnot(p.first)) : TM.veq(p.first, TM.vconst(p.second, p.first->w)));
        if (check(q2, qTimeout, nullptr, true, &fix) == z3::sat) { A = G; return Res::Cex; }
      }
    }
    if (findCond({goal})) {
      try {
        Canon cn(*this, pc);
        T g2 = cn.go(goal);
        if (getenv("VP_DBG")) fprintf(stderr, "canon depth %d t=%.1f changed %d goal %s\n cond %s\n last %s\n", depth, ck.s(), g2 != goal, show(getenv("VP_DBG")[0]==(char)50 ? goal : g2, getenv("VP_DBG")[0]==(char)50 ? 60 : 12).c_str(), findCond({g2}) ? show(findCond({g2}), 12).c_str() : "-", pc.empty() ? "" : show(pc.back(), 12).c_str());
        if (g2 != goal && cn.used) {
          nonzeroUsed = true;
          goal = g2;
          if (goal == TM.tt) return Res::Valid;
          if (goal->op == Op::REq && polyEq(pc, goal->a[0], goal->a[1])) return Res::Valid;
          q.back() = TM.bnot(goal);
        }
      } catch (PolyLimit&) {}
    }
    T cnd = findCond({goal});
    if (!cnd) cnd = findCond(pc);
    unsigned to = cnd ? std::min(qTimeout, depth == 0 ? 300u : 150u) : qTimeout;
    if (!cnd && depth > 0 && absUnsat(q, 500)) return Res::Valid;
    if (depth == 0 || !cnd || depth % 4 == 0) {
      Res r = z3q(q, to, A);
      if (r != Res::Unknown) return r;
    }
    if (cnd && depth < 60) {
      bool unk = false;
      for (int v = 1; v >= 0; --v) {
        Subst s; s.fact(cnd, v);
        std::vector<T> p2;
        bool dead = false;
        T lit = v ? cnd : TM.bnot(cnd);
        for (T p : pc) { T n = s.app(p); if (n == TM.ff) { dead = true; break; } if (n != TM.tt) p2.push_back(n); }
        if (dead) continue;
        p2.push_back(lit);
        T g2 = s.app(goal);
        if (g2 == TM.tt) continue;
        if (linUnsat(p2, 200) || absUnsat(p2, 200) || check(p2, 300, nullptr) == z3::unsat) continue;
        st.splitLeaves++;
        Res r = prove(p2, g2, A, ck, depth + 1, false);
        if (r == Res::Cex) return r;
        if (r == Res::Unknown) unk = true;
      }
      return unk ? Res::Unknown : Res::Valid;
    }
    return Res::Unknown;
  }
  Res z3q(const std::vector<T>& q, unsigned to, Assign& A) {
    Assign M;
    z3::check_result r = check(q, to, &M);
    if (r == z3::unsat) return Res::Valid;
    if (r == z3::sat) {
      // a model may exploit division by zero; insist on IEEE-realistic evaluation
      if (holdsApprox(q, M)) { A = M; return Res::Cex; }
      Assign M2;
      z3::check_result r2 = check(q, to, &M2, true);
      if (r2 == z3::unsat) { nonzeroUsed = true; return Res::Valid; }
      if (r2 == z3::sat) { A = M2; return Res::Cex; }
    }
    return Res::Unknown;
  }
  // all but the last hold, and last is violated clearly
  bool holdsApprox(const std::vector<T>& q, const Assign& M) { return holds(q, M); }

  Res decide(const std::vector<T>& pc, T goal, Assign& A) {
    Clock ck;
    nonzeroUsed = false;
    if (goal == TM.tt) { st.folded++; return Res::Valid; }
    Res r = prove(pc, goal, A, ck, 0, true);
    if (nonzeroUsed && r == Res::Valid) st.nonzeroAssumed++;
    return r;
  }
};
