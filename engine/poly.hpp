// Canonical rational functions over term atoms; squares of square roots are reduced.
#pragma once
#include "term.hpp"
#include <complex>
#include <stdexcept>

struct PolyLimit : std::runtime_error { PolyLimit() : std::runtime_error("poly limit") {} };

using Mono = std::vector<std::pair<uint32_t, uint32_t>>;
using Poly = std::map<Mono, mpq_class>;

struct Frac { Poly n; std::map<uint32_t, uint32_t> d; };

class PolyMgr {
public:
  size_t limit = 60000;
  std::vector<T> atomTerm;              // representative term of an atom
  std::map<T, uint32_t> atomOf;
  std::map<std::string, uint32_t> atomKey;
  std::vector<int> sqrtOf;              // index into sqrtFrac or -1
  std::vector<Frac> sqrtFrac;
  std::map<Poly, uint32_t> denId;
  std::vector<Poly> dens;
  std::unordered_map<T, Frac> memo;

  static Poly constP(const mpq_class& c) { Poly p; if (c != 0) p[Mono{}] = c; return p; }
  Poly atomP(uint32_t a) { Poly p; p[Mono{{a, 1}}] = 1; return p; }
  static Mono mmul(const Mono& a, const Mono& b) {
    Mono r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
    }
    return r;
  }
  Poly mul(const Poly& a, const Poly& b) {
    Poly r;
    if (a.size() * b.size() > 40 * limit) throw PolyLimit();
    for (auto& x : a) for (auto& y : b) {
      Mono m = mmul(x.first, y.first);
      auto it = r.emplace(std::move(m), 0).first;
      it->second += x.second * y.second;
      if (it->second == 0) r.erase(it);
    }
    if (r.size() > limit) throw PolyLimit();
    return r;
  }
  static void addTo(Poly& a, const Poly& b, const mpq_class& c = 1) {
    for (auto& y : b) {
      auto it = a.emplace(y.first, 0).first;
      it->second += y.second * c;
      if (it->second == 0) a.erase(it);
    }
  }
  Poly powP(const Poly& p, unsigned e) { Poly r = constP(1); while (e--) r = mul(r, p); return r; }
  bool isConst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
  // add factor p^e to denominators of f (p non-zero polynomial)
  void addDen(Frac& f, Poly p, uint32_t e) {
    if (p.empty()) throw PolyLimit();
    if (e == 0) return;
    // constant
    mpq_class lead = p.rbegin()->second;
    if (lead != 1) {
      for (auto& x : p) x.second /= lead;
      mpq_class inv = 1 / lead, k = 1;
      for (uint32_t i = 0; i < e; ++i) k *= inv;
      for (auto& x : f.n) x.second *= k;
    }
    if (isConst(p)) return;
    // common monomial factor
    Mono g = p.begin()->first;
    for (auto& x : p) {
      Mono h;
      for (auto& q : g) for (auto& r : x.first) if (q.first == r.first) h.push_back({q.first, std::min(q.second, r.second)});
      g = h;
      if (g.empty()) break;
    }
    if (!g.empty()) {
      Poly p2;
      for (auto& x : p) {
        Mono m;
        for (auto& r : x.first) {
          uint32_t ex = r.second;
          for (auto& q : g) if (q.first == r.first) ex -= q.second;
          if (ex) m.push_back({r.first, ex});
        }
        p2[m] = x.second;
      }
      p = p2;
      for (auto& q : g) f.d[getDen(atomP(q.first))] += q.second * e;
    }
    if (!isConst(p)) f.d[getDen(p)] += e;
  }
  uint32_t getDen(const Poly& p) {
    auto it = denId.find(p);
    if (it != denId.end()) return it->second;
    uint32_t id = dens.size();
    dens.push_back(p);
    denId[p] = id;
    return id;
  }
  // cancel numerator monomial content with single-atom denominators
  void cancel(Frac& f) {
    if (f.n.empty()) { f.d.clear(); return; }
    for (auto it = f.d.begin(); it != f.d.end();) {
      const Poly& p = dens[it->first];
      bool erased = false;
      if (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->first[0].second == 1) {
        uint32_t a = p.begin()->first[0].first, mn = it->second;
        for (auto& x : f.n) {
          uint32_t e = 0;
          for (auto& q : x.first) if (q.first == a) e = q.second;
          mn = std::min(mn, e);
          if (!mn) break;
        }
        if (mn) {
          Poly r;
          for (auto& x : f.n) {
            Mono m;
            for (auto& q : x.first) { uint32_t e = q.second - (q.first == a ? mn : 0); if (e) m.push_back({q.first, e}); }
            r[m] = x.second;
          }
          f.n = r;
          it->second -= mn;
          if (it->second == 0) { it = f.d.erase(it); erased = true; }
        }
      } else if (f.n.size() == p.size()) {
        // exact multiple?
        mpq_class c = f.n.rbegin()->second / p.rbegin()->second;
        bool same = true;
        auto i = f.n.begin(); auto j = p.begin();
        for (; i != f.n.end(); ++i, ++j) if (i->first != j->first || i->second != c * j->second) { same = false; break; }
        if (same) {
          f.n = constP(c);
          if (--it->second == 0) { it = f.d.erase(it); erased = true; }
        }
      }
      if (!erased) ++it;
    }
  }
  Frac fadd(const Frac& a, const Frac& b) {
    if (a.n.empty()) return b;
    if (b.n.empty()) return a;
    Frac r;
    Poly an = a.n, bn = b.n;
    r.d = a.d;
    for (auto& x : b.d) r.d[x.first] = std::max(r.d[x.first], x.second);
    for (auto& x : r.d) {
      uint32_t ea = 0, eb = 0;
      auto i = a.d.find(x.first); if (i != a.d.end()) ea = i->second;
      auto j = b.d.find(x.first); if (j != b.d.end()) eb = j->second;
      if (x.second > ea) an = mul(an, powP(dens[x.first], x.second - ea));
      if (x.second > eb) bn = mul(bn, powP(dens[x.first], x.second - eb));
    }
    addTo(an, bn);
    r.n = std::move(an);
    return reduce(std::move(r));
  }
  Frac fmul(const Frac& a, const Frac& b) {
    Frac x = a, y = b;
    auto tryCancel = [&](Frac& p, Frac& q) { // cancel p.n against q.d
      if (p.n.empty() || isConst(p.n)) return;
      mpq_class lead = p.n.rbegin()->second;
      Poly m = p.n;
      if (lead != 1) for (auto& z : m) z.second /= lead;
      auto it = denId.find(m);
      if (it == denId.end()) return;
      auto jt = q.d.find(it->second);
      if (jt == q.d.end()) return;
      p.n = constP(lead);
      if (--jt->second == 0) q.d.erase(jt);
    };
    tryCancel(x, y);
    tryCancel(y, x);
    Frac r;
    r.n = mul(x.n, y.n);
    r.d = x.d;
    for (auto& z : y.d) r.d[z.first] += z.second;
    return reduce(std::move(r));
  }
  Frac reduce(Frac f) {
    for (int guard = 0; guard < 200; ++guard) {
      // find a sqrt atom with exponent >= 2
      uint32_t at = 0; bool found = false;
      for (auto& x : f.n) { for (auto& q : x.first) if (q.second >= 2 && sqrtOf[q.first] >= 0) { at = q.first; found = true; break; } if (found) break; }
      if (!found) break;
      Frac sq = sqrtFrac[sqrtOf[at]];
      // group by exponent of at
      std::map<uint32_t, Poly> byk;
      for (auto& x : f.n) {
        uint32_t e = 0; Mono m;
        for (auto& q : x.first) if (q.first == at) e = q.second; else m.push_back(q);
        if (e & 1) { Mono m2 = mmul(m, Mono{{at, 1}}); byk[e / 2][m2] += x.second; }
        else byk[e / 2][m] += x.second;
      }
      uint32_t K = byk.rbegin()->first;
      // sum_k P_k (N/D)^k = sum_k P_k N^k D^(K-k) / D^K
      Poly D = constP(1);
      for (auto& z : sq.d) D = mul(D, powP(dens[z.first], z.second));
      Poly n;
      for (auto& kv : byk) {
        Poly t = kv.second;
        for (auto i = t.begin(); i != t.end();) if (i->second == 0) i = t.erase(i); else ++i;
        if (t.empty()) continue;
        t = mul(t, powP(sq.n, kv.first));
        t = mul(t, powP(D, K - kv.first));
        addTo(n, t);
      }
      f.n = std::move(n);
      for (auto& z : sq.d) f.d[z.first] += z.second * K;
    }
    cancel(f);
    return f;
  }
  std::string key(const Frac& f) {
    std::string s;
    auto pp = [&](const Poly& p) { for (auto& x : p) { s += x.second.get_str() + "*"; for (auto& q : x.first) s += std::to_string(q.first) + "^" + std::to_string(q.second) + "."; s += "+"; } };
    pp(f.n); s += "/";
    for (auto& z : f.d) s += std::to_string(z.first) + "^" + std::to_string(z.second) + ",";
    return s;
  }
  // value at a fixed generic point: a filter before two fractions are compared exactly
  std::map<uint32_t, std::complex<double>> numAtom;
  std::complex<double> evalAtom(uint32_t a) {
    auto it = numAtom.find(a);
    if (it != numAtom.end()) return it->second;
    std::complex<double> v;
    if (sqrtOf[a] >= 0) v = std::sqrt(evalFrac(sqrtFrac[sqrtOf[a]]));
    else { uint64_t h = (a + 1) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; v = 0.5 + (double)(h >> 11) / (double)(1ull << 53); }
    numAtom[a] = v;
    return v;
  }
  std::complex<double> evalPoly(const Poly& p) {
    std::complex<double> s = 0;
    for (auto& x : p) { std::complex<double> m = x.second.get_d(); for (auto& q : x.first) { auto v = evalAtom(q.first); for (uint32_t i = 0; i < q.second; ++i) m *= v; } s += m; }
    return s;
  }
  std::complex<double> evalFrac(const Frac& f) {
    std::complex<double> s = evalPoly(f.n);
    for (auto& z : f.d) { auto v = evalPoly(dens[z.first]); for (uint32_t i = 0; i < z.second; ++i) s /= v; }
    return s;
  }
  bool sameFrac(const Frac& a, const Frac& b) {
    auto x = evalFrac(a), y = evalFrac(b);
    if (!(std::abs(x - y) <= 1e-8 * (std::abs(x) + std::abs(y)))) return false;
    size_t lim = limit; limit = std::min<size_t>(limit, 6000);
    bool r = false;
    try { Frac m; m.n = constP(-1); r = fadd(a, fmul(b, m)).n.empty(); } catch (PolyLimit&) {}
    limit = lim;
    return r;
  }
  uint32_t newAtom(T t) { uint32_t i = atomTerm.size(); atomTerm.push_back(t); sqrtOf.push_back(-1); return i; }
  uint32_t sameSqrt(const Frac& f) {
    for (uint32_t i = 0; i < sqrtOf.size(); ++i) if (sqrtOf[i] >= 0 && sameFrac(sqrtFrac[sqrtOf[i]], f)) return i;
    return ~0u;
  }
  struct UfAtom { std::string name; std::vector<Frac> args; uint32_t at; };
  std::vector<UfAtom> ufs;
  uint32_t atom(T t) {
    auto it = atomOf.find(t);
    if (it != atomOf.end()) return it->second;
    uint32_t r;
    if (t->op == Op::RSqrt) {
      Frac f = of(t->a[0]);
      std::string k = "sqrt:" + key(f);
      auto jt = atomKey.find(k);
      if (jt != atomKey.end()) r = jt->second;
      else if ((r = sameSqrt(f)) != ~0u) atomKey[k] = r;
      else { r = newAtom(t); sqrtOf[r] = sqrtFrac.size(); sqrtFrac.push_back(f); atomKey[k] = r; }
    } else if (t->op == Op::RUF) {
      std::string k = "uf:" + t->name;
      for (T x : t->a) k += "|" + key(of(x));
      auto jt = atomKey.find(k);
      if (jt != atomKey.end()) r = jt->second;
      else {
        std::vector<Frac> fs; for (T x : t->a) fs.push_back(of(x));
        r = ~0u;
        for (auto& u : ufs) { // equal arguments as rational functions
          if (u.name != t->name || u.args.size() != fs.size()) continue;
          bool eq = true; for (size_t i = 0; eq && i < fs.size(); ++i) eq = sameFrac(u.args[i], fs[i]);
          if (eq) { r = u.at; break; }
        }
        if (r == ~0u) { r = newAtom(t); ufs.push_back({t->name, fs, r}); }
        atomKey[k] = r;
      }
    } else r = newAtom(t);
    atomOf[t] = r;
    return r;
  }
  const Frac& of(T t) {
    auto it = memo.find(t);
    if (it != memo.end()) return it->second;
    Frac f;
    switch (t->op) {
    case Op::RConst: f.n = constP(*t->q); break;
    case Op::RAdd: { Frac a = of(t->a[0]); f = fadd(a, of(t->a[1])); break; }
    case Op::RMul: { Frac a = of(t->a[0]); f = fmul(a, of(t->a[1])); break; }
    case Op::RDiv: {
      Frac a = of(t->a[0]);
      Frac b = of(t->a[1]);
      if (b.n.empty()) throw PolyLimit();
      // 1/b = prod(b.d) / b.n
      Frac inv; inv.n = constP(1);
      for (auto& z : b.d) inv.n = mul(inv.n, powP(dens[z.first], z.second));
      Frac i2; i2.n = constP(1);
      addDen(i2, b.n, 1);
      // cancel a's denominators equal to b's denominators before expansion
      Frac tmp; tmp.n = a.n; tmp.d = a.d;
      Poly extra = constP(1);
      for (auto& z : b.d) {
        auto jt = tmp.d.find(z.first);
        uint32_t c = jt == tmp.d.end() ? 0 : std::min(jt->second, z.second);
        if (c) { jt->second -= c; if (!jt->second) tmp.d.erase(jt); }
        if (z.second > c) extra = mul(extra, powP(dens[z.first], z.second - c));
      }
      Frac e; e.n = extra;
      f = fmul(fmul(tmp, i2), e);
      break;
    }
    case Op::RSpecial: throw PolyLimit();
    default: { uint32_t a = atom(t); f.n = atomP(a); }
    }
    return memo.emplace(t, std::move(f)).first->second;
  }
  T polyTerm(const Poly& p) {
    T s = TM.rzero;
    for (auto& x : p) {
      T m = TM.real(x.second);
      for (auto& q : x.first) for (uint32_t i = 0; i < q.second; ++i) m = TM.rmul(m, atomTerm[q.first]);
      s = TM.radd(s, m);
    }
    return s;
  }
};
