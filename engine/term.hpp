// Hash-consed term language used by the symbolic executor.
// Sorts: real (w==0), bool (w==1), bit-vectors (w>=2, at most 64 bits).
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum class Op : uint8_t {
  RConst, RSpecial, RVar, RAdd, RMul, RDiv, RIte, RSqrt, RUF, RFloor, RFromBV,
  BConst, BVar, BNot, BAnd, BOr, BXor, BIte, RLt, REq, VUlt, VSlt, VEq,
  VConst, VVar, VAdd, VMul, VUDiv, VSDiv, VURem, VSRem, VShl, VLShr, VAShr, VAnd, VOr, VXor,
  VIte, VConcat, VExtract, VZext, VSext, BExtr
};

struct TermNode;
using T = const TermNode*;

struct TermNode {
  Op op;
  uint8_t w = 0;       // 0 real, 1 bool, else bv width
  bool hasSpecial = false;
  uint32_t id = 0;
  uint64_t u = 0;      // constant / extract low bit / special kind (0 inf, 1 -inf, 2 nan)
  std::vector<T> a;
  std::unique_ptr<mpq_class> q;
  std::string name;
  size_t h = 0;
  double dbl = 0; // double value for RConst
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ m) - m);
}

class TermMgr {
public:
  struct Hash { size_t operator()(T t) const { return t->h; } };
  struct Eq {
    bool operator()(T x, T y) const {
      if (x->op != y->op || x->w != y->w || x->u != y->u || x->a != y->a || x->name != y->name) return false;
      if (x->q || y->q) return x->q && y->q && *x->q == *y->q;
      return true;
    }
  };
  std::unordered_set<T, Hash, Eq> tab;
  std::deque<std::unique_ptr<TermNode>> store;

  T intern(std::unique_ptr<TermNode> n) {
    size_t h = (size_t)n->op * 1315423911u ^ (n->w * 2654435761u) ^ (size_t)(n->u * 0x9E3779B97F4A7C15ull);
    for (T x : n->a) h = h * 1000003u ^ (x->id * 0x9E3779B9u);
    if (!n->name.empty()) h ^= std::hash<std::string>()(n->name);
    if (n->q) {
      h ^= mpz_get_ui(n->q->get_num_mpz_t()) * 31 + mpz_get_ui(n->q->get_den_mpz_t()) * 17 + (mpz_sgn(n->q->get_num_mpz_t()) + 3);
    }
    n->h = h;
    auto it = tab.find(n.get());
    if (it != tab.end()) return *it;
    n->id = store.size();
    for (T x : n->a) if (x->w == 0 && x->hasSpecial && n->w == 0) n->hasSpecial = true;
    if (n->op == Op::RSpecial) n->hasSpecial = true;
    T p = n.get();
    store.push_back(std::move(n));
    tab.insert(p);
    return p;
  }
  T node(Op op, uint8_t w, std::vector<T> a, uint64_t u = 0, const std::string& name = "") {
    auto n = std::make_unique<TermNode>();
    n->op = op; n->w = w; n->a = std::move(a); n->u = u; n->name = name;
    return intern(std::move(n));
  }
  // ---- bool
  T tt, ff;
  T rzero, rone, rmone, pinf, minf, nan_;
  TermMgr() {
    tt = node(Op::BConst, 1, {}, 1);
    ff = node(Op::BConst, 1, {}, 0);
    rzero = real(mpq_class(0));
    rone = real(mpq_class(1));
    rmone = real(mpq_class(-1));
    pinf = node(Op::RSpecial, 0, {}, 0);
    minf = node(Op::RSpecial, 0, {}, 1);
    nan_ = node(Op::RSpecial, 0, {}, 2);
  }
  T boolc(bool b) { return b ? tt : ff; }
  T real(const mpq_class& v) {
    auto n = std::make_unique<TermNode>();
    n->op = Op::RConst; n->w = 0; n->q = std::make_unique<mpq_class>(v);
    n->q->canonicalize();
    n->dbl = n->q->get_d();
    return intern(std::move(n));
  }
  T reald(double d) {
    if (std::isnan(d)) return nan_;
    if (std::isinf(d)) return d > 0 ? pinf : minf;
    return real(mpq_class(d));
  }
  T rvar(const std::string& n) { return node(Op::RVar, 0, {}, 0, n); }
  T bvar(const std::string& n) { return node(Op::BVar, 1, {}, 0, n); }
  T vvar(const std::string& n, unsigned w) { return node(Op::VVar, w, {}, 0, n); }
  T vconst(uint64_t v, unsigned w) { if (w == 1) return boolc(v & 1); return node(Op::VConst, w, {}, v & maskw(w)); }

  static bool isC(T t) { return t->op == Op::RConst || t->op == Op::VConst || t->op == Op::BConst; }
  static bool isRC(T t) { return t->op == Op::RConst; }
  static bool isSp(T t) { return t->op == Op::RSpecial; }

  T bnot(T x) {
    if (x == tt) return ff;
    if (x == ff) return tt;
    if (x->op == Op::BNot) return x->a[0];
    return node(Op::BNot, 1, {x});
  }
  // does the conjunction c contain t? (bounded search)
  bool conjHas(T c, T t, int depth = 6) {
    if (c == t) return true;
    if (c->op != Op::BAnd || !depth) return false;
    return conjHas(c->a[0], t, depth - 1) || conjHas(c->a[1], t, depth - 1);
  }
  T band(T x, T y) {
    if (x == ff || y == ff) return ff;
    if (x == tt) return y;
    if (y == tt) return x;
    if (x == y) return x;
    if (x == bnot(y)) return ff;
    // absorption with nested and
    if (x->op == Op::BAnd) { if (conjHas(x, y)) return x; if (conjHas(x, bnot(y))) return ff; }
    if (y->op == Op::BAnd) { if (conjHas(y, x)) return y; if (conjHas(y, bnot(x))) return ff; }
    for (int k = 0; k < 2; ++k) { // p && !(p && q) = p && !q
      T p = k ? y : x, n = k ? x : y;
      if (n->op == Op::BNot && n->a[0]->op == Op::BAnd) {
        T q = n->a[0];
        if (conjHas(p, q->a[0])) return band(p, bnot(q->a[1]));
        if (conjHas(p, q->a[1])) return band(p, bnot(q->a[0]));
        if (conjHas(p, bnot(q->a[0])) || conjHas(p, bnot(q->a[1]))) return p;
      }
    }
    if (x->id > y->id) std::swap(x, y);
    return node(Op::BAnd, 1, {x, y});
  }
  T bor(T x, T y) {
    return bnot(band(bnot(x), bnot(y)));
  }
  T bxor(T x, T y) {
    if (x == y) return ff;
    if (x == tt) return bnot(y);
    if (y == tt) return bnot(x);
    if (x == ff) return y;
    if (y == ff) return x;
    if (x == bnot(y)) return tt;
    if (x->id > y->id) std::swap(x, y);
    return node(Op::BXor, 1, {x, y});
  }
  T biff(T x, T y) { return bnot(bxor(x, y)); }
  T bimp(T x, T y) { return bnot(band(x, bnot(y))); }
  // generic ite
  T ite(T c, T x, T y) {
    assert(x->w == y->w);
    if (c == tt) return x;
    if (c == ff) return y;
    if (x == y) return x;
    if (c->op == Op::BNot) return ite(c->a[0], y, x);
    if (x->w == 1) {
      if (x == tt) return bor(c, y);
      if (x == ff) return band(bnot(c), y);
      if (y == tt) return bor(bnot(c), x);
      if (y == ff) return band(c, x);
      return node(Op::BIte, 1, {c, x, y});
    }
    Op o = x->w == 0 ? Op::RIte : Op::VIte;
    T nc = bnot(c);
    for (int k = 0; k < 4 && x->op == o; ++k) {
      if (conjHas(c, x->a[0])) x = x->a[1];
      else if (conjHas(c, bnot(x->a[0])) || conjHas(x->a[0], nc)) x = x->a[2];
      else break;
    }
    for (int k = 0; k < 4 && y->op == o; ++k) {
      if (conjHas(nc, y->a[0])) y = y->a[1];
      else if (conjHas(nc, bnot(y->a[0])) || conjHas(y->a[0], c)) y = y->a[2];
      else break;
    }
    if (x == y) return x;
    return node(o, x->w, {c, x, y});
  }
  // ---- reals
  // push an operation through ite arguments that may be special
  template <class F> bool pushSpecial(T x, T y, F f, T& out) {
    if (x->hasSpecial && x->op == Op::RIte) { out = ite(x->a[0], f(x->a[1], y), f(x->a[2], y)); return true; }
    if (y->hasSpecial && y->op == Op::RIte) { out = ite(y->a[0], f(x, y->a[1]), f(x, y->a[2])); return true; }
    return false;
  }
  T radd(T x, T y) {
    if (isRC(x) && isRC(y)) return real(*x->q + *y->q);
    if (x == rzero) return y;
    if (y == rzero) return x;
    if (x->hasSpecial || y->hasSpecial) {
      T o; if (pushSpecial(x, y, [&](T p, T q) { return radd(p, q); }, o)) return o;
      if (isSp(x) && isSp(y)) { if (x == nan_ || y == nan_) return nan_; return x == y ? x : nan_; }
      if (isSp(x)) return x;
      if (isSp(y)) return y;
    }
    if (x == rneg(y)) return rzero;
    if (x->id > y->id) std::swap(x, y);
    return node(Op::RAdd, 0, {x, y});
  }
  std::unordered_map<T, T> negMemo;
  T rneg(T x) {
    auto it = negMemo.find(x);
    if (it != negMemo.end()) return it->second;
    T r = rmul(rmone, x);
    negMemo[x] = r;
    negMemo.emplace(r, x);
    return r;
  }
  T rsub(T x, T y) {
    if (x == y && !x->hasSpecial) return rzero;
    return radd(x, rneg(y));
  }
  T rmul(T x, T y) {
    if (isRC(x) && isRC(y)) return real(*x->q * *y->q);
    if (x->hasSpecial || y->hasSpecial) {
      T o; if (pushSpecial(x, y, [&](T p, T q) { return rmul(p, q); }, o)) return o;
      if (isSp(x) && isSp(y)) {
        if (x == nan_ || y == nan_) return nan_;
        return x == y ? pinf : minf;
      }
      if (isSp(y)) std::swap(x, y);
      if (isSp(x)) {
        if (x == nan_) return nan_;
        T neg = x == pinf ? minf : pinf;
        return ite(rlt(rzero, y), x, ite(rlt(y, rzero), neg, nan_));
      }
    }
    if (x == rzero || y == rzero) return rzero;
    if (x == rone) return y;
    if (y == rone) return x;
    if (isRC(y)) std::swap(x, y);
    if (isRC(x) && y->op == Op::RMul && isRC(y->a[0])) return rmul(real(*x->q * *y->a[0]->q), y->a[1]);
    // -(a+b) -> -a + -b : keep the sign inside so that a-b and -(b-a) meet
    if (x == rmone && y->op == Op::RAdd) return radd(rneg(y->a[0]), rneg(y->a[1]));
    if (x == rmone && y->op == Op::RIte) return ite(y->a[0], rneg(y->a[1]), rneg(y->a[2]));
    if (!isRC(x) && x->op == Op::RMul && isRC(x->a[0])) return rmul(x->a[0], rmul(x->a[1], y));
    if (!isRC(x) && y->op == Op::RMul && isRC(y->a[0])) return rmul(y->a[0], rmul(x, y->a[1]));
    if (!isRC(x) && x->id > y->id) std::swap(x, y);
    return node(Op::RMul, 0, {x, y});
  }
  T rdiv(T x, T y) {
    if (isRC(y) && *y->q != 0) {
      if (isRC(x)) return real(*x->q / *y->q);
      return rmul(real(1 / *y->q), x);
    }
    if (x->hasSpecial || y->hasSpecial) {
      T o; if (pushSpecial(x, y, [&](T p, T q) { return rdiv(p, q); }, o)) return o;
      if (isSp(x) && isSp(y)) return nan_;
      if (isSp(y)) return y == nan_ ? nan_ : rzero;
      if (isSp(x)) {
        if (x == nan_) return nan_;
        T neg = x == pinf ? minf : pinf;
        return ite(rlt(y, rzero), neg, x); // inf/0 = inf (positive zero)
      }
    }
    if (y == rzero) {
      if (x == rzero) return nan_;
      return ite(rlt(rzero, x), pinf, ite(rlt(x, rzero), minf, nan_));
    }
    if (x == rzero) return rzero; // 0/y, y treated as non-zero
    if (x->op == Op::RMul && isRC(x->a[0])) return rmul(x->a[0], rdiv(x->a[1], y));
    if (y->op == Op::RMul && isRC(y->a[0])) return rmul(real(1 / *y->a[0]->q), rdiv(x, y->a[1]));
    return node(Op::RDiv, 0, {x, y});
  }
  T rsqrt(T x) {
    if (x->hasSpecial) {
      if (x->op == Op::RIte) return ite(x->a[0], rsqrt(x->a[1]), rsqrt(x->a[2]));
      if (x == pinf) return pinf;
      return nan_;
    }
    if (isRC(x)) {
      if (*x->q < 0) return nan_;
      mpz_class n = x->q->get_num(), d = x->q->get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t()))
        return real(mpq_class(sqrt(n), sqrt(d)));
    }
    return node(Op::RSqrt, 0, {x});
  }
  T rabs(T x) {
    if (isSp(x)) return x == nan_ ? nan_ : pinf;
    return ite(rlt(x, rzero), rneg(x), x);
  }
  T rfloor(T x) {
    if (isRC(x)) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), x->q->get_num_mpz_t(), x->q->get_den_mpz_t()); return real(mpq_class(r)); }
    if (isSp(x)) return x;
    if (x->op == Op::RIte) return ite(x->a[0], rfloor(x->a[1]), rfloor(x->a[2]));
    if (x->op == Op::RFromBV || x->op == Op::RFloor) return x;
    return node(Op::RFloor, 0, {x});
  }
  T rceil(T x) { return rneg(rfloor(rneg(x))); }
  T rtrunc(T x) { return ite(rlt(x, rzero), rceil(x), rfloor(x)); }
  T ruf(const std::string& f, std::vector<T> a) { return node(Op::RUF, 0, std::move(a), 0, f); }
  T rlt(T x, T y) {
    if (isRC(x) && isRC(y)) return boolc(*x->q < *y->q);
    if (x == y) return ff; // nan < nan false as well
    if (x->hasSpecial || y->hasSpecial) {
      T o; if (pushSpecial(x, y, [&](T p, T q) { return rlt(p, q); }, o)) return o;
      if (x == nan_ || y == nan_) return ff;
      if (isSp(x)) return boolc(x == minf && y != minf);
      if (isSp(y)) return boolc(y == pinf);
    }
    if (x->op == Op::RIte && isRC(x->a[1]) && isRC(x->a[2]) && isRC(y)) return ite(x->a[0], rlt(x->a[1], y), rlt(x->a[2], y));
    if (y->op == Op::RIte && isRC(y->a[1]) && isRC(y->a[2]) && isRC(x)) return ite(y->a[0], rlt(x, y->a[1]), rlt(x, y->a[2]));
    if (x->op == Op::RIte && isRC(y) && (isRC(x->a[1]) || isRC(x->a[2]))) return ite(x->a[0], rlt(x->a[1], y), rlt(x->a[2], y));
    if (y->op == Op::RIte && isRC(x) && (isRC(y->a[1]) || isRC(y->a[2]))) return ite(y->a[0], rlt(x, y->a[1]), rlt(x, y->a[2]));
    // c*x < 0 and 0 < c*x with constant c
    if (y == rzero && x->op == Op::RMul && isRC(x->a[0])) return *x->a[0]->q > 0 ? rlt(x->a[1], rzero) : rlt(rzero, x->a[1]);
    if (x == rzero && y->op == Op::RMul && isRC(y->a[0])) return *y->a[0]->q > 0 ? rlt(rzero, y->a[1]) : rlt(y->a[1], rzero);
    if (x->op == Op::RSqrt && y == rzero) return ff;
    return node(Op::RLt, 1, {x, y});
  }
  T rle(T x, T y) { // ordered <=
    if (x->hasSpecial || y->hasSpecial) {
      T o; if (pushSpecial(x, y, [&](T p, T q) { return rle(p, q); }, o)) return o;
      if (x == nan_ || y == nan_) return ff;
    }
    return bnot(rlt(y, x));
  }
  T req(T x, T y) { // ordered ==
    if (isRC(x) && isRC(y)) return boolc(*x->q == *y->q);
    if (x->hasSpecial || y->hasSpecial) {
      T o; if (pushSpecial(x, y, [&](T p, T q) { return req(p, q); }, o)) return o;
      if (x == nan_ || y == nan_) return ff;
      if (isSp(x) || isSp(y)) return boolc(x == y);
    }
    if (x == y) return tt;
    if (x->op == Op::RIte && isRC(x->a[1]) && isRC(x->a[2]) && isRC(y)) return ite(x->a[0], req(x->a[1], y), req(x->a[2], y));
    if (y->op == Op::RIte && isRC(y->a[1]) && isRC(y->a[2]) && isRC(x)) return ite(y->a[0], req(x, y->a[1]), req(x, y->a[2]));
    if (x->id > y->id) std::swap(x, y);
    return node(Op::REq, 1, {x, y});
  }
  T isnanT(T x) {
    if (!x->hasSpecial) return ff;
    if (x->op == Op::RIte) return ite(x->a[0], isnanT(x->a[1]), isnanT(x->a[2]));
    return boolc(x == nan_);
  }
  // ---- bit-vectors
  T vadd(T x, T y) {
    unsigned w = x->w;
    if (x->op == Op::VConst && y->op == Op::VConst) return vconst(x->u + y->u, w);
    if (x->op == Op::VConst) std::swap(x, y); // const on the right
    if (y->op == Op::VConst && y->u == 0) return x;
    if (y->op == Op::VConst && x->op == Op::VAdd && x->a[1]->op == Op::VConst) return vadd(x->a[0], vconst(x->a[1]->u + y->u, w));
    if (y->op == Op::VConst && x->op == Op::VIte && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst) return ite(x->a[0], vadd(x->a[1], y), vadd(x->a[2], y));
    if (y->op != Op::VConst && x->id > y->id) std::swap(x, y);
    return node(Op::VAdd, w, {x, y});
  }
  T vneg(T x) { return vmul(vconst(~0ull, x->w), x); }
  T vsub(T x, T y) {
    if (x == y) return vconst(0, x->w);
    if (y->op == Op::VConst) return vadd(x, vconst(-y->u, x->w));
    return vadd(x, vneg(y));
  }
  T vmul(T x, T y) {
    unsigned w = x->w;
    if (x->op == Op::VConst && y->op == Op::VConst) return vconst(x->u * y->u, w);
    if (y->op == Op::VConst) std::swap(x, y);
    if (x->op == Op::VConst) {
      if (x->u == 0) return x;
      if (x->u == 1) return y;
      if (y->op == Op::VMul && y->a[0]->op == Op::VConst) return vmul(vconst(x->u * y->a[0]->u, w), y->a[1]);
      if (y->op == Op::VAdd && y->a[1]->op == Op::VConst) return vadd(vmul(x, y->a[0]), vmul(x, y->a[1]));
    } else if (x->id > y->id) std::swap(x, y);
    return node(Op::VMul, w, {x, y});
  }
  T vbin(Op op, T x, T y) {
    unsigned w = x->w;
    if (op == Op::VAdd) return vadd(x, y);
    if (op == Op::VMul) return vmul(x, y);
    if (x->op == Op::VConst && y->op == Op::VConst) {
      uint64_t p = x->u, q = y->u; int64_t sp = sx(p, w), sq = sx(q, w);
      switch (op) {
      case Op::VUDiv: if (q) return vconst(p / q, w); break;
      case Op::VSDiv: if (q) return vconst((uint64_t)(sp / sq), w); break;
      case Op::VURem: if (q) return vconst(p % q, w); break;
      case Op::VSRem: if (q) return vconst((uint64_t)(sp % sq), w); break;
      case Op::VShl: return vconst(q >= w ? 0 : p << q, w);
      case Op::VLShr: return vconst(q >= w ? 0 : p >> q, w);
      case Op::VAShr: return vconst((uint64_t)(sp >> std::min<uint64_t>(q, w - 1)), w);
      case Op::VAnd: return vconst(p & q, w);
      case Op::VOr: return vconst(p | q, w);
      case Op::VXor: return vconst(p ^ q, w);
      default: break;
      }
    }
    if (op == Op::VAnd || op == Op::VOr || op == Op::VXor) {
      if (x->op == Op::VConst) std::swap(x, y);
      if (x == y) return op == Op::VXor ? vconst(0, w) : x;
      if (y->op == Op::VConst) {
        if (op == Op::VAnd) { if (y->u == 0) return y; if (y->u == maskw(w)) return x; }
        if (op == Op::VOr) { if (y->u == 0) return x; if (y->u == maskw(w)) return y; }
        if (op == Op::VXor && y->u == 0) return x;
        // byte-wise masks of zero-extended values
        if (op == Op::VAnd && x->op == Op::VZext && (y->u & maskw(x->a[0]->w)) == maskw(x->a[0]->w)) return x;
      }
      if (x->op == Op::VIte && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst && y->op == Op::VConst)
        return ite(x->a[0], vbin(op, x->a[1], y), vbin(op, x->a[2], y));
      // two boolean-valued bit-vectors
      if (isB01(x) && isB01(y)) {
        T bx = toB(x), by = toB(y);
        T r = op == Op::VAnd ? band(bx, by) : op == Op::VOr ? bor(bx, by) : bxor(bx, by);
        return ite(r, vconst(1, w), vconst(0, w));
      }
      if (isBAll(x) && isBAll(y)) {
        T bx = x->a[0], by = y->a[0];
        bx = x->a[1]->u ? bx : bnot(bx); by = y->a[1]->u ? by : bnot(by);
        T r = op == Op::VAnd ? band(bx, by) : op == Op::VOr ? bor(bx, by) : bxor(bx, by);
        return ite(r, vconst(maskw(w), w), vconst(0, w));
      }
      if (x->op == Op::VConcat && y->op == Op::VConcat && x->a[0]->w == y->a[0]->w)
        return vconcat(vbin(op, x->a[0], y->a[0]), vbin(op, x->a[1], y->a[1]));
      if (x->op == Op::VConcat && y->op == Op::VConst) {
        unsigned lw = x->a[1]->w;
        return vconcat(vbin(op, x->a[0], vconst(y->u >> lw, x->a[0]->w)), vbin(op, x->a[1], vconst(y->u, lw)));
      }
      if (x->id > y->id && y->op != Op::VConst) std::swap(x, y);
      return node(op, w, {x, y});
    }
    if (y->op == Op::VConst) {
      if ((op == Op::VShl || op == Op::VLShr || op == Op::VAShr) && y->u == 0) return x;
      if (op == Op::VShl && y->u < w) return vconcat(vextract(x, 0, w - y->u), vconst(0, y->u));
      if (op == Op::VLShr && y->u < w) return vzext(vextract(x, y->u, w - y->u), w);
      if ((op == Op::VUDiv || op == Op::VSDiv) && y->u == 1) return x;
      if (op == Op::VUDiv && (y->u & (y->u - 1)) == 0 && y->u) return vbin(Op::VLShr, x, vconst(__builtin_ctzll(y->u), w));
    }
    if (x->op == Op::VIte && y->op == Op::VConst && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst)
      return ite(x->a[0], vbin(op, x->a[1], y), vbin(op, x->a[2], y));
    return node(op, w, {x, y});
  }
  static bool isB01(T x) { return x->op == Op::VIte && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst && x->a[1]->u + x->a[2]->u == 1; }
  static bool isBAll(T x) { return x->op == Op::VIte && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst && ((x->a[1]->u == 0 && x->a[2]->u == maskw(x->w)) || (x->a[2]->u == 0 && x->a[1]->u == maskw(x->w))); }
  T toB(T x) { return x->a[1]->u ? x->a[0] : bnot(x->a[0]); }
  T vconcat(T hi, T lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 64);
    if (isC(hi) && isC(lo)) return vconst((hi->u << lo->w) | lo->u, w);
    if (hi->op == Op::VConst && lo->op == Op::VConst) return vconst((hi->u << lo->w) | lo->u, w);
    if (hi->op == Op::VConst && hi->u == 0) return vzext(lo, w);
    if (hi->op == Op::VExtract && lo->op == Op::VExtract && hi->a[0] == lo->a[0] && hi->u == lo->u + lo->w) return vextract(hi->a[0], lo->u, w);
    return node(Op::VConcat, w, {hi, lo});
  }
  T vzext(T x, unsigned w) {
    if (x->w == w) return x;
    if (x->w == 1) return ite(x, vconst(1, w), vconst(0, w));
    if (x->op == Op::VConst) return vconst(x->u, w);
    if (x->op == Op::VZext) return vzext(x->a[0], w);
    if (x->op == Op::VIte && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst) return ite(x->a[0], vzext(x->a[1], w), vzext(x->a[2], w));
    return node(Op::VZext, w, {x});
  }
  T vsext(T x, unsigned w) {
    if (x->w == w) return x;
    if (x->w == 1) return ite(x, vconst(~0ull, w), vconst(0, w));
    if (x->op == Op::VConst) return vconst((uint64_t)sx(x->u, x->w), w);
    if (x->op == Op::VIte && x->a[1]->op == Op::VConst && x->a[2]->op == Op::VConst) return ite(x->a[0], vsext(x->a[1], w), vsext(x->a[2], w));
    return node(Op::VSext, w, {x});
  }
  T vextract(T x, unsigned lo, unsigned w) {
    if (lo == 0 && w == x->w) return x;
    if (x->op == Op::VConst) return vconst(x->u >> lo, w);
    if (x->op == Op::VExtract) return vextract(x->a[0], lo + x->u, w);
    if (x->op == Op::VZext || x->op == Op::VSext) {
      unsigned iw = x->a[0]->w;
      if (lo + w <= iw) return vextract(x->a[0], lo, w);
      if (x->op == Op::VZext && lo >= iw) return vconst(0, w);
      if (lo == 0) return x->op == Op::VZext ? vzext(x->a[0], w) : vsext(x->a[0], w);
    }
    if (x->op == Op::VConcat) {
      unsigned lw = x->a[1]->w;
      if (lo + w <= lw) return vextract(x->a[1], lo, w);
      if (lo >= lw) return vextract(x->a[0], lo - lw, w);
      return vconcat(vextract(x->a[0], 0, lo + w - lw), vextract(x->a[1], lo, lw - lo));
    }
    if (x->op == Op::VIte) return ite(x->a[0], vextract(x->a[1], lo, w), vextract(x->a[2], lo, w));
    if ((x->op == Op::VAnd || x->op == Op::VOr || x->op == Op::VXor)) return w == 1
        ? (x->op == Op::VAnd ? band(vextract(x->a[0], lo, 1), vextract(x->a[1], lo, 1)) : x->op == Op::VOr ? bor(vextract(x->a[0], lo, 1), vextract(x->a[1], lo, 1)) : bxor(vextract(x->a[0], lo, 1), vextract(x->a[1], lo, 1)))
        : vbin(x->op, vextract(x->a[0], lo, w), vextract(x->a[1], lo, w));
    if (lo == 0 && w > 1 && (x->op == Op::VAdd || x->op == Op::VMul)) return vbin(x->op, vextract(x->a[0], 0, w), vextract(x->a[1], 0, w));
    if (w == 1) return node(Op::BExtr, 1, {x}, lo); // bool of a single bit
    return node(Op::VExtract, w, {x}, lo);
  }
  T veq(T x, T y) {
    if (x->w == 1) return biff(x, y);
    if (x == y) return tt;
    if (x->op == Op::VConst && y->op == Op::VConst) return boolc(x->u == y->u);
    if (x->op == Op::VConst) std::swap(x, y);
    if (y->op == Op::VConst) {
      unsigned w = x->w;
      if (x->op == Op::VIte && (x->a[1]->op == Op::VConst || x->a[2]->op == Op::VConst)) return ite(x->a[0], veq(x->a[1], y), veq(x->a[2], y));
      if (x->op == Op::VConcat) {
        unsigned lw = x->a[1]->w;
        return band(veq(x->a[0], vconst(y->u >> lw, x->a[0]->w)), veq(x->a[1], vconst(y->u, lw)));
      }
      if (x->op == Op::VZext) {
        unsigned iw = x->a[0]->w;
        if (y->u >> iw) return ff;
        return veq(x->a[0], vconst(y->u, iw));
      }
      if (x->op == Op::VAdd && x->a[1]->op == Op::VConst) return veq(x->a[0], vconst(y->u - x->a[1]->u, w));
      if (x->op == Op::VOr && y->u == 0) return band(veq(x->a[0], y), veq(x->a[1], y));
    }
    if (x->id > y->id) std::swap(x, y);
    return node(Op::VEq, 1, {x, y});
  }
  T vlt(bool sgn, T x, T y) {
    if (x == y) return ff;
    unsigned w = x->w;
    if (w == 1) { // bools: unsigned: !x & y ; signed: x & !y
      return sgn ? band(x, bnot(y)) : band(bnot(x), y);
    }
    if (x->op == Op::VConst && y->op == Op::VConst) return boolc(sgn ? sx(x->u, w) < sx(y->u, w) : x->u < y->u);
    if (x->op == Op::VIte && y->op == Op::VConst && (x->a[1]->op == Op::VConst || x->a[2]->op == Op::VConst)) return ite(x->a[0], vlt(sgn, x->a[1], y), vlt(sgn, x->a[2], y));
    if (y->op == Op::VIte && x->op == Op::VConst && (y->a[1]->op == Op::VConst || y->a[2]->op == Op::VConst)) return ite(y->a[0], vlt(sgn, x, y->a[1]), vlt(sgn, x, y->a[2]));
    if (!sgn && y->op == Op::VConst && y->u == 0) return ff;
    if (!sgn && y->op == Op::VConst && y->u == 1) return veq(x, vconst(0, w));
    if (!sgn && x->op == Op::VConst && x->u == 0) return bnot(veq(y, x));
    return node(sgn ? Op::VSlt : Op::VUlt, 1, {x, y});
  }
  T rfrombv(bool sgn, T x) {
    if (x->op == Op::VConst) return sgn ? real(mpq_class((long)sx(x->u, x->w))) : real(mpq_class((unsigned long)x->u));
    if (x->w == 1) return ite(x, real(sgn ? -1 : 1), rzero);
    if (x->op == Op::VIte) return ite(x->a[0], rfrombv(sgn, x->a[1]), rfrombv(sgn, x->a[2]));
    return node(Op::RFromBV, 0, {x}, sgn);
  }
};

extern TermMgr TM;

// assignment of variables (doubles for reals, u64 for bv/bool)
struct Assign {
  std::unordered_map<T, double> r;
  std::unordered_map<T, uint64_t> v;
  std::unordered_map<T, double> uf; // model values of applications of the harness's functions
  mutable std::unordered_map<T, double> mr;
  mutable std::unordered_map<T, uint64_t> mv;
};

double ufValue(const std::string& f, const std::vector<double>& a);
bool isMath(const std::string& f);

inline uint64_t evalV(T t, const Assign& A);
inline double evalR(T t, const Assign& A) {
  switch (t->op) {
  case Op::RConst: return t->dbl;
  case Op::RSpecial: return t->u == 0 ? INFINITY : t->u == 1 ? -INFINITY : NAN;
  case Op::RVar: { auto it = A.r.find(t); return it == A.r.end() ? 0.5 : it->second; }
  default: break;
  }
  auto it = A.mr.find(t);
  if (it != A.mr.end()) return it->second;
  double x;
  switch (t->op) {
  case Op::RAdd: x = evalR(t->a[0], A) + evalR(t->a[1], A); break;
  case Op::RMul: x = evalR(t->a[0], A) * evalR(t->a[1], A); break;
  case Op::RDiv: x = evalR(t->a[0], A) / evalR(t->a[1], A); break;
  case Op::RIte: x = evalV(t->a[0], A) ? evalR(t->a[1], A) : evalR(t->a[2], A); break;
  case Op::RSqrt: x = std::sqrt(evalR(t->a[0], A)); break;
  case Op::RFloor: x = std::floor(evalR(t->a[0], A)); break;
  case Op::RFromBV: x = t->u ? (double)sx(evalV(t->a[0], A), t->a[0]->w) : (double)evalV(t->a[0], A); break;
  case Op::RUF: { auto iu = A.uf.find(t); if (iu != A.uf.end()) { x = iu->second; break; } std::vector<double> v; for (T q : t->a) v.push_back(evalR(q, A)); x = ufValue(t->name, v); break; }
  default: x = NAN;
  }
  A.mr[t] = x;
  return x;
}
inline uint64_t evalV(T t, const Assign& A) {
  switch (t->op) {
  case Op::BConst: case Op::VConst: return t->u;
  case Op::BVar: case Op::VVar: { auto it = A.v.find(t); return it == A.v.end() ? 0 : it->second; }
  default: break;
  }
  auto it = A.mv.find(t);
  if (it != A.mv.end()) return it->second;
  uint64_t x = 0;
  auto V = [&](int i) { return evalV(t->a[i], A); };
  unsigned w = t->w, aw = t->a.empty() ? 0 : t->a[0]->w;
  switch (t->op) {
  case Op::BNot: x = !V(0); break;
  case Op::BAnd: x = V(0) && V(1); break;
  case Op::BOr: x = V(0) || V(1); break;
  case Op::BXor: x = V(0) != V(1); break;
  case Op::BIte: case Op::VIte: x = V(0) ? V(1) : V(2); break;
  case Op::RLt: x = evalR(t->a[0], A) < evalR(t->a[1], A); break;
  case Op::REq: x = evalR(t->a[0], A) == evalR(t->a[1], A); break;
  case Op::VUlt: x = V(0) < V(1); break;
  case Op::VSlt: x = sx(V(0), aw) < sx(V(1), aw); break;
  case Op::VEq: x = V(0) == V(1); break;
  case Op::VAdd: x = V(0) + V(1); break;
  case Op::VMul: x = V(0) * V(1); break;
  case Op::VUDiv: x = V(1) ? V(0) / V(1) : ~0ull; break;
  case Op::VSDiv: { int64_t p = sx(V(0), w), q = sx(V(1), w); x = q ? (q == -1 ? -(uint64_t)p : (uint64_t)(p / q)) : (p < 0 ? 1 : ~0ull); break; }
  case Op::VURem: x = V(1) ? V(0) % V(1) : V(0); break;
  case Op::VSRem: { int64_t p = sx(V(0), w), q = sx(V(1), w); x = q ? (q == -1 ? 0 : (uint64_t)(p % q)) : (uint64_t)p; break; }
  case Op::VShl: x = V(1) >= w ? 0 : V(0) << V(1); break;
  case Op::VLShr: x = V(1) >= w ? 0 : V(0) >> V(1); break;
  case Op::VAShr: x = (uint64_t)(sx(V(0), w) >> std::min<uint64_t>(V(1), w - 1)); break;
  case Op::VAnd: x = V(0) & V(1); break;
  case Op::VOr: x = V(0) | V(1); break;
  case Op::VXor: x = V(0) ^ V(1); break;
  case Op::VConcat: x = (V(0) << t->a[1]->w) | V(1); break;
  case Op::VExtract: case Op::BExtr: x = V(0) >> t->u; break;
  case Op::VZext: x = V(0); break;
  case Op::VSext: x = (uint64_t)sx(V(0), aw); break;
  default: break;
  }
  x &= maskw(w);
  A.mv[t] = x;
  return x;
}
std::string show(T t, int depth = 6);
