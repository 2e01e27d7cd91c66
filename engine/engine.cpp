// Symbolic executor over LLVM IR; see DESIGN.md.
#include "solver.hpp"
#include <cxxabi.h>
#include <fstream>
#include <iostream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <unistd.h>
#include <thread>
#include <pthread.h>

using namespace llvm;
TermMgr TM;

bool isMath(const std::string& f) {
  static const std::set<std::string> m{"exp", "log", "log10", "pow", "sin", "cos", "tan", "atan", "atan2", "acos", "asin", "tanh", "cbrt"};
  return m.count(f) != 0;
}
double ufValue(const std::string& f, const std::vector<double>& a) {
  if (f == "exp") return std::exp(a[0]);
  if (f == "log") return std::log(a[0]);
  if (f == "log10") return std::log10(a[0]);
  if (f == "pow") return std::pow(a[0], a[1]);
  if (f == "sin") return std::sin(a[0]);
  if (f == "cos") return std::cos(a[0]);
  if (f == "tan") return std::tan(a[0]);
  if (f == "atan") return std::atan(a[0]);
  if (f == "atan2") return std::atan2(a[0], a[1]);
  if (f == "acos") return std::acos(a[0]);
  if (f == "asin") return std::asin(a[0]);
  if (f == "tanh") return std::tanh(a[0]);
  if (f == "cbrt") return std::cbrt(a[0]);
  // abstract functions of the harness: must agree with runtime/replay.cpp
  double h = 0.37;
  uint64_t s = 1469598103934665603ull;
  for (char c : f) { s ^= (unsigned char)c; s *= 1099511628211ull; }
  h += (double)(s % 97) / 97.0;
  int i = 0;
  for (double x : a) { ++i; h = h * 1.37 + x * (0.61 + 0.17 * i) + 0.11 * std::sin(3.1 * x + i + h); }
  return h;
}

std::string show(T t, int depth) {
  auto S = [&](int i) { return depth <= 0 ? std::string("..") : show(t->a[i], depth - 1); };
  switch (t->op) {
  case Op::RConst: return t->q->get_den() == 1 ? t->q->get_str() : std::to_string(t->dbl);
  case Op::RSpecial: return t->u == 0 ? "inf" : t->u == 1 ? "-inf" : "nan";
  case Op::RVar: case Op::BVar: case Op::VVar: return t->name;
  case Op::RAdd: case Op::VAdd: return "(" + S(0) + " + " + S(1) + ")";
  case Op::RMul: case Op::VMul: return "(" + S(0) + " * " + S(1) + ")";
  case Op::RDiv: return "(" + S(0) + " / " + S(1) + ")";
  case Op::RIte: case Op::BIte: case Op::VIte: return "(" + S(0) + " ? " + S(1) + " : " + S(2) + ")";
  case Op::RLt: case Op::VSlt: case Op::VUlt: return "(" + S(0) + " < " + S(1) + ")";
  case Op::REq: case Op::VEq: return "(" + S(0) + " == " + S(1) + ")";
  case Op::BNot: return "!" + S(0);
  case Op::BAnd: return "(" + S(0) + " && " + S(1) + ")";
  case Op::BConst: case Op::VConst: return std::to_string(sx(t->u, t->w));
  case Op::RSqrt: return "sqrt(" + S(0) + ")";
  default: {
    std::string r = t->op == Op::RUF ? t->name : "op" + std::to_string((int)t->op);
    r += "(";
    for (size_t i = 0; i < t->a.size(); ++i) r += (i ? "," : "") + S(i);
    return r + ")";
  }
  }
}

struct Val {
  enum K : uint8_t { Undef, Int, Sym, Real, Bits, Agg } k = Undef;
  uint16_t w = 0; // int width
  uint64_t u = 0;
  T t = nullptr;
  std::shared_ptr<std::vector<Val>> a;
  static Val I(uint64_t v, unsigned w) { Val x; x.k = Int; x.w = w; x.u = v & maskw(w); return x; }
  static Val S(T t) {
    if (TM.isC(t) && t->w >= 1) return I(t->u, t->w);
    Val x; x.k = Sym; x.w = t->w; x.t = t; return x;
  }
  static Val R(T t) { Val x; x.k = Real; x.t = t; return x; }
  static Val B(T t, unsigned w) { Val x; x.k = Bits; x.t = t; x.w = w; return x; }
  static Val A(std::vector<Val> v) { Val x; x.k = Agg; x.a = std::make_shared<std::vector<Val>>(std::move(v)); return x; }
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd : std::runtime_error { using std::runtime_error::runtime_error; };       // violation-like end
struct PathStop : std::runtime_error { using std::runtime_error::runtime_error; };      // silent end (assume false)
struct ForkAgain {};                                                                    // state must be re-executed

struct Obj {
  uint64_t base = 0, size = 0;
  bool alive = true, heap = false, ro = false;
  std::string name;
  std::vector<uint8_t> b;
  std::vector<uint8_t> st; // 0 undef, 1 concrete, 2 part of a symbolic entry
  std::map<uint64_t, std::pair<uint32_t, Val>> sym; // offset -> (size, value)
};

struct Frame {
  Function* f = nullptr;
  BasicBlock* bb = nullptr;
  BasicBlock* prev = nullptr;
  BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  CallBase* call = nullptr; // call site in the caller
  std::vector<Val> varargs;
};

struct InputRec { std::string name; char kind; T t; uint64_t c; }; // kind r,i,c

struct State {
  std::vector<Frame> st;
  std::map<uint64_t, std::shared_ptr<Obj>> mem; // by base
  uint64_t next = 0x10000000;
  std::vector<T> pc;
  std::set<T> pcset;
  std::vector<InputRec> inputs;
  std::map<std::string, int> cnt;
  std::shared_ptr<Assign> wit; // a satisfying assignment of pc, if known
  long steps = 0, specLimit = 0;
  Val exc; uint64_t excType = 0; // current exception
  std::vector<std::pair<uint64_t, uint64_t>> caught; // (object,type)
  std::set<uint64_t> freed;
  long depth = 0;
};

struct Violation { std::vector<std::string> ufs; std::string label, detail; std::vector<std::pair<std::string, std::string>> inputs; std::string kind; };

struct Config {
  std::string entry, out;
  std::map<std::string, long> params;
  long maxSteps = 4000000;
  long maxPaths = 20000;
  double budget = 600;
  bool checkUninit = true;
  bool forkSelect = false;
  bool merge = false;
  int maxViol = 6;
  bool verbose = false;
  bool reachOnly = false;
};

class Engine {
public:
  LLVMContext& ctx;
  Module& M;
  const DataLayout& DL;
  Config cfg;
  Solver S;
  std::map<Function*, std::unordered_map<const Value*, unsigned>> slots;
  std::map<uint64_t, Function*> fnAt;
  std::map<const GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, const GlobalVariable*> gAt; // base -> var
  std::map<uint64_t, std::shared_ptr<Obj>> gmem;  // materialised initial globals
  std::unordered_map<const Constant*, Val> cmemo;
  std::vector<State> work;
  std::vector<Violation> viols;
  std::map<std::string, long> fnCount;
  std::map<std::string, long> ends, covers, asserts, unknownAsserts, unsupported;
  std::set<std::string> violLabels;
  std::map<std::string, int> cexPerLabel;
  long paths = 0, forks = 0, totalSteps = 0, satEnds = 0;
  long uninit = 0;
  std::map<std::string, uint64_t> typeIds;
  Solver::Clock clock;

  Engine(LLVMContext& c, Module& m, Config cf) : ctx(c), M(m), DL(m.getDataLayout()), cfg(cf) {
    uint64_t a = 0x1000;
    for (auto& F : M) { gaddr[&F] = a; fnAt[a] = &F; a += 16; }
    a = 0x1000000;
    for (auto& G : M.globals()) {
      uint64_t sz = 64;
      if (G.getValueType()->isSized()) sz = std::max<uint64_t>(1, DL.getTypeAllocSize(G.getValueType()));
      if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 256);
      a = (a + 63) & ~63ull;
      gaddr[&G] = a; gAt[a] = &G;
      a += sz + 64;
    }
    for (auto& A : M.aliases()) {
      if (auto* f = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) gaddr[&A] = gaddr[f];
      else if (auto* g = dyn_cast<GlobalVariable>(A.getAliasee()->stripPointerCasts())) gaddr[&A] = gaddr[g];
    }
    gEnd = a;
  }
  uint64_t gEnd;

  // ------------------------------------------------------------ constants
  Val constVal(const Constant* C) {
    auto it = cmemo.find(C);
    if (it != cmemo.end()) return it->second;
    Val v = constVal0(C);
    cmemo[C] = v;
    return v;
  }
  Val zeroOf(Type* t) {
    if (t->isIntegerTy()) { return Val::I(0, t->getIntegerBitWidth()); }
    if (t->isPointerTy()) return Val::I(0, 64);
    if (t->isFloatingPointTy()) return Val::R(TM.rzero);
    std::vector<Val> v;
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) v.push_back(zeroOf(e)); return Val::A(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { v.assign(at->getNumElements(), zeroOf(at->getElementType())); return Val::A(v); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { v.assign(vt->getNumElements(), zeroOf(vt->getElementType())); return Val::A(v); }
    throw Unsupported("zeroOf type");
  }
  Val undefOf(Type* t) {
    std::vector<Val> v;
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) v.push_back(undefOf(e)); return Val::A(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { v.assign(at->getNumElements(), undefOf(at->getElementType())); return Val::A(v); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { v.assign(vt->getNumElements(), undefOf(vt->getElementType())); return Val::A(v); }
    Val x; x.w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; return x;
  }
  Val constVal0(const Constant* C) {
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
      if (ci->getBitWidth() > 64) {
        if (ci->getValue().getActiveBits() <= 64) { Val v = Val::I(ci->getValue().getZExtValue(), 64); v.w = ci->getBitWidth(); return v; }
        throw Unsupported("wide constant");
      }
      return Val::I(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
      APFloat f = cf->getValueAPF(); bool l;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
      return Val::R(TM.reald(f.convertToDouble()));
    }
    if (isa<ConstantPointerNull>(C)) return Val::I(0, 64);
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return undefOf(C->getType());
    if (isa<ConstantAggregateZero>(C)) return zeroOf(C->getType());
    if (auto* gv = dyn_cast<GlobalValue>(C)) { return Val::I(gaddr.at(gv), 64); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
      std::vector<Val> v;
      for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i)));
      return Val::A(v);
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
      std::vector<Val> v;
      for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o)));
      return Val::A(v);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off);
        Val b = constVal(ce->getOperand(0));
        return Val::I(b.u + off.getSExtValue(), 64);
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val b = constVal(ce->getOperand(0));
        if (ce->getType()->isIntegerTy() && ce->getType()->getIntegerBitWidth() < 64) return Val::I(b.u, ce->getType()->getIntegerBitWidth());
        return b;
      }
      case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val::I(a.u - b.u, a.w); }
      case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val::I(a.u + b.u, a.w); }
      case Instruction::Trunc: { Val a = constVal(ce->getOperand(0)); return Val::I(a.u, ce->getType()->getIntegerBitWidth()); }
      case Instruction::ICmp: {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a.u == b.u : a.u != b.u;
        return Val::I(r, 1);
      }
      default: break;
      }
      throw Unsupported("constexpr " + std::string(ce->getOpcodeName()));
    }
    if (isa<DSOLocalEquivalent>(C)) return constVal(cast<DSOLocalEquivalent>(C)->getGlobalValue());
    throw Unsupported("constant");
  }
  // ------------------------------------------------------------ memory
  std::shared_ptr<Obj> newObj(State& s, uint64_t size, const std::string& name, bool heap, uint64_t align = 16) {
    auto o = std::make_shared<Obj>();
    if (align < 64) align = 64;
    s.next = (s.next + align - 1) & ~(align - 1);
    o->base = s.next; o->size = size; o->name = name; o->heap = heap;
    o->b.assign(size, 0); o->st.assign(size, 0);
    s.next += size + 64;
    s.mem[o->base] = o;
    return o;
  }
  Obj* find(State& s, uint64_t addr, uint64_t n, bool wr, uint64_t& off) {
    if (addr < 0x1000000) throw PathEnd(addr < 4096 ? "null pointer access" : "access to code address");
    if (addr < gEnd) {
      auto g = gAt.upper_bound(addr);
      if (g == gAt.begin()) throw PathEnd("wild global access");
      --g;
      auto it = s.mem.find(g->first);
      if (it == s.mem.end()) {
        auto& gm = gmem[g->first];
        if (!gm) {
          gm = std::make_shared<Obj>();
          const GlobalVariable* G = g->second;
          gm->base = g->first;
          gm->size = G->getValueType()->isSized() ? std::max<uint64_t>(1, DL.getTypeAllocSize(G->getValueType())) : 64;
          if (!G->hasInitializer()) gm->size = std::max<uint64_t>(gm->size, 256);
          gm->name = G->getName().str();
          gm->b.assign(gm->size, 0); gm->st.assign(gm->size, 1);
          gm->ro = G->isConstant();
          if (G->hasInitializer()) { Val v = constVal(G->getInitializer()); storeRaw(*gm, 0, G->getValueType(), v); }
        }
        it = s.mem.emplace(g->first, gm).first;
      }
      return chk(s, it, addr, n, wr, off);
    }
    auto it = s.mem.upper_bound(addr);
    if (it == s.mem.begin()) throw PathEnd("wild access");
    --it;
    return chk(s, it, addr, n, wr, off);
  }
  Obj* chk(State& s, std::map<uint64_t, std::shared_ptr<Obj>>::iterator it, uint64_t addr, uint64_t n, bool wr, uint64_t& off) {
    Obj* o = it->second.get();
    off = addr - o->base;
    if (off + n > o->size || off > o->size) throw PathEnd("out of bounds access of " + std::to_string(n) + " bytes at offset " + std::to_string((long)off) + " of object '" + o->name + "' size " + std::to_string(o->size));
    if (!o->alive) throw PathEnd("use after free/scope of '" + o->name + "'");
    if (wr) {
      if (o->ro) throw PathEnd("write to constant '" + o->name + "'");
      if (it->second.use_count() > 1) { it->second = std::make_shared<Obj>(*o); o = it->second.get(); }
    }
    return o;
  }
  static bool dblExact(T t, double& d) {
    if (t->op == Op::RSpecial) { d = t->u == 0 ? INFINITY : t->u == 1 ? -INFINITY : NAN; return true; }
    if (t->op != Op::RConst) return false;
    d = t->dbl;
    return std::isfinite(d) && mpq_class(d) == *t->q;
  }
  void clearRange(Obj& o, uint64_t off, uint64_t n) {
    if (o.sym.empty()) return;
    auto it = o.sym.lower_bound(off);
    // an entry starting before off may overlap
    if (it != o.sym.begin()) {
      auto p = std::prev(it);
      if (p->first + p->second.first > off) splitEntry(o, p->first);
    }
    // an entry reaching beyond the end
    it = o.sym.lower_bound(off);
    while (it != o.sym.end() && it->first < off + n) {
      if (it->first + it->second.first > off + n) { splitEntry(o, it->first); it = o.sym.lower_bound(off); continue; }
      it = o.sym.erase(it);
    }
  }
  // split a symbolic integer entry into bytes
  void splitEntry(Obj& o, uint64_t at) {
    auto e = o.sym[at];
    o.sym.erase(at);
    if (e.second.k != Val::Sym) {
      // partial overwrite of a real: the remainder becomes undefined
      for (uint64_t i = 0; i < e.first; ++i) o.st[at + i] = 0;
      return;
    }
    T t = e.second.t;
    if (t->w < e.first * 8) t = TM.vzext(t, e.first * 8);
    for (uint64_t i = 0; i < e.first; ++i) {
      T by = TM.vextract(t, i * 8, 8);
      if (by->op == Op::VConst) { o.b[at + i] = by->u; o.st[at + i] = 1; }
      else { o.sym[at + i] = {1, Val::S(by)}; o.st[at + i] = 2; }
    }
  }
  void storeRaw(Obj& o, uint64_t off, Type* ty, const Val& v) {
    if (v.k == Val::Agg) {
      if (auto* stt = dyn_cast<StructType>(ty)) {
        auto* sl = DL.getStructLayout(stt);
        for (unsigned i = 0; i < stt->getNumElements(); ++i) storeRaw(o, off + sl->getElementOffset(i), stt->getElementType(i), (*v.a)[i]);
        return;
      }
      Type* et; uint64_t n;
      if (auto* at = dyn_cast<ArrayType>(ty)) { et = at->getElementType(); n = at->getNumElements(); }
      else { auto* vt = cast<FixedVectorType>(ty); et = vt->getElementType(); n = vt->getNumElements(); }
      uint64_t es = isa<FixedVectorType>(ty) ? (DL.getTypeSizeInBits(et) + 7) / 8 : (uint64_t)DL.getTypeAllocSize(et);
      if (isa<FixedVectorType>(ty) && DL.getTypeSizeInBits(et) < 8) {
        // bit-packed vector of i1
        T acc = nullptr; uint64_t c = 0; bool sym = false;
        for (unsigned i = 0; i < n; ++i) { const Val& e = (*v.a)[i]; if (e.k == Val::Sym) sym = true; else c |= (e.u & 1) << i; }
        (void)acc;
        if (sym) throw Unsupported("store of symbolic bit vector");
        for (unsigned i = 0; i < (n + 7) / 8; ++i) { clearRange(o, off + i, 1); o.b[off + i] = c >> (8 * i); o.st[off + i] = 1; }
        return;
      }
      for (uint64_t i = 0; i < n; ++i) storeRaw(o, off + i * es, et, (*v.a)[i]);
      return;
    }
    uint64_t n = DL.getTypeStoreSize(ty);
    clearRange(o, off, n);
    if (v.k == Val::Undef) { for (uint64_t i = 0; i < n; ++i) o.st[off + i] = 0; return; }
    if (v.k == Val::Int) {
      uint64_t u = v.u;
      for (uint64_t i = 0; i < n; ++i) { o.b[off + i] = i < 8 ? u >> (8 * i) : 0; o.st[off + i] = 1; }
      return;
    }
    if (v.k == Val::Real || v.k == Val::Bits) {
      double d;
      if (dblExact(v.t, d)) {
        if (n == 8) memcpy(&o.b[off], &d, 8);
        else if (n == 4) { float f = d; memcpy(&o.b[off], &f, 4); }
        else if (n >= 10) { long double ld = d; memset(&o.b[off], 0, n); memcpy(&o.b[off], &ld, 10); }
        for (uint64_t i = 0; i < n; ++i) o.st[off + i] = 1;
        return;
      }
      Val r = Val::R(v.t);
      o.sym[off] = {(uint32_t)n, r};
      for (uint64_t i = 0; i < n; ++i) o.st[off + i] = 2;
      return;
    }
    // symbolic int
    T t = v.t;
    if (t->w < n * 8) t = TM.vzext(t, n * 8);
    if (n > 1 && (t->op == Op::VConcat)) { // store bytes when they are separate
      o.sym[off] = {(uint32_t)n, Val::S(t)};
      splitEntry(o, off);
      return;
    }
    o.sym[off] = {(uint32_t)n, Val::S(t)};
    for (uint64_t i = 0; i < n; ++i) o.st[off + i] = 2;
  }
  void store(State& s, uint64_t addr, Type* ty, const Val& v) {
    uint64_t off;
    Obj* o = find(s, addr, DL.getTypeStoreSize(ty), true, off);
    storeRaw(*o, off, ty, v);
  }
  Val loadRaw(State& s, Obj& o, uint64_t off, Type* ty) {
    if (auto* stt = dyn_cast<StructType>(ty)) {
      auto* sl = DL.getStructLayout(stt);
      std::vector<Val> v;
      for (unsigned i = 0; i < stt->getNumElements(); ++i) v.push_back(loadRaw(s, o, off + sl->getElementOffset(i), stt->getElementType(i)));
      return Val::A(v);
    }
    if (ty->isArrayTy() || ty->isVectorTy()) {
      Type* et; uint64_t n, es;
      if (auto* at = dyn_cast<ArrayType>(ty)) { et = at->getElementType(); n = at->getNumElements(); es = DL.getTypeAllocSize(et); }
      else {
        auto* vt = cast<FixedVectorType>(ty); et = vt->getElementType(); n = vt->getNumElements(); es = (DL.getTypeSizeInBits(et) + 7) / 8;
        if (DL.getTypeSizeInBits(et) < 8) throw Unsupported("load of bit vector");
      }
      std::vector<Val> v;
      for (uint64_t i = 0; i < n; ++i) v.push_back(loadRaw(s, o, off + i * es, et));
      return Val::A(v);
    }
    uint64_t n = DL.getTypeStoreSize(ty);
    bool allc = true, anyu = false, allu = true;
    for (uint64_t i = 0; i < n; ++i) { uint8_t q = o.st[off + i]; if (q != 1) allc = false; if (q == 0) anyu = true; else allu = false; }
    unsigned bits = ty->isPointerTy() ? 64 : (unsigned)DL.getTypeSizeInBits(ty);
    if (allc) {
      if (ty->isFloatingPointTy()) {
        double d = 0;
        if (n == 8) memcpy(&d, &o.b[off], 8);
        else if (n == 4) { float f; memcpy(&f, &o.b[off], 4); d = f; }
        else { long double ld = 0; memcpy(&ld, &o.b[off], 10); d = ld; }
        return Val::R(TM.reald(d));
      }
      uint64_t u = 0;
      for (uint64_t i = 0; i < n && i < 8; ++i) u |= (uint64_t)o.b[off + i] << (8 * i);
      if (n > 8) { for (uint64_t i = 8; i < n; ++i) if (o.b[off + i]) throw Unsupported("wide load"); Val v = Val::I(u, 64); v.w = bits; return v; }
      return Val::I(u, bits);
    }
    auto it = o.sym.find(off);
    if (it != o.sym.end() && it->second.first == n) {
      Val v = it->second.second;
      if (v.k == Val::Real) return ty->isFloatingPointTy() ? v : Val::B(v.t, bits);
      if (ty->isFloatingPointTy()) throw Unsupported("float load of symbolic integer");
      if (v.t->w > bits) return Val::S(TM.vextract(v.t, 0, bits));
      return v;
    }
    if (allu) {
      // uninitialised memory: keep it undefined while it is only copied
      Val v; v.w = bits; return v;
    }
    if (n > 8) throw Unsupported("wide partial symbolic load");
    // assemble bytes
    T acc = nullptr;
    (void)anyu;
    for (uint64_t i = 0; i < n; ++i) {
      T by;
      uint8_t q = o.st[off + i];
      if (q == 1) by = TM.vconst(o.b[off + i], 8);
      else if (q == 0) { by = TM.vvar("uninit!" + std::to_string(uninit++), 8); }
      else {
        auto e = o.sym.upper_bound(off + i);
        --e;
        if (e->second.second.k != Val::Sym) throw Unsupported("partial load of a real");
        T t = e->second.second.t;
        if (t->w < 8 * e->second.first) t = TM.vzext(t, 8 * e->second.first);
        by = TM.vextract(t, 8 * (off + i - e->first), 8);
      }
      acc = acc ? TM.vconcat(by, acc) : by;
    }
    if (ty->isFloatingPointTy()) { if (acc->op == Op::VConst) { double d; memcpy(&d, &acc->u, 8); return Val::R(TM.reald(d)); } throw Unsupported("float load of symbolic bytes"); }
    if (acc->w > bits) acc = TM.vextract(acc, 0, bits);
    return Val::S(acc);
  }
  Val load(State& s, uint64_t addr, Type* ty) {
    uint64_t off;
    Obj* o = find(s, addr, DL.getTypeStoreSize(ty), false, off);
    return loadRaw(s, *o, off, ty);
  }
  void copyMem(State& s, uint64_t d, uint64_t sr, uint64_t n) {
    if (!n) return;
    uint64_t so, dof;
    Obj* so_ = find(s, sr, n, false, so);
    // take a snapshot of the source range
    std::vector<uint8_t> b(so_->b.begin() + so, so_->b.begin() + so + n), st(so_->st.begin() + so, so_->st.begin() + so + n);
    std::vector<std::pair<uint64_t, std::pair<uint32_t, Val>>> es;
    bool partial = false;
    {
      auto it = so_->sym.lower_bound(so);
      if (it != so_->sym.begin()) { auto p = std::prev(it); if (p->first + p->second.first > so) partial = true; }
      for (; it != so_->sym.end() && it->first < so + n; ++it) {
        if (it->first + it->second.first > so + n) { partial = true; break; }
        es.push_back({it->first - so, it->second});
      }
    }
    if (partial) { // split source entries at the border first
      so_ = find(s, sr, n, true, so);
      Obj tmp = *so_;
      auto bord = [&](uint64_t x) { auto it = tmp.sym.lower_bound(x); if (it != tmp.sym.begin()) { auto p = std::prev(it); if (p->first < x && p->first + p->second.first > x) { if (p->second.second.k != Val::Sym) throw Unsupported("memcpy splits a real"); splitEntry(tmp, p->first); } } };
      bord(so); bord(so + n);
      es.clear();
      for (uint64_t i = 0; i < n; ++i) { b[i] = tmp.b[so + i]; st[i] = tmp.st[so + i]; }
      for (auto it = tmp.sym.lower_bound(so); it != tmp.sym.end() && it->first < so + n; ++it) es.push_back({it->first - so, it->second});
    }
    Obj* dob = find(s, d, n, true, dof);
    clearRange(*dob, dof, n);
    std::copy(b.begin(), b.end(), dob->b.begin() + dof);
    std::copy(st.begin(), st.end(), dob->st.begin() + dof);
    for (auto& e : es) dob->sym[dof + e.first] = e.second;
  }
  // ------------------------------------------------------------ values
  unsigned slotOf(Function* f, const Value* v) {
    auto& m = slots[f];
    if (m.empty()) {
      unsigned k = 0;
      for (auto& a : f->args()) m[&a] = k++;
      for (auto& bb : *f) for (auto& i : bb) m[&i] = k++;
      m[nullptr] = k;
    }
    return m.at(v);
  }
  unsigned nslots(Function* f) { slotOf(f, nullptr); return slots[f][nullptr]; }
  Val get(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
    if (isa<MetadataAsValue>(v)) return Val();
    Frame& f = s.st.back();
    return f.regs[slotOf(f.f, v)];
  }
  void set(State& s, const Value* v, Val x) {
    Frame& f = s.st.back();
    f.regs[slotOf(f.f, v)] = std::move(x);
  }
  T realOf(const Val& v) {
    if (v.k == Val::Real || v.k == Val::Bits) return v.t;
    if (v.k == Val::Undef) return TM.rvar("uninit!" + std::to_string(uninit++));
    if (v.k == Val::Int) { double d; memcpy(&d, &v.u, 8); return TM.reald(d); }
    throw Unsupported("real expected");
  }
  T bvOf(const Val& v) {
    if (v.k == Val::Int) return TM.vconst(v.u, v.w);
    if (v.k == Val::Sym) return v.t;
    if (v.k == Val::Undef) { if (v.w == 1) return TM.bvar("uninit!" + std::to_string(uninit++)); return TM.vvar("uninit!" + std::to_string(uninit++), v.w ? v.w : 64); }
    if (v.k == Val::Bits) {
      double d;
      if (v.t->op == Op::RConst || v.t->op == Op::RSpecial) { dblExact(v.t, d); if (v.t->op == Op::RConst) d = v.t->dbl; uint64_t u; memcpy(&u, &d, 8); return TM.vconst(u, 64); }
      throw Unsupported("integer use of a symbolic double's bits");
    }
    throw Unsupported("int expected");
  }
  // ------------------------------------------------------------ path condition
  bool mayBe(State& s, T c, std::shared_ptr<Assign>& w, int limit = 0) { // may pc && c hold?
    if (c == TM.ff) return false;
    if (c == TM.tt) { w = s.wit; return true; }
    if (s.pcset.count(c)) { w = s.wit; return true; }
    if (s.pcset.count(TM.bnot(c))) return false;
    if (s.wit && evalV(c, *s.wit)) { w = s.wit; return true; }
    std::vector<T> q = s.pc; q.push_back(c);
    q = slice(q, c);
    S.st.feas++;
    Assign A;
    if (S.guess(q, A, 100, s.wit.get())) {
      if (s.wit) { for (auto& p : s.wit->r) A.r.emplace(p.first, p.second); for (auto& p : s.wit->v) A.v.emplace(p.first, p.second); }
      A.mr.clear(); A.mv.clear();
      w = nullptr;
      { std::vector<T> full = s.pc; full.push_back(c); if (S.holds(full, A)) w = std::make_shared<Assign>(A); }
      return true;
    }
    if (canonRefutes(s, c)) return false;
    Assign B;
    auto r = S.check(q, limit ? limit : S.fTimeout, &B);
    if (r == z3::unsat) return false;
    w = nullptr;
    if (r == z3::sat) {
      if (s.wit) { for (auto& p : s.wit->r) B.r.emplace(p.first, p.second); for (auto& p : s.wit->v) B.v.emplace(p.first, p.second); }
      std::vector<T> full = s.pc; full.push_back(c);
      B.mr.clear(); B.mv.clear();
      if (S.holds(full, B)) w = std::make_shared<Assign>(B);
    }
    return true;
  }
  // the condition contradicts what is known once both are put in normal form
  bool canonRefutes(State& s, T c) {
    auto cmpOf = [](T t) { while (t->op == Op::BNot) t = t->a[0]; return t->op == Op::RLt || t->op == Op::REq; };
    if (c->op == Op::BAnd) return canonRefutes(s, c->a[0]) || canonRefutes(s, c->a[1]);
    if (c->op == Op::BNot && c->a[0]->op == Op::BAnd) return canonRefutes(s, TM.bnot(c->a[0]->a[0])) && canonRefutes(s, TM.bnot(c->a[0]->a[1]));
    if (c->op == Op::BOr) return canonRefutes(s, c->a[0]) && canonRefutes(s, c->a[1]);
    if (c->op == Op::BNot && c->a[0]->op == Op::BOr) return canonRefutes(s, TM.bnot(c->a[0]->a[0])) || canonRefutes(s, TM.bnot(c->a[0]->a[1]));
    if (!cmpOf(c)) return false;
    if (s.pcset.count(TM.bnot(c))) return true;
    try {
      Solver::Canon cn(S, s.pc);
      T c2 = cn.go(c);
      if (getenv("VP_DBG")) { fprintf(stderr, "refute %s\n  -> %s\n", show(c, 14).c_str(), show(c2, 14).c_str()); for (auto& l : cn.lits) fprintf(stderr, "   lit %d %s\n", l.second, show(l.first, 14).c_str()); }
      if (c2 == TM.ff) { S.st.nonzeroAssumed++; return true; }
      if (c2 == TM.tt) return false;
      const auto& vc = varsOf(c);
      for (T p : s.pc) {
        if (!cmpOf(p)) continue;
        const auto& vp = varsOf(p); bool hit = false;
        for (T x : vp) if (vc.count(x)) { hit = true; break; }
        if (!hit) continue;
        T p2 = cn.cmp(p->op == Op::BNot ? p->a[0] : p); if (p->op == Op::BNot) p2 = TM.bnot(p2);
        if (p2 == TM.bnot(c2)) { S.st.nonzeroAssumed++; return true; }
        // p: 0 < x refutes x < 0 and x = 0
        if (p2->op == Op::RLt && c2->op == Op::RLt && ((p2->a[0] == TM.rzero && c2->a[1] == TM.rzero && p2->a[1] == c2->a[0]) || (p2->a[1] == TM.rzero && c2->a[0] == TM.rzero && p2->a[0] == c2->a[1]))) { S.st.nonzeroAssumed++; return true; }
        if (p2->op == Op::RLt && c2->op == Op::REq && (c2->a[1] == TM.rzero || c2->a[0] == TM.rzero)) {
          T x = c2->a[1] == TM.rzero ? c2->a[0] : c2->a[1];
          if ((p2->a[0] == TM.rzero && p2->a[1] == x) || (p2->a[1] == TM.rzero && p2->a[0] == x)) { S.st.nonzeroAssumed++; return true; }
        }
      }
    } catch (PolyLimit&) {}
    return false;
  }
  // variables of a term, cached
  std::unordered_map<T, std::shared_ptr<std::set<T>>> vmemo;
  const std::set<T>& varsOf(T t) {
    auto it = vmemo.find(t);
    if (it != vmemo.end()) return *it->second;
    auto r = std::make_shared<std::set<T>>();
    if (t->op == Op::RVar || t->op == Op::BVar || t->op == Op::VVar) r->insert(t);
    std::vector<T> sub; S.collect({t}, sub);
    for (T x : sub) if (x->op == Op::RVar || x->op == Op::BVar || x->op == Op::VVar) r->insert(x);
    vmemo[t] = r;
    return *r;
  }
  // constraints of q transitively sharing variables with the seed
  std::vector<T> slice(const std::vector<T>& q, T seed) {
    std::set<T> vs = varsOf(seed);
    std::vector<bool> in(q.size(), false);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < q.size(); ++i) {
        if (in[i]) continue;
        bool hit = q[i] == seed;
        const auto& w = varsOf(q[i]);
        for (T x : w) if (vs.count(x)) { hit = true; break; }
        if (hit) { in[i] = true; ch = true; vs.insert(w.begin(), w.end()); }
      }
    }
    std::vector<T> r;
    for (size_t i = 0; i < q.size(); ++i) if (in[i]) r.push_back(q[i]);
    return r;
  }
  void addPc(State& s, T c, std::shared_ptr<Assign> w) {
    if (c == TM.tt) { return; }
    if (c->op == Op::BAnd) { s.pcset.insert(c); addPc(s, c->a[0], w); addPc(s, c->a[1], w); s.wit = w; return; }
    if (s.pcset.insert(c).second) s.pc.push_back(c);
    s.wit = w;
  }
  // decides a branch; the other side is queued (re-executing the current instruction with the condition known)
  bool branch(State& s, T c) {
    if (c == TM.tt) return true;
    if (c == TM.ff) return false;
    if (s.pcset.count(c)) return true;
    if (s.pcset.count(TM.bnot(c))) return false;
    std::shared_ptr<Assign> wt, wf;
    bool t = mayBe(s, c, wt), f = mayBe(s, TM.bnot(c), wf);
    if (t && f) {
      forks++;
      State o = s;
      addPc(o, TM.bnot(c), wf);
      work.push_back(std::move(o));
      addPc(s, c, wt);
      return true;
    }
    if (!t && !f) throw PathStop("infeasible");
    return t;
  }
  uint64_t concretize(State& s, const Val& v) {
    if (v.k == Val::Int) return v.u;
    T t = bvOf(v);
    if (t->w == 1) return branch(s, t);
    for (T p : s.pc) if (p->op == Op::VEq) { if (p->a[0] == t && p->a[1]->op == Op::VConst) return p->a[1]->u; if (p->a[1] == t && p->a[0]->op == Op::VConst) return p->a[0]->u; }
    uint64_t cand;
    if (s.wit) cand = evalV(t, *s.wit);
    else {
      Assign A;
      std::vector<T> q = s.pc;
      if (q.empty()) cand = 0;
      else {
        T seed = TM.veq(t, t) ; (void)seed;
        std::vector<T> q2 = sliceT(q, t);
        if (!q2.empty() && S.check(q2, 5000, &A) != z3::sat) throw Unsupported("cannot concretise");
        cand = evalV(t, A);
      }
    }
    T c = TM.veq(t, TM.vconst(cand, t->w));
    if (branch(s, c)) return cand;
    return concretize(s, v);
  }
  std::vector<T> sliceT(const std::vector<T>& q, T t) {
    std::set<T> vs = varsOf(t);
    std::vector<T> r; std::vector<bool> in(q.size(), false); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < q.size(); ++i) if (!in[i]) { const auto& w = varsOf(q[i]); bool hit = false; for (T x : w) if (vs.count(x)) hit = true; if (hit) { in[i] = ch = true; vs.insert(w.begin(), w.end()); } } }
    for (size_t i = 0; i < q.size(); ++i) if (in[i]) r.push_back(q[i]);
    return r;
  }
  // ------------------------------------------------------------ violations
  std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
  void report(State& s, const std::string& label, const std::string& kind, const Assign& A, const std::string& detail = "") {
    Violation v;
    v.label = label; v.kind = kind; v.detail = detail;
    for (auto& in : s.inputs) {
      std::string val;
      if (in.kind == 'r') val = hexd(evalR(in.t, A));
      else if (in.kind == 'i') val = std::to_string((long)sx(evalV(in.t, A), in.t->w));
      else val = std::to_string((long)in.c);
      v.inputs.push_back({in.name, val});
    }
    for (auto& p : A.uf) {
      std::string l = p.first->name;
      for (T q : p.first->a) l += " " + hexd(evalR(q, A));
      v.ufs.push_back(l + " = " + hexd(p.second));
    }
    viols.push_back(v);
    violLabels.insert(label);
  }
  void complete(State& s, Assign& A) { // extend a sliced model by the witness of the path
    if (s.wit) { for (auto& p : s.wit->r) A.r.emplace(p.first, p.second); for (auto& p : s.wit->v) A.v.emplace(p.first, p.second); }
    else {
      bool missing = false;
      for (auto& in : s.inputs) if (in.kind != 'c' && (in.kind == 'r' ? !A.r.count(in.t) : !A.v.count(in.t))) missing = true;
      if (missing) {
        Assign B;
        if (!s.pc.empty() && S.check(s.pc, 3000, &B) == z3::sat) { for (auto& p : B.r) A.r.emplace(p.first, p.second); for (auto& p : B.v) A.v.emplace(p.first, p.second); }
      }
    }
    A.mr.clear(); A.mv.clear();
  }
  void doAssert(State& s, T goal, const std::string& label) {
    asserts[label]++;
    if (goal == TM.tt) { S.st.folded++; return; }
    if (cexPerLabel[label] >= 3) return;
    for (T p : s.pc) if (p == goal) { S.st.folded++; return; }
    std::vector<T> pc = sliceT(s.pc, goal);
    Assign A;
    Res r = S.decide(pc, goal, A);
    if (cfg.verbose && r != Res::Valid) std::cerr << "[assert] " << label << " -> " << (r == Res::Cex ? "CEX" : "UNKNOWN") << " " << show(goal, 8) << "\n";
    if (r == Res::Cex) {
      cexPerLabel[label]++;
      complete(s, A);
      report(s, label, "assert", A);
    } else if (r == Res::Unknown) unknownAsserts[label]++;
  }
  void pathError(State& s, const std::string& what, const std::string& kind) {
    // abnormal end of a feasible path
    std::string loc;
    for (auto it = s.st.rbegin(); it != s.st.rend() && loc.size() < 400; ++it) loc += " < " + demangle(it->f->getName().str()).substr(0, 90);
    std::string label = kind + ": " + what;
    asserts[kind]++;
    if (cexPerLabel[label] >= 2) return;
    Assign A;
    if (s.wit) A = *s.wit;
    else if (!s.pc.empty()) {
      auto r = S.check(s.pc, 10000, &A);
      if (r == z3::unsat) return;
      if (r == z3::unknown) { if (!S.guess(s.pc, A, 3000)) { unknownAsserts[label]++; return; } }
    }
    cexPerLabel[label]++;
    A.mr.clear(); A.mv.clear();
    report(s, label, kind, A, loc);
  }
  static std::string demangle(const std::string& n) {
    int st; char* p = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (!p) return n;
    std::string r = p; free(p); return r;
  }
  // ------------------------------------------------------------ calls
  void pushFrame(State& s, Function* F, const std::vector<Val>& args, CallBase* cb) {
    if (s.st.size() > 400) throw Unsupported("call depth");
    Frame f;
    f.f = F; f.bb = &F->getEntryBlock(); f.it = f.bb->begin(); f.call = cb;
    f.regs.resize(nslots(F));
    for (size_t i = 0; i < F->arg_size(); ++i) f.regs[i] = args[i];
    for (size_t i = F->arg_size(); i < args.size(); ++i) f.varargs.push_back(args[i]);
    s.st.push_back(std::move(f));
    fnCount[F->getName().str()]++;
  }
  void gotoBB(State& s, BasicBlock* to) {
    Frame& f = s.st.back();
    f.prev = f.bb; f.bb = to; f.it = to->begin();
    // phis in parallel
    std::vector<std::pair<const Value*, Val>> ph;
    while (auto* p = dyn_cast<PHINode>(&*f.it)) {
      ph.push_back({p, get(s, p->getIncomingValueForBlock(f.prev))});
      ++f.it;
    }
    for (auto& x : ph) set(s, x.first, x.second);
  }
  void finishCall(State& s, CallBase* cb, Val ret) { // continue after the call in the top frame
    if (!cb->getType()->isVoidTy()) set(s, cb, ret);
    if (auto* inv = dyn_cast<InvokeInst>(cb)) gotoBB(s, inv->getNormalDest());
    else ++s.st.back().it;
  }
  void killFrame(State& s) {
    for (uint64_t a : s.st.back().allocas) { auto it = s.mem.find(a); if (it != s.mem.end()) s.mem.erase(it); }
    s.st.pop_back();
  }
  // type matching of exceptions
  bool tiMatch(State& s, uint64_t thrown, uint64_t want) {
    if (!want) return true;
    for (int i = 0; i < 8; ++i) {
      if (thrown == want) return true;
      auto g = gAt.find(thrown);
      if (g == gAt.end()) return false;
      // names equal?
      auto gw = gAt.find(want);
      if (gw != gAt.end() && gw->second->getName() == g->second->getName()) return true;
      const GlobalVariable* G = g->second;
      std::string n = G->getName().str();
      if (!G->hasInitializer()) {
        // library exception hierarchy
        static const std::map<std::string, std::string> base = {
          {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
          {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
          {"_ZTISt8bad_cast", "_ZTISt9exception"}};
        auto b = base.find(n);
        if (b == base.end()) return false;
        const GlobalVariable* B = M.getNamedGlobal(b->second);
        if (!B) return false;
        thrown = gaddr[B];
        continue;
      }
      if (auto* cs = dyn_cast<ConstantStruct>(G->getInitializer())) {
        if (cs->getNumOperands() < 3) return false;
        if (cs->getNumOperands() == 3) { Val v = constVal(cs->getOperand(2)); thrown = v.u; continue; }
        // multiple bases
        for (unsigned k = 4; k + 1 < cs->getNumOperands() + 1; k += 2) { Val v = constVal(cs->getOperand(k)); if (v.w == 64 && tiMatch(s, v.u, want)) return true; }
      }
      return false;
    }
    return false;
  }
  void unwind(State& s) { // s.exc / s.excType set; pop to next invoke
    while (true) {
      if (s.st.size() == 1) throw PathEnd("uncaught exception of type " + excName(s));
      CallBase* cb = s.st.back().call;
      killFrame(s);
      if (s.st.empty()) throw PathEnd("uncaught exception of type " + excName(s));
      if (cb && isa<InvokeInst>(cb)) {
        gotoBB(s, cast<InvokeInst>(cb)->getUnwindDest());
        return;
      }
    }
  }
  void raise(State& s, CallBase* cb) { // raise at a call in the top frame
    if (cb && isa<InvokeInst>(cb)) { gotoBB(s, cast<InvokeInst>(cb)->getUnwindDest()); return; }
    unwind(s);
  }
  std::string excName(State& s) {
    auto g = gAt.find(s.excType);
    return g == gAt.end() ? "?" : demangle(g->second->getName().str());
  }
  std::string cstr(State& s, uint64_t a) {
    std::string r;
    for (int i = 0; i < 300; ++i) {
      uint64_t off; Obj* o = find(s, a + i, 1, false, off);
      if (o->st[off] != 1) return r;
      if (!o->b[off]) break;
      r += (char)o->b[off];
    }
    return r;
  }
  std::string uniq(State& s, const std::string& n) { int k = s.cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }

  static Type* i8(LLVMContext& c) { return Type::getInt8Ty(c); }

  Val binReal(const std::string& f, const Val& a, const Val& b) {
    T x = realOf(a), y = realOf(b);
    if (f == "fmin" || f == "minnum") { if (x == TM.nan_) return Val::R(y); if (y == TM.nan_) return Val::R(x); return Val::R(TM.ite(TM.rlt(y, x), y, x)); }
    if (f == "fmax" || f == "maxnum") { if (x == TM.nan_) return Val::R(y); if (y == TM.nan_) return Val::R(x); return Val::R(TM.ite(TM.rlt(x, y), y, x)); }
    throw Unsupported(f);
  }
  T mySqrt(State& s, T x) {
    T o;
    if (!TM.isRC(x) && S.perfectSqrt(x, [&](T a) { return a->op == Op::RSqrt || (a->op == Op::RVar && s.pcset.count(TM.rlt(TM.rzero, a))); }, o)) return o;
    return TM.rsqrt(x);
  }
  // the largest integer <= x/y if the path condition determines it (y > 0 known)
  T knownFloor(State& s, T x, T y) {
    if ((TM.isRC(x) && TM.isRC(y)) || x->op == Op::RSpecial || y->op == Op::RSpecial) return nullptr;
    std::shared_ptr<Assign> w;
    if (!TM.isRC(y) && mayBe(s, TM.rle(y, TM.rzero), w)) return nullptr;
    double k;
    if (s.wit) k = std::floor(evalR(x, *s.wit) / evalR(y, *s.wit));
    else { Assign A; std::vector<T> q = sliceT(s.pc, TM.radd(x, y)); if (q.empty() || S.check(q, 5000, &A) != z3::sat) return nullptr; k = std::floor(evalR(x, A) / evalR(y, A)); }
    if (!(std::fabs(k) < 1e6)) return nullptr;
    if (mayBe(s, TM.rlt(x, TM.rmul(TM.reald(k), y)), w) || mayBe(s, TM.rle(TM.rmul(TM.reald(k + 1), y), x), w)) return nullptr;
    return TM.reald(k);
  }
  T floorOf(State& s, T x, T y) { // floor(x/y)
    if (T k = knownFloor(s, x, y)) return k;
    return TM.rfloor(TM.rdiv(x, y));
  }
  T truncOf(State& s, T x, T y) {
    if (TM.isRC(x) && TM.isRC(y)) return TM.rtrunc(TM.rdiv(x, y));
    std::shared_ptr<Assign> w;
    if (T k = knownFloor(s, x, y)) if (k->dbl >= 0) return k;
    if (T k = knownFloor(s, TM.rneg(x), y)) if (k->dbl >= 0) return TM.rneg(k);
    return TM.rtrunc(TM.rdiv(x, y));
  }
  Val libm(State& s, const std::string& n, std::vector<Val>& a) {
    T x = realOf(a[0]);
    if (n == "sqrt") return Val::R(mySqrt(s, x));
    if (n == "fabs") return Val::R(TM.rabs(x));
    if (n == "floor") return Val::R(floorOf(s, x, TM.rone));
    if (n == "ceil") return Val::R(TM.rneg(floorOf(s, TM.rneg(x), TM.rone)));
    if (n == "trunc") return Val::R(truncOf(s, x, TM.rone));
    if (n == "round") return Val::R(TM.ite(TM.rlt(x, TM.rzero), TM.rceil(TM.radd(x, TM.reald(-0.5))), TM.rfloor(TM.radd(x, TM.reald(0.5)))));
    if (n == "hypot") { T y = realOf(a[1]); return Val::R(mySqrt(s, TM.radd(TM.rmul(x, x), TM.rmul(y, y)))); }
    if (n == "fmod") {
      T y = realOf(a[1]);
      return Val::R(TM.rsub(x, TM.rmul(y, truncOf(s, x, y))));
    }
    if (n == "copysign") { T y = realOf(a[1]); T m = TM.rabs(x); return Val::R(TM.ite(TM.rlt(y, TM.rzero), TM.rneg(m), m)); }
    if (n == "fma" || n == "fmuladd") return Val::R(TM.radd(TM.rmul(x, realOf(a[1])), realOf(a[2])));
    if (n == "pow") {
      T y = realOf(a[1]);
      if (TM.isRC(y)) {
        if (*y->q == 0) return Val::R(TM.rone);
        if (*y->q == mpq_class(1, 2)) return Val::R(mySqrt(s, x));
        if (y->q->get_den() == 1 && abs(*y->q) <= 6) {
          long e = y->q->get_num().get_si(); T r = TM.rone;
          for (long i = 0; i < std::abs(e); ++i) r = TM.rmul(r, x);
          return Val::R(e < 0 ? TM.rdiv(TM.rone, r) : r);
        }
      }
      if (TM.isRC(x) && TM.isRC(y)) return Val::R(TM.reald(std::pow(x->dbl, y->dbl)));
      if (x == TM.rone) return Val::R(TM.rone);
      return Val::R(TM.ruf("pow", {x, y}));
    }
    std::vector<T> as;
    bool c = true;
    for (auto& v : a) { T q = realOf(v); as.push_back(q); c &= TM.isRC(q); if (q->op == Op::RSpecial) throw Unsupported(n + " of inf/nan"); }
    if (n == "sin" && x == TM.rzero) return Val::R(TM.rzero);
    if (n == "cos" && x == TM.rzero) return Val::R(TM.rone);
    if (c && isMath(n)) { std::vector<double> d; for (T q : as) d.push_back(q->dbl); return Val::R(TM.reald(ufValue(n, d))); }
    return Val::R(TM.ruf(n, as));
  }
  Val mapAgg(const std::vector<Val>& args, unsigned n, const std::function<Val(std::vector<Val>&)>& f) {
    // element-wise application over vectors of length n
    std::vector<Val> r;
    for (unsigned i = 0; i < n; ++i) {
      std::vector<Val> a;
      for (auto& x : args) a.push_back(x.k == Val::Agg ? (*x.a)[i] : x);
      r.push_back(f(a));
    }
    return Val::A(r);
  }
  // returns true when handled
  bool intrinsic(State& s, CallBase* cb, Function* F, std::vector<Val>& args) {
    StringRef n = F->getName();
    Type* rt = cb->getType();
    auto fin = [&](Val v) { finishCall(s, cb, v); return true; };
    if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.var.annotation") || n.starts_with("llvm.va_end") || n.starts_with("llvm.stackrestore"))
      return fin(Val());
    if (n.starts_with("llvm.stacksave")) return fin(Val::I(0, 64));
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) {
      uint64_t d = concretize(s, args[0]), r = concretize(s, args[1]), l = concretize(s, args[2]);
      copyMem(s, d, r, l);
      return fin(Val());
    }
    if (n.starts_with("llvm.memset")) {
      uint64_t d = concretize(s, args[0]), l = concretize(s, args[2]);
      memSet(s, d, args[1], l);
      return fin(Val());
    }
    if (n.starts_with("llvm.objectsize")) return fin(Val::I(~0ull, rt->getIntegerBitWidth()));
    if (n.starts_with("llvm.expect")) return fin(args[0]);
    if (n.starts_with("llvm.is.constant")) return fin(Val::I(0, 1));
    if (n.starts_with("llvm.launder") || n.starts_with("llvm.strip.invariant")) return fin(args[0]);
    if (n.starts_with("llvm.invariant.start")) return fin(Val::I(0, 64));
    if (n.starts_with("llvm.trap") || n.starts_with("llvm.ubsantrap")) throw PathEnd("trap");
    if (n.starts_with("llvm.eh.typeid.for")) return fin(Val::I(typeId(concretize(s, args[0])), 32));
    if (n.starts_with("llvm.threadlocal.address")) return fin(args[0]);
    static const std::map<std::string, std::string> fp = {
      {"llvm.sqrt", "sqrt"}, {"llvm.fabs", "fabs"}, {"llvm.floor", "floor"}, {"llvm.ceil", "ceil"}, {"llvm.trunc", "trunc"}, {"llvm.round", "round"}, {"llvm.copysign", "copysign"}, {"llvm.fma", "fma"}, {"llvm.fmuladd", "fma"},
      {"llvm.pow", "pow"}, {"llvm.exp", "exp"}, {"llvm.log", "log"}, {"llvm.log10", "log10"}, {"llvm.sin", "sin"}, {"llvm.cos", "cos"}, {"llvm.minnum", "fmin"}, {"llvm.maxnum", "fmax"}};
    std::string base = n.str();
    auto dot = base.rfind('.');
    if (dot != std::string::npos) base = base.substr(0, dot);
    auto it = fp.find(base);
    if (it != fp.end()) {
      auto f = [&](std::vector<Val>& a) { return it->second == "fmin" || it->second == "fmax" ? binReal(it->second, a[0], a[1]) : libm(s, it->second, a); };
      if (auto* vt = dyn_cast<FixedVectorType>(rt)) return fin(mapAgg(args, vt->getNumElements(), f));
      return fin(f(args));
    }
    if (n.starts_with("llvm.powi")) {
      int64_t e = sx(concretize(s, args[1]), 32);
      T x = realOf(args[0]), r = TM.rone;
      for (int64_t i = 0; i < std::abs(e); ++i) r = TM.rmul(r, x);
      return fin(Val::R(e < 0 ? TM.rdiv(TM.rone, r) : r));
    }
    auto mm = [&](bool sgn, bool mx) {
      auto f = [&](std::vector<Val>& a) { T x = bvOf(a[0]), y = bvOf(a[1]); T c = TM.vlt(sgn, x, y); return Val::S(mx ? TM.ite(c, y, x) : TM.ite(c, x, y)); };
      if (auto* vt = dyn_cast<FixedVectorType>(rt)) return mapAgg(args, vt->getNumElements(), f);
      return f(args);
    };
    if (n.starts_with("llvm.smax")) return fin(mm(true, true));
    if (n.starts_with("llvm.smin")) return fin(mm(true, false));
    if (n.starts_with("llvm.umax")) return fin(mm(false, true));
    if (n.starts_with("llvm.umin")) return fin(mm(false, false));
    if (n.starts_with("llvm.abs")) { T x = bvOf(args[0]); return fin(Val::S(TM.ite(TM.vlt(true, x, TM.vconst(0, x->w)), TM.vneg(x), x))); }
    if (n.starts_with("llvm.usub.sat")) { T x = bvOf(args[0]), y = bvOf(args[1]); return fin(Val::S(TM.ite(TM.vlt(false, x, y), TM.vconst(0, x->w), TM.vsub(x, y)))); }
    if (n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz") || n.starts_with("llvm.ctpop")) {
      uint64_t x = concretize(s, args[0]); unsigned w = args[0].w; uint64_t r;
      if (n.starts_with("llvm.ctpop")) r = __builtin_popcountll(x);
      else if (!x) r = w;
      else r = n.starts_with("llvm.ctlz") ? __builtin_clzll(x) - (64 - w) : __builtin_ctzll(x);
      return fin(Val::I(r, w));
    }
    if (n.starts_with("llvm.fshl")) {
      if (args[2].k == Val::Int) { unsigned w = args[0].w; uint64_t k = args[2].u % w; T x = bvOf(args[0]), y = bvOf(args[1]); if (!k) return fin(args[0]); return fin(Val::S(TM.vbin(Op::VOr, TM.vbin(Op::VShl, x, TM.vconst(k, w)), TM.vbin(Op::VLShr, y, TM.vconst(w - k, w))))); }
    }
    if (n.starts_with("llvm.bswap")) { uint64_t x = concretize(s, args[0]); unsigned w = args[0].w; return fin(Val::I(__builtin_bswap64(x) >> (64 - w), w)); }
    if (n.starts_with("llvm.umul.with.overflow") || n.starts_with("llvm.uadd.with.overflow") || n.starts_with("llvm.smul.with.overflow") || n.starts_with("llvm.sadd.with.overflow") || n.starts_with("llvm.ssub.with.overflow") || n.starts_with("llvm.usub.with.overflow")) {
      uint64_t x = concretize(s, args[0]), y = concretize(s, args[1]); unsigned w = args[0].w;
      bool sg = n[5] == 's'; char op = n[7];
      __int128 X = sg ? (__int128)sx(x, w) : (__int128)x, Y = sg ? (__int128)sx(y, w) : (__int128)y, R;
      if (n.contains("mul")) R = X * Y; else if (n.contains("add")) R = X + Y; else R = X - Y;
      (void)op;
      uint64_t r = (uint64_t)R & maskw(w);
      bool ov = sg ? (__int128)sx(r, w) != R : (__int128)r != R;
      return fin(Val::A({Val::I(r, w), Val::I(ov, 1)}));
    }
    if (n.starts_with("llvm.vector.reduce.")) {
      auto& v = *args.back().a;
      StringRef op = n.substr(strlen("llvm.vector.reduce."));
      if (op.starts_with("or") || op.starts_with("and") || op.starts_with("add") || op.starts_with("mul") || op.starts_with("xor")) {
        T r = bvOf(v[0]);
        for (size_t i = 1; i < v.size(); ++i) { T y = bvOf(v[i]); r = r->w == 1 ? (op.starts_with("or") ? TM.bor(r, y) : op.starts_with("and") ? TM.band(r, y) : TM.bxor(r, y)) : TM.vbin(op.starts_with("or") ? Op::VOr : op.starts_with("and") ? Op::VAnd : op.starts_with("add") ? Op::VAdd : op.starts_with("mul") ? Op::VMul : Op::VXor, r, y); }
        return fin(Val::S(r));
      }
      if (op.starts_with("fadd") || op.starts_with("fmul")) { T r = realOf(args[0]); for (auto& x : v) r = op.starts_with("fadd") ? TM.radd(r, realOf(x)) : TM.rmul(r, realOf(x)); return fin(Val::R(r)); }
      if (op.starts_with("fmin") || op.starts_with("fmax")) { Val r = v[0]; for (size_t i = 1; i < v.size(); ++i) r = binReal(op.starts_with("fmin") ? "fmin" : "fmax", r, v[i]); return fin(r); }
    }
    if (n == "llvm.x86.sse2.min.pd" || n == "llvm.x86.sse2.max.pd") {
      bool mx = n.contains("max");
      return fin(mapAgg(args, 2, [&](std::vector<Val>& a) { T x = realOf(a[0]), y = realOf(a[1]); return Val::R(mx ? TM.ite(TM.rlt(y, x), x, y) : TM.ite(TM.rlt(x, y), x, y)); }));
    }
    if (n == "llvm.x86.sse2.maskmov.dqu") {
      uint64_t p = concretize(s, args[2]);
      const auto& d = *args[0].a; const auto& m = *args[1].a;
      for (unsigned g = 0; g < 16; g += 8) {
        // condition of every byte
        std::vector<T> cs;
        bool same = true;
        for (unsigned j = 0; j < 8; ++j) {
          const Val& e = m[g + j];
          T c;
          if (e.k == Val::Int) c = TM.boolc((e.u >> 7) & 1);
          else if (e.k == Val::Sym && TM.isBAll(e.t)) c = e.t->a[1]->u ? e.t->a[0] : TM.bnot(e.t->a[0]);
          else if (e.k == Val::Sym) c = TM.vextract(e.t, 7, 1);
          else throw Unsupported("maskmov mask");
          cs.push_back(c);
          same = same && c == cs[0];
        }
        if (same) {
          if (cs[0] == TM.ff) continue;
          Type* dt = Type::getDoubleTy(ctx);
          Val x = joinPieces(d, g, 8, 8, dt);
          if (cs[0] != TM.tt && !branch(s, cs[0])) continue;
          store(s, p + g, dt, x);
        } else {
          for (unsigned j = 0; j < 8; ++j) { if (cs[j] == TM.ff) continue; if (cs[j] != TM.tt) throw Unsupported("maskmov"); store(s, p + g + j, i8(ctx), d[g + j]); }
        }
      }
      return fin(Val());
    }
    if (n == "llvm.x86.sse2.movmsk.pd") {
      T r = TM.vconst(0, 32);
      for (int i = 0; i < 2; ++i) {
        const Val& e = (*args[0].a)[i];
        T b;
        if (e.k == Val::Sym && TM.isBAll(e.t)) b = e.t->a[1]->u ? e.t->a[0] : TM.bnot(e.t->a[0]);
        else if (e.k == Val::Int) b = TM.boolc(e.u >> 63);
        else if (e.k == Val::Real && e.t->op == Op::RConst) { double d = e.t->dbl; uint64_t u; memcpy(&u, &d, 8); b = TM.boolc(u >> 63); }
        else if (e.k == Val::Real) b = TM.rlt(e.t, TM.rzero);
        else throw Unsupported("movmsk");
        r = TM.vadd(r, TM.ite(b, TM.vconst(1u << i, 32), TM.vconst(0, 32)));
      }
      return fin(Val::S(r));
    }
    throw Unsupported("intrinsic " + n.str());
  }
  uint64_t typeId(uint64_t ti) { auto& x = typeIds[std::to_string(ti)]; if (!x) x = typeIds.size(); return x; }
  void memSet(State& s, uint64_t d, const Val& v, uint64_t l) {
    if (!l) return;
    uint64_t off; Obj* o = find(s, d, l, true, off);
    clearRange(*o, off, l);
    if (v.k == Val::Int) { for (uint64_t i = 0; i < l; ++i) { o->b[off + i] = v.u; o->st[off + i] = 1; } }
    else if (v.k == Val::Undef) { for (uint64_t i = 0; i < l; ++i) o->st[off + i] = 0; }
    else for (uint64_t i = 0; i < l; ++i) { o->sym[off + i] = {1, v}; o->st[off + i] = 2; }
  }
  Val alloc(State& s, const Val& size, uint64_t align) {
    uint64_t n = concretize(s, size);
    if (n > (1u << 26)) throw PathEnd("huge allocation " + std::to_string(n));
    auto o = newObj(s, n, "heap" + std::to_string(s.next), true, align);
    return Val::I(o->base, 64);
  }
  void freeObj(State& s, uint64_t p) {
    if (!p) return;
    auto it = s.mem.find(p);
    if (it == s.mem.end()) throw PathEnd(s.freed.count(p) ? "double free" : "free of a wild pointer");
    if (!it->second->heap) throw PathEnd("free of non-heap object");
    if (!it->second->alive) throw PathEnd("double free");
    auto o = std::make_shared<Obj>(*it->second);
    o->alive = false; o->b.clear(); o->st.clear(); o->sym.clear();
    o->b.shrink_to_fit();
    it->second = o;
  }
  // external functions; returns true when handled
  bool external(State& s, CallBase* cb, Function* F, std::vector<Val>& a) {
    std::string n = F->getName().str();
    auto fin = [&](Val v) { finishCall(s, cb, v); return true; };
    // ---- harness interface
    if (n == "vp_real") {
      std::string nm = uniq(s, cstr(s, concretize(s, a[0])));
      T t = TM.rvar(nm);
      s.inputs.push_back({nm, 'r', t, 0});
      return fin(Val::R(t));
    }
    if (n == "vp_int") {
      std::string nm = uniq(s, cstr(s, concretize(s, a[0])));
      T t = TM.vvar(nm, 64);
      s.inputs.push_back({nm, 'i', t, 0});
      T lo = bvOf(a[1]), hi = bvOf(a[2]);
      T c = TM.band(TM.bnot(TM.vlt(true, t, lo)), TM.bnot(TM.vlt(true, hi, t)));
      std::shared_ptr<Assign> w;
      if (!mayBe(s, c, w)) throw PathStop("empty range");
      addPc(s, c, w);
      return fin(Val::S(t));
    }
    if (n == "vp_choice") {
      std::string nm = cstr(s, concretize(s, a[0]));
      int64_t k = sx(concretize(s, a[1]), 32);
      if (k <= 0) throw PathStop("empty choice");
      auto pit = cfg.params.find("choice:" + nm);
      nm = uniq(s, nm);
      State base = s;
      for (int64_t i = k - 1; i >= 0; --i) {
        if (pit != cfg.params.end() && pit->second != i) continue;
        State o = i == 0 || pit != cfg.params.end() ? std::move(base) : base;
        o.inputs.push_back({nm, 'c', nullptr, (uint64_t)i});
        std::swap(o, s);
        finishCall(s, cb, Val::I(i, 32));
        std::swap(o, s);
        work.push_back(std::move(o));
        if (i != 0) forks++;
      }
      throw ForkAgain();
    }
    if (spec && (n.rfind("vp_", 0) == 0) && n != "vp_param" && n != "vp_sel" && n.rfind("vp_uf", 0) != 0) throw Unsupported("speculation meets " + n);
    if (n == "vp_param") {
      std::string nm = cstr(s, concretize(s, a[0]));
      auto it = cfg.params.find(nm);
      return fin(Val::I(it == cfg.params.end() ? a[1].u : (uint64_t)it->second, 64));
    }
    if (n == "vp_assume") {
      T c = bvOf(a[0]); if (c->w != 1) c = TM.bnot(TM.veq(c, TM.vconst(0, c->w)));
      assumeT(s, c);
      return fin(Val());
    }
    if (n == "vp_assert") {
      T c = bvOf(a[0]); if (c->w != 1) c = TM.bnot(TM.veq(c, TM.vconst(0, c->w)));
      std::string l = cstr(s, concretize(s, a[1]));
      doAssert(s, c, l);
      if (c == TM.ff) throw PathStop("assertion failed");
      return fin(Val());
    }
    if (n == "vp_eq" || n == "vp_le") {
      T x = realOf(a[0]), y = realOf(a[1]);
      std::string l = cstr(s, concretize(s, a[2]));
      T g;
      if (n == "vp_eq") { g = TM.req(x, y); if (x->hasSpecial || y->hasSpecial) g = TM.bor(g, TM.band(TM.isnanT(x), TM.isnanT(y))); }
      else g = TM.rle(x, y);
      doAssert(s, g, l);
      return fin(Val());
    }
    if (n == "vp_sel") {
      T c = bvOf(a[0]); if (c->w != 1) c = TM.bnot(TM.veq(c, TM.vconst(0, c->w)));
      return fin(Val::R(TM.ite(c, realOf(a[1]), realOf(a[2]))));
    }
    if (n == "vp_cover") { covers[cstr(s, concretize(s, a[0]))] += reach(s); return fin(Val()); }
    if (n == "vp_stop") throw PathStop("vp_stop");
    if (n == "vp_fail") { std::string l = cstr(s, concretize(s, a[0])); asserts[l]++; Assign A; failHere(s, l); throw PathStop("failed"); }
    if (n == "vp_uf1" || n == "vp_uf2" || n == "vp_uf3" || n == "vp_uf4" || n == "vp_uf5" || n == "vp_uf6") {
      std::vector<T> as;
      for (size_t i = 1; i < a.size(); ++i) as.push_back(realOf(a[i]));
      return fin(Val::R(TM.ruf(cstr(s, concretize(s, a[0])), as)));
    }
    if (n == "vp_print_real") { std::cerr << "[print] " << cstr(s, concretize(s, a[0])) << " = " << show(realOf(a[1]), 12) << "\n"; return fin(Val()); }
    if (n == "vp_print_int") { std::cerr << "[print] " << cstr(s, concretize(s, a[0])) << " = " << show(bvOf(a[1]), 12) << "\n"; return fin(Val()); }
    if (n == "vp_is_symbolic") return fin(Val::I(1, 32));
    if (n == "vp_live") { // number of bytes of the live heap object containing p from p on, or -1
      uint64_t p = concretize(s, a[0]); auto it = s.mem.upper_bound(p);
      if (it == s.mem.begin()) return fin(Val::I(~0ull, 64)); --it;
      Obj* o = it->second.get();
      if (!o->alive || p - o->base > o->size) return fin(Val::I(~0ull, 64));
      return fin(Val::I(o->size - (p - o->base), 64));
    }
    // ---- allocation
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t") return fin(alloc(s, a[0], 16));
    if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") return fin(alloc(s, a[0], concretize(s, a[1])));
    if (n == "aligned_alloc") return fin(alloc(s, a[1], concretize(s, a[0])));
    if (n == "posix_memalign") { Val p = alloc(s, a[2], concretize(s, a[1])); store(s, concretize(s, a[0]), PointerType::get(ctx, 0), p); return fin(Val::I(0, 32)); }
    if (n == "calloc") { Val p = alloc(s, Val::I(concretize(s, a[0]) * concretize(s, a[1]), 64), 16); uint64_t off; Obj* o = find(s, p.u, 0, true, off); std::fill(o->st.begin(), o->st.end(), 1); return fin(p); }
    if (n == "realloc") {
      uint64_t p = concretize(s, a[0]), sz = concretize(s, a[1]);
      Val q = alloc(s, Val::I(sz, 64), 16);
      if (p) { copyMem(s, q.u, p, std::min<uint64_t>(sz, s.mem.at(p)->size)); freeObj(s, p); }
      return fin(q);
    }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvSt11align_val_t" || n == "_ZdaPvSt11align_val_t") { freeObj(s, concretize(s, a[0])); return fin(Val()); }
    // ---- memory / string
    if (n == "memcpy" || n == "memmove") { copyMem(s, concretize(s, a[0]), concretize(s, a[1]), concretize(s, a[2])); return fin(a[0]); }
    if (n == "memset") { memSet(s, concretize(s, a[0]), Val::S(TM.vextract(bvOf(a[1]), 0, 8)), concretize(s, a[2])); return fin(a[0]); }
    if (n == "strlen") { uint64_t p = concretize(s, a[0]); uint64_t k = 0; while (true) { Val v = load(s, p + k, i8(ctx)); if (concretize(s, v) == 0) break; ++k; } return fin(Val::I(k, 64)); }
    if (n == "memcmp" || n == "bcmp" || n == "strcmp" || n == "strncmp") {
      uint64_t p = concretize(s, a[0]), q = concretize(s, a[1]), l = n == "strcmp" ? 1000000 : concretize(s, a[2]);
      int64_t r = 0;
      for (uint64_t i = 0; i < l; ++i) {
        uint64_t x = concretize(s, load(s, p + i, i8(ctx))), y = concretize(s, load(s, q + i, i8(ctx)));
        if (x != y) { r = x < y ? -1 : 1; break; }
        if (n[0] == 's' && !x) break;
      }
      return fin(Val::I((uint64_t)r, 32));
    }
    if (n == "memchr") { uint64_t p = concretize(s, a[0]), c = concretize(s, a[1]) & 255, l = concretize(s, a[2]); for (uint64_t i = 0; i < l; ++i) if (concretize(s, load(s, p + i, i8(ctx))) == c) return fin(Val::I(p + i, 64)); return fin(Val::I(0, 64)); }
    // ---- libm
    static const std::set<std::string> lm = {"sqrt", "fabs", "floor", "ceil", "trunc", "round", "hypot", "fmod", "copysign", "pow", "exp", "log", "log10", "sin", "cos", "tan", "atan", "atan2", "acos", "asin", "tanh", "cbrt", "fma"};
    if (lm.count(n)) return fin(libm(s, n, a));
    if (n == "fmin" || n == "fmax") return fin(binReal(n, a[0], a[1]));
    // ---- exceptions
    if (n == "__cxa_allocate_exception") return fin(alloc(s, a[0], 16));
    if (n == "__cxa_free_exception") { freeObj(s, concretize(s, a[0])); return fin(Val()); }
    if (n == "__cxa_throw") { s.exc = a[0]; s.excType = concretize(s, a[1]); raise(s, cb); return true; }
    if (n == "__cxa_begin_catch") { s.caught.push_back({s.exc.u, s.excType}); return fin(a[0]); }
    if (n == "__cxa_get_exception_ptr") return fin(a[0]);
    if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return fin(Val()); }
    if (n == "__cxa_rethrow") { if (s.caught.empty()) throw PathEnd("rethrow without exception"); s.exc = Val::I(s.caught.back().first, 64); s.excType = s.caught.back().second; raise(s, cb); return true; }
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) {
      std::string ty = n.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range" : n.find("length_error") != std::string::npos ? "_ZTISt12length_error" : n.find("logic_error") != std::string::npos ? "_ZTISt11logic_error" : n.find("bad_alloc") != std::string::npos || n.find("bad_array") != std::string::npos ? "_ZTISt9bad_alloc" : "_ZTISt13runtime_error";
      const GlobalVariable* B = M.getNamedGlobal(ty);
      if (n.find("bad_optional") != std::string::npos || !B) throw PathEnd("exception " + demangle(n));
      s.exc = alloc(s, Val::I(64, 64), 16); s.excType = gaddr[B]; raise(s, cb); return true;
    }
    static const std::set<std::string> exCtor = {"_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC2EPKc",
      "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"};
    if (exCtor.count(n) || n == "_ZNSt13runtime_errorD1Ev" || n == "_ZNSt11logic_errorD1Ev" || n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt13runtime_errorD2Ev" || n == "_ZNSt11logic_errorD2Ev" || n == "_ZNSt12out_of_rangeD1Ev" || n == "_ZNSt16invalid_argumentD1Ev") return fin(Val());
    if (n == "__assert_fail") throw PathEnd("assertion failed: " + cstr(s, concretize(s, a[0])));
    if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "exit") throw PathEnd("call of " + demangle(n));
    // ---- misc runtime
    if (n == "__cxa_atexit" || n == "atexit") return fin(Val::I(0, 32));
    if (n == "__cxa_guard_acquire") { Val g = load(s, concretize(s, a[0]), i8(ctx)); return fin(Val::I(concretize(s, g) == 0, 32)); }
    if (n == "__cxa_guard_release") { store(s, concretize(s, a[0]), i8(ctx), Val::I(1, 8)); return fin(Val()); }
    if (n == "__cxa_guard_abort") return fin(Val());
    if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return fin(Val());
    if (n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "_ZNSt6chrono3_V212system_clock3nowEv") { int64_t k = s.cnt["!clock"]++; return fin(Val::I(1000000 * k, 64)); }
    if (n == "__errno_location") { auto g = s.mem.find(1); (void)g; if (!s.cnt.count("!errno")) { auto o = newObj(s, 8, "errno", false); std::fill(o->st.begin(), o->st.end(), 1); s.cnt["!errno"] = 1; errnoAddr = o->base; } return fin(Val::I(errnoAddr, 64)); }
    if (n == "puts" || n == "printf" || n == "putchar" || n == "fprintf" || n == "fputs") return fin(Val::I(0, 32));
    if (n == "__dynamic_cast") return fin(Val::I(dynCast(s, a), 64));
    if (n == "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_" || n.find("_Rb_tree") != std::string::npos) throw Unsupported("external " + n);
    if (n == "_ZNSt15__exception_ptr13exception_ptrC1EPv") return fin(Val());
    return false;
  }
  uint64_t errnoAddr = 0;
  uint64_t dynCast(State& s, std::vector<Val>& a) {
    uint64_t p = concretize(s, a[0]), dst = concretize(s, a[2]);
    if (!p) return 0;
    Type* pt = PointerType::get(ctx, 0);
    uint64_t vt = concretize(s, load(s, p, pt));
    uint64_t ti = concretize(s, load(s, vt - 8, pt));
    int64_t top = (int64_t)concretize(s, load(s, vt - 16, Type::getInt64Ty(ctx)));
    if (tiMatch(s, ti, dst)) return p + top;
    return 0;
  }
  long reach(State& s) {
    if (s.wit) return 1;
    Assign A;
    if (s.pc.empty()) return 1;
    if (S.guess(s.pc, A, 500)) { s.wit = std::make_shared<Assign>(A); return 1; }
    auto r = S.check(s.pc, 5000, &A);
    if (r == z3::sat && S.holds(s.pc, A)) s.wit = std::make_shared<Assign>(A);
    return r == z3::sat;
  }
  void failHere(State& s, const std::string& l) {
    if (cexPerLabel[l] >= 3) return;
    Assign A;
    if (s.wit) A = *s.wit;
    else if (!s.pc.empty()) {
      auto r = S.check(s.pc, 10000, &A);
      if (r == z3::unsat) return;
      if (r == z3::unknown && !S.guess(s.pc, A, 3000)) { unknownAsserts[l]++; return; }
    }
    cexPerLabel[l]++;
    A.mr.clear(); A.mv.clear();
    report(s, l, "assert", A);
  }
  void assumeT(State& s, T c) {
    if (c == TM.tt) return;
    if (c == TM.ff) throw PathStop("assume false");
    std::shared_ptr<Assign> w;
    if (!mayBe(s, c, w, 200)) throw PathStop("assume false"); // whether the path is empty is decided at its end (covers)
    addPc(s, c, w);
  }
  void doCall(State& s, CallBase* cb) {
    std::vector<Val> args;
    for (auto& x : cb->args()) args.push_back(get(s, x.get()));
    Function* F = cb->getCalledFunction();
    if (!F) {
      if (cb->isInlineAsm()) {
        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
        if (ia->getAsmString().empty()) { finishCall(s, cb, args.empty() ? Val() : args[0]); return; }
        throw Unsupported("inline asm " + ia->getAsmString());
      }
      Value* co = cb->getCalledOperand()->stripPointerCasts();
      if (auto* al = dyn_cast<GlobalAlias>(co)) co = al->getAliasee()->stripPointerCasts();
      F = dyn_cast<Function>(co);
      if (!F) {
        uint64_t p = concretize(s, get(s, cb->getCalledOperand()));
        auto it = fnAt.find(p);
        if (it == fnAt.end()) throw PathEnd("call through invalid function pointer " + std::to_string(p));
        F = it->second;
      }
    }
    if (F->isIntrinsic()) { intrinsic(s, cb, F, args); return; }
    // byval arguments
    for (unsigned i = 0; i < cb->arg_size(); ++i)
      if (cb->isByValArgument(i)) {
        Type* t = cb->getParamByValType(i);
        uint64_t n = DL.getTypeAllocSize(t);
        auto o = newObj(s, n, "byval", false);
        copyMem(s, o->base, concretize(s, args[i]), n);
        args[i] = Val::I(o->base, 64);
      }
    StringRef fnm = F->getName();
    bool hook = fnm.starts_with("vp_");
    if (hook || F->isDeclaration()) {
      if (external(s, cb, F, args)) return;
      if (F->isDeclaration()) {
        throw Unsupported("external function " + demangle(F->getName().str()));
      }
    }
    // library functions with IR that we prefer to model
    pushFrame(s, F, args, cb);
  }
  // ------------------------------------------------------------ instructions
  Val binop(State& s, unsigned opc, const Val& x, const Val& y, Type* ty) {
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
      std::vector<Val> r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(binop(s, opc, el(x, i, vt), el(y, i, vt), vt->getElementType()));
      return Val::A(r);
    }
    switch (opc) {
    case Instruction::FAdd: return Val::R(TM.radd(realOf(x), realOf(y)));
    case Instruction::FSub: return Val::R(TM.rsub(realOf(x), realOf(y)));
    case Instruction::FMul: return Val::R(TM.rmul(realOf(x), realOf(y)));
    case Instruction::FDiv: return Val::R(TM.rdiv(realOf(x), realOf(y)));
    case Instruction::FRem: { std::vector<Val> v{x, y}; return libm(s, "fmod", v); }
    default: break;
    }
    unsigned w = ty->getIntegerBitWidth();
    if (x.k == Val::Int && y.k == Val::Int && w <= 64) {
      uint64_t p = x.u, q = y.u; int64_t sp = sx(p, w), sq = sx(q, w);
      switch (opc) {
      case Instruction::Add: return Val::I(p + q, w);
      case Instruction::Sub: return Val::I(p - q, w);
      case Instruction::Mul: return Val::I(p * q, w);
      case Instruction::And: return Val::I(p & q, w);
      case Instruction::Or: return Val::I(p | q, w);
      case Instruction::Xor: return Val::I(p ^ q, w);
      case Instruction::Shl: return Val::I(q >= w ? 0 : p << q, w);
      case Instruction::LShr: return Val::I(q >= w ? 0 : p >> q, w);
      case Instruction::AShr: return Val::I((uint64_t)(sp >> std::min<uint64_t>(q, w - 1)), w);
      case Instruction::UDiv: if (!q) throw PathEnd("integer division by zero"); return Val::I(p / q, w);
      case Instruction::SDiv: if (!q) throw PathEnd("integer division by zero"); return Val::I((uint64_t)(sp / sq), w);
      case Instruction::URem: if (!q) throw PathEnd("integer division by zero"); return Val::I(p % q, w);
      case Instruction::SRem: if (!q) throw PathEnd("integer division by zero"); return Val::I((uint64_t)(sp % sq), w);
      }
    }
    if (w > 64) throw Unsupported("wide integer arithmetic");
    // bit tricks on doubles
    if (x.k == Val::Bits || y.k == Val::Bits) {
      const Val& b = x.k == Val::Bits ? x : y;
      const Val& o = x.k == Val::Bits ? y : x;
      uint64_t sign = 1ull << (w - 1);
      if (o.k == Val::Int) {
        if (opc == Instruction::And) { if (o.u == maskw(w)) return b; if (o.u == 0) return Val::I(0, w); if (o.u == sign - 1) return Val::B(TM.rabs(b.t), w); }
        if (opc == Instruction::Xor) { if (o.u == sign) return Val::B(TM.rneg(b.t), w); if (o.u == 0) return b; }
        if (opc == Instruction::Or) { if (o.u == sign) return Val::B(TM.rneg(TM.rabs(b.t)), w); if (o.u == 0) return b; }
        if (opc == Instruction::LShr && o.u == w - 1 && x.k == Val::Bits) return Val::S(TM.vzext(TM.rlt(b.t, TM.rzero), w));
      }
      if (opc == Instruction::And && o.k == Val::Sym && TM.isBAll(o.t)) {
        T c = o.t->a[1]->u ? o.t->a[0] : TM.bnot(o.t->a[0]);
        return Val::B(TM.ite(c, b.t, TM.rzero), w);
      }
      if (opc == Instruction::Or && o.k == Val::Bits) {
        T p = x.t, q = y.t;
        if (p->op == Op::RIte && q->op == Op::RIte && p->a[0] == q->a[0]) {
          if (p->a[2] == TM.rzero && q->a[1] == TM.rzero) return Val::B(TM.ite(p->a[0], p->a[1], q->a[2]), w);
          if (p->a[1] == TM.rzero && q->a[2] == TM.rzero) return Val::B(TM.ite(p->a[0], q->a[1], p->a[2]), w);
        }
        if (p == TM.rzero) return y;
        if (q == TM.rzero) return x;
      }
    }
    T p = bvOf(x), q = bvOf(y);
    if (w == 1) {
      switch (opc) {
      case Instruction::And: case Instruction::Mul: return Val::S(TM.band(p, q));
      case Instruction::Or: return Val::S(TM.bor(p, q));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::S(TM.bxor(p, q));
      default: throw Unsupported("i1 op");
      }
    }
    switch (opc) {
    case Instruction::Add: return Val::S(TM.vadd(p, q));
    case Instruction::Sub: return Val::S(TM.vsub(p, q));
    case Instruction::Mul: return Val::S(TM.vmul(p, q));
    case Instruction::And: return Val::S(TM.vbin(Op::VAnd, p, q));
    case Instruction::Or: return Val::S(TM.vbin(Op::VOr, p, q));
    case Instruction::Xor: return Val::S(TM.vbin(Op::VXor, p, q));
    case Instruction::Shl: return Val::S(TM.vbin(Op::VShl, p, q));
    case Instruction::LShr: return Val::S(TM.vbin(Op::VLShr, p, q));
    case Instruction::AShr: return Val::S(TM.vbin(Op::VAShr, p, q));
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      if (branch(s, TM.veq(q, TM.vconst(0, w)))) throw PathEnd("integer division by zero");
      return Val::S(TM.vbin(opc == Instruction::UDiv ? Op::VUDiv : opc == Instruction::SDiv ? Op::VSDiv : opc == Instruction::URem ? Op::VURem : Op::VSRem, p, q));
    }
    }
    throw Unsupported("binop");
  }
  Val el(const Val& v, unsigned i, FixedVectorType* vt) {
    if (v.k == Val::Agg) return (*v.a)[i];
    if (v.k == Val::Undef) return undefOf(vt->getElementType());
    throw Unsupported("vector element");
  }
  Val icmp(unsigned pred, const Val& x, const Val& y, Type* ty) {
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
      std::vector<Val> r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(icmp(pred, el(x, i, vt), el(y, i, vt), vt->getElementType()));
      return Val::A(r);
    }
    unsigned w = ty->isPointerTy() ? 64 : ty->getIntegerBitWidth();
    if (x.k == Val::Int && y.k == Val::Int) {
      int64_t a = sx(x.u, std::min(w, 64u)), b = sx(y.u, std::min(w, 64u)); bool r = false;
      switch (pred) {
      case CmpInst::ICMP_EQ: r = x.u == y.u; break;
      case CmpInst::ICMP_NE: r = x.u != y.u; break;
      case CmpInst::ICMP_ULT: r = x.u < y.u; break;
      case CmpInst::ICMP_ULE: r = x.u <= y.u; break;
      case CmpInst::ICMP_UGT: r = x.u > y.u; break;
      case CmpInst::ICMP_UGE: r = x.u >= y.u; break;
      case CmpInst::ICMP_SLT: r = a < b; break;
      case CmpInst::ICMP_SLE: r = a <= b; break;
      case CmpInst::ICMP_SGT: r = a > b; break;
      case CmpInst::ICMP_SGE: r = a >= b; break;
      }
      return Val::I(r, 1);
    }
    if (x.k == Val::Bits) {
      if (pred == CmpInst::ICMP_SLT && y.k == Val::Int && y.u == 0) return Val::S(TM.rlt(x.t, TM.rzero));
      if (pred == CmpInst::ICMP_SGT && y.k == Val::Int && y.u == maskw(w)) return Val::S(TM.bnot(TM.rlt(x.t, TM.rzero)));
      if (y.k == Val::Bits || (y.k == Val::Int && y.u == 0)) {
        T q = y.k == Val::Int ? TM.rzero : y.t;
        if (pred == CmpInst::ICMP_EQ) return Val::S(TM.req(x.t, q));
        if (pred == CmpInst::ICMP_NE) return Val::S(TM.bnot(TM.req(x.t, q)));
      }
    }
    T p = bvOf(x), q = bvOf(y);
    switch (pred) {
    case CmpInst::ICMP_EQ: return Val::S(TM.veq(p, q));
    case CmpInst::ICMP_NE: return Val::S(TM.bnot(TM.veq(p, q)));
    case CmpInst::ICMP_ULT: return Val::S(TM.vlt(false, p, q));
    case CmpInst::ICMP_ULE: return Val::S(TM.bnot(TM.vlt(false, q, p)));
    case CmpInst::ICMP_UGT: return Val::S(TM.vlt(false, q, p));
    case CmpInst::ICMP_UGE: return Val::S(TM.bnot(TM.vlt(false, p, q)));
    case CmpInst::ICMP_SLT: return Val::S(TM.vlt(true, p, q));
    case CmpInst::ICMP_SLE: return Val::S(TM.bnot(TM.vlt(true, q, p)));
    case CmpInst::ICMP_SGT: return Val::S(TM.vlt(true, q, p));
    case CmpInst::ICMP_SGE: return Val::S(TM.bnot(TM.vlt(true, p, q)));
    }
    throw Unsupported("icmp");
  }
  Val fcmp(unsigned pred, const Val& x, const Val& y, Type* ty) {
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
      std::vector<Val> r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(fcmp(pred, el(x, i, vt), el(y, i, vt), vt->getElementType()));
      return Val::A(r);
    }
    if (pred == CmpInst::FCMP_TRUE) return Val::I(1, 1);
    if (pred == CmpInst::FCMP_FALSE) return Val::I(0, 1);
    T a = realOf(x), b = realOf(y);
    T un = TM.bor(TM.isnanT(a), TM.isnanT(b));
    T r;
    switch (pred) {
    case CmpInst::FCMP_ORD: return Val::S(TM.bnot(un));
    case CmpInst::FCMP_UNO: return Val::S(un);
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = TM.req(a, b); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = TM.band(TM.bnot(TM.req(a, b)), TM.bnot(un)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = TM.rlt(a, b); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = TM.rle(a, b); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = TM.rlt(b, a); break;
    default: r = TM.rle(b, a); break;
    }
    if (pred >= CmpInst::FCMP_UNO) r = TM.bor(r, un);
    return Val::S(r);
  }
  // select; may fork when the values cannot be merged
  Val select(State& s, const Val& c, const Val& x, const Val& y, Type* ty) {
    if (c.k == Val::Agg) {
      auto* vt = cast<FixedVectorType>(ty);
      std::vector<Val> r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(select(s, (*c.a)[i], el(x, i, vt), el(y, i, vt), vt->getElementType()));
      return Val::A(r);
    }
    if (c.k == Val::Int) return c.u ? x : y;
    T t = bvOf(c);
    if (t == TM.tt) return x;
    if (t == TM.ff) return y;
    if (s.pcset.count(t)) return x;
    if (s.pcset.count(TM.bnot(t))) return y;
    if (x.k == Val::Undef && y.k == Val::Undef) return x;
    if (ty->isFloatingPointTy() && !cfg.forkSelect) return Val::R(TM.ite(t, realOf(x), realOf(y)));
    if (ty->isIntegerTy() && !cfg.forkSelect && x.k != Val::Bits && y.k != Val::Bits) return Val::S(TM.ite(t, bvOf(x), bvOf(y)));
    if (x.k == Val::Int && y.k == Val::Int && x.u == y.u) return x;
    return branch(s, t) ? x : y;
  }
  Val cast1(State& s, unsigned opc, const Val& v, Type* from, Type* to) {
    if (opc != Instruction::BitCast)
      if (auto* vt = dyn_cast<FixedVectorType>(to)) {
        auto* vf = cast<FixedVectorType>(from);
        std::vector<Val> r;
        for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(cast1(s, opc, el(v, i, vf), vf->getElementType(), vt->getElementType()));
        return Val::A(r);
      }
    switch (opc) {
    case Instruction::Trunc: {
      unsigned w = to->getIntegerBitWidth();
      if (v.k == Val::Undef) { Val u; u.w = w; return u; }
      if (v.k == Val::Int) return Val::I(v.u, w);
      return Val::S(TM.vextract(bvOf(v), 0, w));
    }
    case Instruction::ZExt: { unsigned w = to->getIntegerBitWidth(); if (v.k == Val::Int) { Val r = Val::I(v.u, std::min(w, 64u)); r.w = w; return r; } if (w > 64) throw Unsupported("wide zext"); return Val::S(TM.vzext(bvOf(v), w)); }
    case Instruction::SExt: { unsigned w = to->getIntegerBitWidth(); if (w > 64) throw Unsupported("wide sext"); if (v.k == Val::Int) return Val::I((uint64_t)sx(v.u, v.w), w); return Val::S(TM.vsext(bvOf(v), w)); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned w = to->isPointerTy() ? 64 : to->getIntegerBitWidth();
      if (v.k == Val::Int) return Val::I(v.u, w);
      if (v.k == Val::Bits || v.k == Val::Undef) return v;
      T t = bvOf(v);
      if (t->w > w) t = TM.vextract(t, 0, w); else t = TM.vzext(t, w);
      return Val::S(t);
    }
    case Instruction::FPExt: case Instruction::FPTrunc: return Val::R(realOf(v));
    case Instruction::SIToFP: return Val::R(TM.rfrombv(true, bvOf(v)));
    case Instruction::UIToFP: return Val::R(TM.rfrombv(false, bvOf(v)));
    case Instruction::FPToSI: case Instruction::FPToUI: {
      unsigned w = to->getIntegerBitWidth();
      T t = realOf(v);
      return fpToInt(s, t, w);
    }
    case Instruction::BitCast: return bitcast(v, from, to);
    }
    throw Unsupported("cast");
  }
  Val fpToInt(State& s, T t, unsigned w) {
    if (t->op == Op::RConst) { mpz_class q; mpz_tdiv_q(q.get_mpz_t(), t->q->get_num_mpz_t(), t->q->get_den_mpz_t()); return Val::I((uint64_t)q.get_si(), w); }
    if (t->op == Op::RSpecial) throw PathEnd("conversion of inf/nan to an integer");
    if (t->op == Op::RIte) {
      return branch(s, t->a[0]) ? fpToInt(s, t->a[1], w) : fpToInt(s, t->a[2], w);
    }
    if (t->op == Op::RFromBV && t->a[0]->w <= w) return Val::S(t->u ? TM.vsext(t->a[0], w) : TM.vzext(t->a[0], w));
    // enumerate the integer part
    for (int guard = 0; guard < 2; ++guard) {
      T tr = TM.rtrunc(t);
      for (T p : s.pc) if (p->op == Op::REq && ((p->a[0] == tr && TM.isRC(p->a[1])) || (p->a[1] == tr && TM.isRC(p->a[0])))) return Val::I((uint64_t)(int64_t)(p->a[0] == tr ? p->a[1] : p->a[0])->dbl, w);
      double cand;
      if (s.wit) cand = std::trunc(evalR(t, *s.wit));
      else { Assign A; std::vector<T> q = sliceT(s.pc, t); if (!q.empty() && S.check(q, 5000, &A) != z3::sat) throw Unsupported("fptosi"); cand = std::trunc(evalR(t, A)); }
      T c = TM.req(tr, TM.reald(cand));
      if (branch(s, c)) return Val::I((uint64_t)(int64_t)cand, w);
      guard = 0;
    }
    throw Unsupported("fptosi");
  }
  // k pieces of width fw starting at index i0 form one 64 bit value
  Val joinPieces(const std::vector<Val>& src, unsigned i0, unsigned k, unsigned fw, Type* te) {
    const Val& f = src[i0];
    bool same = true, allU = true;
    for (unsigned j = 0; j < k; ++j) {
      const Val& e = src[i0 + j];
      if (e.k != Val::Undef) allU = false;
      if (e.k != Val::Bits || f.k != Val::Bits || e.t != f.t || e.u != j * fw) same = false;
    }
    if (allU) { Val u; u.w = 64; return u; }
    if (same) return te->isFloatingPointTy() ? Val::R(f.t) : Val::B(f.t, 64);
    T acc = nullptr;
    for (unsigned j = 0; j < k; ++j) { T t = bvOf(src[i0 + j]); acc = acc ? TM.vconcat(t, acc) : t; }
    return bitcast(Val::S(acc), Type::getIntNTy(ctx, 64), te);
  }
  Val bitcast(const Val& v, Type* from, Type* to) {
    if (from == to) return v;
    auto* vf = dyn_cast<FixedVectorType>(from); auto* vt = dyn_cast<FixedVectorType>(to);
    if (vf && vt && vf->getNumElements() == vt->getNumElements()) {
      std::vector<Val> r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(bitcast(el(v, i, vf), vf->getElementType(), vt->getElementType()));
      return Val::A(r);
    }
    if (!vf && !vt) {
      if (from->isPointerTy() && to->isPointerTy()) return v;
      if (to->isFloatingPointTy()) {
        if (v.k == Val::Bits) return Val::R(v.t);
        if (v.k == Val::Int) { if (to->isDoubleTy()) { double d; memcpy(&d, &v.u, 8); return Val::R(TM.reald(d)); } float f; uint32_t u = v.u; memcpy(&f, &u, 4); return Val::R(TM.reald(f)); }
        if (v.k == Val::Undef) return v;
        if (v.k == Val::Sym && TM.isBAll(v.t)) { // mask as a double: keep as sym; only usable through bitcast back
          return v;
        }
        if (v.k == Val::Sym) return v;
      } else {
        if (v.k == Val::Real) { double d; if (dblExact(v.t, d)) { uint64_t u = 0; if (from->isDoubleTy()) memcpy(&u, &d, 8); else { float f = d; memcpy(&u, &f, 4); } return Val::I(u, to->getIntegerBitWidth()); } return Val::B(v.t, to->getIntegerBitWidth()); }
        return v;
      }
    }
    // generic: through bytes, for concrete / splittable integers
    std::vector<Val> src;
    if (vf && v.k == Val::Undef) src = *undefOf(from).a;
    else if (vf) src = *v.a; else src.push_back(v);
    Type* fe = vf ? vf->getElementType() : from; Type* te = vt ? vt->getElementType() : to;
    unsigned fw = DL.getTypeSizeInBits(fe), tw = DL.getTypeSizeInBits(te), n = vt ? vt->getNumElements() : 1;
    std::vector<Val> out;
    if (fw == tw) return bitcast(src[0], fe, te);
    // pieces of a symbolic double: kept as (term, bit offset)
    if (tw < fw && fw == 64 && fw % tw == 0) {
      unsigned k = fw / tw; bool any = false;
      for (auto& e : src) if (e.k == Val::Undef) any = true; else if (e.k == Val::Real || e.k == Val::Bits) { double d; if (!dblExact(e.t, d)) any = true; }
      if (any) {
        for (unsigned i = 0; i < n; ++i) {
          Val e = bitcast(src[i / k], fe, Type::getIntNTy(ctx, fw));
          if (e.k == Val::Undef) { Val u; u.w = tw; out.push_back(u); continue; }
          if (e.k == Val::Bits) { Val b = Val::B(e.t, tw); b.u = (i % k) * tw; out.push_back(b); continue; }
          out.push_back(bitcast(Val::S(TM.vextract(bvOf(e), (i % k) * tw, tw)), Type::getIntNTy(ctx, tw), te));
        }
        return vt ? Val::A(out) : out[0];
      }
    }
    if (fw < tw && tw == 64) {
      unsigned k = tw / fw; bool any = false;
      for (auto& e : src) if (e.k == Val::Bits || e.k == Val::Undef) any = true;
      if (any) {
        for (unsigned i = 0; i < n; ++i) out.push_back(joinPieces(src, i * k, k, fw, te));
        return vt ? Val::A(out) : out[0];
      }
    }
    if (fw < tw && tw <= 64) { // concat
      unsigned k = tw / fw;
      for (unsigned i = 0; i < n; ++i) {
        T acc = nullptr;
        for (unsigned j = 0; j < k; ++j) { Val e = bitcast(src[i * k + j], fe, Type::getIntNTy(ctx, fw)); T t = bvOf(e); acc = acc ? TM.vconcat(t, acc) : t; }
        out.push_back(bitcast(Val::S(acc), Type::getIntNTy(ctx, tw), te));
      }
    } else if (tw < fw && fw <= 64) {
      unsigned k = fw / tw;
      for (unsigned i = 0; i < n; ++i) { Val e = bitcast(src[i / k], fe, Type::getIntNTy(ctx, fw)); out.push_back(bitcast(Val::S(TM.vextract(bvOf(e), (i % k) * tw, tw)), Type::getIntNTy(ctx, tw), te)); }
    } else throw Unsupported("bitcast");
    return vt ? Val::A(out) : out[0];
  }
  void step(State& s) {
    Frame& f = s.st.back();
    Instruction* I = &*f.it;
    s.steps++; totalSteps++;
    auto done = [&](Val v) { set(s, I, std::move(v)); ++s.st.back().it; };
    switch (I->getOpcode()) {
    case Instruction::Ret: {
      Val r;
      if (I->getNumOperands()) r = get(s, I->getOperand(0));
      CallBase* cb = f.call;
      killFrame(s);
      if (s.st.empty()) throw PathStop("done");
      if (!cb) throw PathStop("done");
      finishCall(s, cb, r);
      return;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { gotoBB(s, b->getSuccessor(0)); return; }
      Val c = get(s, b->getCondition());
      if (cfg.merge && c.k != Val::Int && tryMerge(s, b, bvOf(c))) return;
      bool r = c.k == Val::Int ? c.u : branch(s, bvOf(c));
      gotoBB(s, b->getSuccessor(r ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val c = get(s, sw->getCondition());
      if (c.k == Val::Int) {
        for (auto& k : sw->cases()) if (k.getCaseValue()->getZExtValue() == c.u) { gotoBB(s, k.getCaseSuccessor()); return; }
        gotoBB(s, sw->getDefaultDest()); return;
      }
      T t = bvOf(c);
      for (auto& k : sw->cases()) if (branch(s, TM.veq(t, TM.vconst(k.getCaseValue()->getZExtValue(), t->w)))) { gotoBB(s, k.getCaseSuccessor()); return; }
      gotoBB(s, sw->getDefaultDest());
      return;
    }
    case Instruction::Unreachable: throw PathEnd("unreachable reached");
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Resume: { Val v = get(s, I->getOperand(0)); s.exc = (*v.a)[0]; unwind(s); return; }
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(I);
      uint64_t sel = 0; bool hit = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !hit; ++i) {
        if (lp->isCatch(i)) {
          uint64_t ti = constVal(lp->getClause(i)).u;
          if (tiMatch(s, s.excType, ti)) { sel = typeId(ti); hit = true; }
        } else { // filter
          Val fv = constVal(lp->getClause(i));
          bool in = false;
          if (fv.k == Val::Agg) for (auto& e : *fv.a) if (tiMatch(s, s.excType, e.u)) in = true;
          if (!in) throw PathEnd("exception filter violated (noexcept)");
        }
      }
      if (!hit && !lp->isCleanup()) { unwind(s); return; }
      done(Val::A({s.exc, Val::I(sel, 32)}));
      return;
    }
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I);
      uint64_t n = DL.getTypeAllocSize(a->getAllocatedType());
      if (a->isArrayAllocation()) n *= concretize(s, get(s, a->getArraySize()));
      auto o = newObj(s, n, a->hasName() ? a->getName().str() : "stack", false, a->getAlign().value());
      s.st.back().allocas.push_back(o->base);
      done(Val::I(o->base, 64));
      return;
    }
    case Instruction::Load: { auto* l = cast<LoadInst>(I); done(load(s, concretize(s, get(s, l->getPointerOperand())), l->getType())); return; }
    case Instruction::Store: {
      auto* l = cast<StoreInst>(I);
      store(s, concretize(s, get(s, l->getPointerOperand())), l->getValueOperand()->getType(), get(s, l->getValueOperand()));
      ++f.it; return;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      Val base = get(s, g->getPointerOperand());
      if (base.k == Val::Agg) throw Unsupported("vector gep");
      uint64_t off = 0; T symo = nullptr;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Val ix = get(s, gi.getOperand());
        if (StructType* st = gi.getStructTypeOrNull()) off += DL.getStructLayout(st)->getElementOffset(ix.u);
        else {
          uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
          if (ix.k == Val::Int) off += (uint64_t)sx(ix.u, ix.w) * sz;
          else { T t = TM.vmul(TM.vconst(sz, 64), TM.vsext(bvOf(ix), 64)); symo = symo ? TM.vadd(symo, t) : t; }
        }
      }
      if (base.k == Val::Int && !symo) { done(Val::I(base.u + off, 64)); return; }
      T b = TM.vadd(bvOf(base), TM.vconst(off, 64));
      if (symo) b = TM.vadd(b, symo);
      done(Val::S(b));
      return;
    }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); done(icmp(c->getPredicate(), get(s, c->getOperand(0)), get(s, c->getOperand(1)), c->getOperand(0)->getType())); return; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); done(fcmp(c->getPredicate(), get(s, c->getOperand(0)), get(s, c->getOperand(1)), c->getOperand(0)->getType())); return; }
    case Instruction::Select: { auto* c = cast<SelectInst>(I); Val v = select(s, get(s, c->getCondition()), get(s, c->getTrueValue()), get(s, c->getFalseValue()), c->getType()); done(v); return; }
    case Instruction::FNeg: {
      Val v = get(s, I->getOperand(0));
      if (v.k == Val::Agg) { std::vector<Val> r; for (auto& e : *v.a) r.push_back(Val::R(TM.rneg(realOf(e)))); done(Val::A(r)); }
      else done(Val::R(TM.rneg(realOf(v))));
      return;
    }
    case Instruction::Freeze: { done(get(s, I->getOperand(0))); return; }
    case Instruction::ExtractValue: {
      auto* e = cast<ExtractValueInst>(I);
      Val v = get(s, e->getAggregateOperand());
      for (unsigned i : e->indices()) { if (v.k == Val::Undef) break; Val t = (*v.a)[i]; v = t; }
      done(v); return;
    }
    case Instruction::InsertValue: {
      auto* e = cast<InsertValueInst>(I);
      Val v = get(s, e->getAggregateOperand());
      done(insertV(v, e->getIndices(), 0, get(s, e->getInsertedValueOperand())));
      return;
    }
    case Instruction::ExtractElement: {
      Val v = get(s, I->getOperand(0)); uint64_t i = concretize(s, get(s, I->getOperand(1)));
      done(el(v, i, cast<FixedVectorType>(I->getOperand(0)->getType()))); return;
    }
    case Instruction::InsertElement: {
      Val v = get(s, I->getOperand(0)); uint64_t i = concretize(s, get(s, I->getOperand(2)));
      std::vector<Val> r = v.k == Val::Agg ? *v.a : *undefOf(I->getType()).a;
      r[i] = get(s, I->getOperand(1));
      done(Val::A(r)); return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      auto* vt = cast<FixedVectorType>(sv->getOperand(0)->getType());
      Val a = get(s, sv->getOperand(0)), b = get(s, sv->getOperand(1));
      std::vector<Val> r;
      unsigned n = vt->getNumElements();
      for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? undefOf(vt->getElementType()) : (unsigned)m < n ? el(a, m, vt) : el(b, m - n, vt));
      done(Val::A(r)); return;
    }
    case Instruction::AtomicRMW: {
      auto* a = cast<AtomicRMWInst>(I);
      uint64_t p = concretize(s, get(s, a->getPointerOperand()));
      Val old = load(s, p, a->getType()), v = get(s, a->getValOperand()), nw;
      switch (a->getOperation()) {
      case AtomicRMWInst::Add: nw = binop(s, Instruction::Add, old, v, a->getType()); break;
      case AtomicRMWInst::Sub: nw = binop(s, Instruction::Sub, old, v, a->getType()); break;
      case AtomicRMWInst::Xchg: nw = v; break;
      case AtomicRMWInst::And: nw = binop(s, Instruction::And, old, v, a->getType()); break;
      case AtomicRMWInst::Or: nw = binop(s, Instruction::Or, old, v, a->getType()); break;
      default: throw Unsupported("atomicrmw");
      }
      store(s, p, a->getType(), nw);
      done(old); return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* a = cast<AtomicCmpXchgInst>(I);
      uint64_t p = concretize(s, get(s, a->getPointerOperand()));
      Type* ty = a->getCompareOperand()->getType();
      Val old = load(s, p, ty); Val cmp = get(s, a->getCompareOperand());
      bool eq = concretize(s, old) == concretize(s, cmp);
      if (eq) store(s, p, ty, get(s, a->getNewValOperand()));
      done(Val::A({old, Val::I(eq, 1)})); return;
    }
    case Instruction::Fence: ++f.it; return;
    default: break;
    }
    if (I->isBinaryOp()) { Val v = binop(s, I->getOpcode(), get(s, I->getOperand(0)), get(s, I->getOperand(1)), I->getType()); done(v); return; }
    if (I->isCast()) { Val v = cast1(s, I->getOpcode(), get(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType()); done(v); return; }
    throw Unsupported(std::string("instruction ") + I->getOpcodeName());
  }
  Val insertV(const Val& v, ArrayRef<unsigned> ix, unsigned k, const Val& x) {
    if (k == ix.size()) return x;
    std::vector<Val> r = *v.a;
    r[ix[k]] = insertV(r[ix[k]], ix, k + 1, x);
    return Val::A(r);
  }
  // ------------------------------------------------------------ merging of branches
  // Both sides of a branch are executed up to the immediate postdominator (ignoring blocks
  // that end in unreachable and unwind edges); if both get there without forking and differ
  // only in numbers and flags, the two states become one with if-then-else values.
  int spec = 0;
  long merges = 0, mergeFails = 0;
  std::map<const Instruction*, int> mergeBad;
  struct PD { std::map<BasicBlock*, BasicBlock*> ip; };
  std::map<Function*, PD> pds;
  std::map<Function*, std::unique_ptr<DominatorTree>> dts;
  static bool deadEnd(BasicBlock* b) { return isa<UnreachableInst>(b->getTerminator()); }
  static std::vector<BasicBlock*> succs(BasicBlock* b) {
    std::vector<BasicBlock*> r;
    auto* t = b->getTerminator();
    if (auto* inv = dyn_cast<InvokeInst>(t)) { r.push_back(inv->getNormalDest()); return r; }
    for (unsigned i = 0; i < t->getNumSuccessors(); ++i) if (!deadEnd(t->getSuccessor(i))) r.push_back(t->getSuccessor(i));
    return r;
  }
  BasicBlock* ipdom(Function* f, BasicBlock* b) {
    auto it = pds.find(f);
    if (it == pds.end()) {
      PD pd;
      // reverse graph, virtual exit = nullptr
      std::map<BasicBlock*, std::vector<BasicBlock*>> pred;
      std::vector<BasicBlock*> exits;
      for (auto& x : *f) { if (deadEnd(&x)) continue; auto ss = succs(&x); if (ss.empty()) exits.push_back(&x); for (auto* y : ss) pred[y].push_back(&x); }
      std::vector<BasicBlock*> post; std::set<BasicBlock*> seen;
      std::function<void(BasicBlock*)> dfs = [&](BasicBlock* x) { // iterative
        std::vector<std::pair<BasicBlock*, size_t>> stk{{x, 0}}; seen.insert(x);
        while (!stk.empty()) {
          auto& [y, i] = stk.back();
          auto& pp = pred[y];
          if (i < pp.size()) { BasicBlock* z = pp[i++]; if (seen.insert(z).second) stk.push_back({z, 0}); }
          else { post.push_back(y); stk.pop_back(); }
        }
      };
      for (auto* e : exits) if (!seen.count(e)) dfs(e);
      std::map<BasicBlock*, int> num; // postorder number, virtual exit highest
      for (size_t i = 0; i < post.size(); ++i) num[post[i]] = i;
      int root = post.size();
      std::vector<int> idom(root + 1, -1); idom[root] = root;
      bool ch = true;
      while (ch) {
        ch = false;
        for (int i = root - 1; i >= 0; --i) {
          BasicBlock* x = post[i];
          int nw = -1;
          auto meet = [&](int p) {
            if (idom[p] < 0) return;
            if (nw < 0) { nw = p; return; }
            int a = p, c = nw;
            while (a != c) { while (a < c) a = idom[a]; while (c < a) c = idom[c]; }
            nw = a;
          };
          auto ss = succs(x);
          if (ss.empty()) meet(root);
          for (auto* y : ss) { auto q = num.find(y); if (q != num.end()) meet(q->second); }
          if (nw >= 0 && idom[i] != nw) { idom[i] = nw; ch = true; }
        }
      }
      for (int i = 0; i < root; ++i) pd.ip[post[i]] = idom[i] >= 0 && idom[i] != root ? post[idom[i]] : nullptr;
      it = pds.emplace(f, std::move(pd)).first;
    }
    auto j = it->second.ip.find(b);
    return j == it->second.ip.end() ? nullptr : j->second;
  }
  static bool sameVal(const Val& x, const Val& y) {
    if (x.k != y.k) return false;
    switch (x.k) {
    case Val::Undef: return true;
    case Val::Int: return x.u == y.u && x.w == y.w;
    case Val::Agg: { if (x.a == y.a) return true; if (x.a->size() != y.a->size()) return false; for (size_t i = 0; i < x.a->size(); ++i) if (!sameVal((*x.a)[i], (*y.a)[i])) return false; return true; }
    case Val::Bits: return x.t == y.t && x.u == y.u && x.w == y.w;
    default: return x.t == y.t;
    }
  }
  bool mergeVal(T c, const Val& x, const Val& y, Val& o) {
    if (sameVal(x, y) || y.k == Val::Undef) { o = x; return true; }
    if (x.k == Val::Undef) { o = y; return true; }
    if (x.k == Val::Agg && y.k == Val::Agg && x.a->size() == y.a->size()) {
      std::vector<Val> r(x.a->size());
      for (size_t i = 0; i < r.size(); ++i) if (!mergeVal(c, (*x.a)[i], (*y.a)[i], r[i])) return false;
      o = Val::A(r); return true;
    }
    if (x.k == Val::Real && y.k == Val::Real) { o = Val::R(TM.ite(c, x.t, y.t)); return true; }
    if ((x.k == Val::Int || x.k == Val::Sym) && (y.k == Val::Int || y.k == Val::Sym) && x.w == y.w && x.w <= 8) { o = Val::S(TM.ite(c, bvOf(x), bvOf(y))); return true; }
    return false;
  }
  static bool looksDouble(double d) { return d == 0 || (std::isfinite(d) && std::fabs(d) > 1e-100 && std::fabs(d) < 1e100) || std::isinf(d); }
  bool mergeObj(T c, const Obj& x, const Obj& y, std::shared_ptr<Obj>& out) {
    if (x.size != y.size || x.alive != y.alive) return false;
    auto r = std::make_shared<Obj>(x);
    r->sym.clear();
    uint64_t i = 0, n = x.size;
    auto put = [&](uint64_t at, uint64_t sz, const Val& v) {
      for (uint64_t k = 0; k < sz; ++k) r->st[at + k] = 2;
      r->sym[at] = {(uint32_t)sz, v};
    };
    auto asReal = [&](const Obj& o, uint64_t at, Val& v) {
      for (int k = 0; k < 8; ++k) if (o.st[at + k] != 1) return false;
      double d; memcpy(&d, &o.b[at], 8);
      if (!looksDouble(d)) return false;
      v = Val::R(TM.reald(d)); return true;
    };
    auto undef = [&](const Obj& o, uint64_t at, uint64_t sz) { for (uint64_t k = 0; k < sz; ++k) if (o.st[at + k] != 0) return false; return true; };
    while (i < n) {
      auto p = x.sym.find(i), q = y.sym.find(i);
      bool hp = p != x.sym.end(), hq = q != y.sym.end();
      if (hp && hq) {
        if (p->second.first != q->second.first) return false;
        Val v; if (!mergeVal(c, p->second.second, q->second.second, v)) return false;
        double d;
        if (v.k == Val::Int) { for (uint64_t k = 0; k < p->second.first; ++k) { r->b[i + k] = v.u >> (8 * k); r->st[i + k] = 1; } }
        else if (v.k == Val::Real && p->second.first == 8 && dblExact(v.t, d)) { memcpy(&r->b[i], &d, 8); for (int k = 0; k < 8; ++k) r->st[i + k] = 1; }
        else put(i, p->second.first, v);
        i += p->second.first; continue;
      }
      if (hp || hq) {
        auto& e = hp ? p->second : q->second;
        const Obj& o = hp ? y : x;
        if (i + e.first > n) return false;
        if (undef(o, i, e.first)) { put(i, e.first, e.second); i += e.first; continue; }
        Val w;
        if (e.second.k == Val::Real) { if (e.first != 8 || !asReal(o, i, w)) return false; }
        else if (e.first == 1 && o.st[i] == 1) w = Val::I(o.b[i], 8);
        else return false;
        Val ev = e.second; if (ev.k == Val::Sym && ev.t->w != 8 && e.first == 1) ev = Val::S(TM.vzext(ev.t, 8));
        Val v; if (!(hp ? mergeVal(c, ev, w, v) : mergeVal(c, w, ev, v))) return false;
        put(i, e.first, v);
        i += e.first; continue;
      }
      if (x.st[i] == 2 || y.st[i] == 2) return false;
      if (x.st[i] == y.st[i] && (x.st[i] == 0 || x.b[i] == y.b[i])) { r->b[i] = x.b[i]; r->st[i] = x.st[i]; ++i; continue; }
      if (x.st[i] == 0) { r->b[i] = y.b[i]; r->st[i] = 1; ++i; continue; }
      if (y.st[i] == 0) { r->b[i] = x.b[i]; r->st[i] = 1; ++i; continue; }
      // two different concrete bytes
      uint64_t a = i & ~7ull;
      Val vx, vy;
      double dx = 0, dy = 0;
      bool dbl = a + 8 <= n;
      if (dbl) { bool over = false; for (uint64_t k = a; k < a + 8; ++k) if (x.st[k] != 1 || y.st[k] != 1) over = true; if (over) dbl = false; else { memcpy(&dx, &x.b[a], 8); memcpy(&dy, &y.b[a], 8); dbl = looksDouble(dx) && looksDouble(dy); } }
      if (dbl) {
        put(a, 8, Val::R(TM.ite(c, TM.reald(dx), TM.reald(dy))));
        i = a + 8; continue;
      }
      if (x.b[i] <= 1 && y.b[i] <= 1) { // a flag, if the neighbours agree
        put(i, 1, Val::S(TM.ite(c, TM.vconst(x.b[i], 8), TM.vconst(y.b[i], 8)))); ++i; continue;
      }
      return false;
    }
    out = r;
    return true;
  }
  bool runSide(State& o, BasicBlock* P, size_t d, size_t wk) {
    while (true) {
      if (o.st.size() == d && o.st.back().bb == P) return true;
      if (o.st.size() < d) return false;
      if (o.steps > o.specLimit || clock.s() > cfg.budget) return false;
      step(o);
      if (work.size() != wk) return false;
    }
  }
  bool tryMerge(State& s, BranchInst* b, T c) {
    if (c == TM.tt || c == TM.ff || s.pcset.count(c) || s.pcset.count(TM.bnot(c))) return false;
    if (spec > 5) return false;
    auto bad = mergeBad.find(b);
    if (bad != mergeBad.end() && bad->second >= 4) return false;
    BasicBlock* P = ipdom(b->getFunction(), b->getParent());
    if (!P || P == b->getParent()) return false;
    size_t d = s.st.size(), wk = work.size();
    auto keepU = unsupported; auto keepE = ends;
    bool ok = false; std::string why = "?";
    T nc = TM.bnot(c);
    State A = s, B = s;
    long lim = std::min<long>(s.steps + 60000, cfg.maxSteps);
    if (spec) lim = std::min(lim, s.specLimit);
    A.specLimit = B.specLimit = lim;
    auto w = [&](T x) { return s.wit && evalV(x, *s.wit) ? s.wit : nullptr; };
    addPc(A, c, w(c)); addPc(B, nc, w(nc));
    size_t na = A.pc.size(), nb = B.pc.size();
    ++spec;
    try {
      gotoBB(A, b->getSuccessor(0));
      ok = runSide(A, P, d, wk);
      if (ok) { gotoBB(B, b->getSuccessor(1)); ok = runSide(B, P, d, wk); }
    } catch (ForkAgain&) { ok = false; why = "fork"; }
    catch (PathStop& e) { ok = false; why = e.what(); } catch (PathEnd& e) { ok = false; why = e.what(); } catch (Unsupported& e) { ok = false; why = e.what(); }
    --spec;
    if (work.size() > wk) work.erase(work.begin() + wk, work.end());
    State R;
    if (ok) ok = combine(s, A, B, c, na, nb, P, d, R);
    if (!ok && cfg.verbose) { std::string is; raw_string_ostream os(is); b->print(os); std::cerr << "[merge] failed: " << why << " in " << demangle(b->getFunction()->getName().str()).substr(0, 150) << " block " << b->getParent()->getName().str() << " -> " << P->getName().str() << "\n"; }
    if (!ok) { mergeBad[b]++; mergeFails++; unsupported = keepU; ends = keepE; return false; }
    merges++;
    if (bad != mergeBad.end()) bad->second = 0;
    s = std::move(R);
    return true;
  }
  bool combine(State& s, State& A, State& B, T c, size_t na, size_t nb, BasicBlock* P, size_t d, State& R) {
    if (A.inputs.size() != B.inputs.size() || A.caught.size() != B.caught.size()) return false;
    Frame &fa = A.st[d - 1], &fb = B.st[d - 1];
    if (fa.allocas != fb.allocas) return false;
    Function* f = fa.f;
    auto& dt = dts[f];
    if (!dt) dt = std::make_unique<DominatorTree>(*f);
    R = A;
    auto& m = slots[f];
    for (auto& x : m) {
      if (!x.first) continue;
      unsigned k = x.second;
      if (sameVal(fa.regs[k], fb.regs[k])) continue;
      auto* in = dyn_cast<Instruction>(const_cast<Value*>(x.first));
      if (!in) return false;
      bool live = in->getParent() == P ? isa<PHINode>(in) : dt->dominates(in->getParent(), P);
      if (!live) { R.st[d - 1].regs[k] = Val(); continue; }
      Val v; if (!mergeVal(c, fa.regs[k], fb.regs[k], v)) return false;
      R.st[d - 1].regs[k] = v;
    }
    // memory
    auto ia = A.mem.begin(), ib = B.mem.begin();
    std::vector<uint64_t> gone;
    while (ia != A.mem.end() || ib != B.mem.end()) {
      if (ib == B.mem.end() || (ia != A.mem.end() && ia->first < ib->first)) {
        if (ia->first >= s.next && ia->second->alive) return false; // new live object on one side
        if (ia->first >= s.next) { ++ia; continue; }
        if (ia->first < gEnd) { // global touched on one side only
          auto g = gmem.find(ia->first);
          if (g != gmem.end() && g->second == ia->second) { ++ia; continue; }
          std::shared_ptr<Obj> o;
          if (g == gmem.end() || !mergeObj(c, *ia->second, *g->second, o)) return false;
          R.mem[ia->first] = o; ++ia; continue;
        }
        return false;
      }
      if (ia == A.mem.end() || ib->first < ia->first) {
        if (ib->first >= s.next && ib->second->alive) return false;
        if (ib->first >= s.next) { ++ib; continue; }
        if (ib->first < gEnd) {
          auto g = gmem.find(ib->first);
          if (g != gmem.end() && g->second == ib->second) { R.mem[ib->first] = ib->second; ++ib; continue; }
          std::shared_ptr<Obj> o;
          if (g == gmem.end() || !mergeObj(c, *g->second, *ib->second, o)) return false;
          R.mem[ib->first] = o; ++ib; continue;
        }
        return false;
      }
      if (ia->second != ib->second) {
        if (ia->first >= s.next) { if (ia->second->alive || ib->second->alive) return false; }
        else {
          std::shared_ptr<Obj> o;
          if (!mergeObj(c, *ia->second, *ib->second, o)) return false;
          R.mem[ia->first] = o;
        }
      }
      ++ia; ++ib;
    }
    R.next = std::max(A.next, B.next);
    R.freed.insert(B.freed.begin(), B.freed.end());
    R.steps = A.steps + (B.steps - s.steps);
    // path condition
    bool extra = A.pc.size() > na || B.pc.size() > nb;
    R.pc = s.pc; R.pcset = s.pcset; R.wit = s.wit;
    R.specLimit = s.specLimit;
    if (extra) {
      std::shared_ptr<Assign> wt = A.wit ? A.wit : B.wit;
      T nc = TM.bnot(c);
      for (size_t i = na; i < A.pc.size(); ++i) addPc(R, TM.bor(nc, A.pc[i]), wt);
      for (size_t i = nb; i < B.pc.size(); ++i) addPc(R, TM.bor(c, B.pc[i]), wt);
      R.wit = wt;
    }
    return true;
  }
  // ------------------------------------------------------------ driver
  bool incomplete = false;
  std::vector<Violation> witnesses;
  void run() {
    Function* F = M.getFunction(cfg.entry);
    if (!F || F->isDeclaration()) { std::cerr << "no entry " << cfg.entry << "\n"; unsupported["no entry function " + cfg.entry]++; return; }
    State s0;
    s0.wit = std::make_shared<Assign>();
    pushFrame(s0, F, {}, nullptr);
    // global constructors of the module run first (in reverse push order)
    if (auto* gc = M.getNamedGlobal("llvm.global_ctors"))
      if (gc->hasInitializer())
        if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
          for (int i = arr->getNumOperands() - 1; i >= 0; --i) {
            auto* fn = dyn_cast<Function>(cast<ConstantStruct>(arr->getOperand(i))->getOperand(1)->stripPointerCasts());
            if (fn && !fn->isDeclaration()) ctors.push_back(fn);
          }
    for (auto* c : ctors) runCtor(s0, c);
    work.push_back(std::move(s0));
    while (!work.empty()) {
      if (clock.s() > cfg.budget || paths > cfg.maxPaths) { incomplete = true; break; }
      if ((int)viols.size() >= cfg.maxViol) { break; }
      State s = std::move(work.back());
      work.pop_back();
      runPath(s);
    }
  }
  std::vector<Function*> ctors;
  void runCtor(State& s, Function* f) {
    size_t d = s.st.size();
    State back = s;
    try {
      // a pseudo frame: executed until it returns
      pushFrame(s, f, {}, nullptr);
      while (s.st.size() > d) {
        Frame& fr = s.st.back();
        if (s.st.size() == d + 1 && isa<ReturnInst>(&*fr.it)) { killFrame(s); break; }
        step(s);
        if (s.steps > 300000) throw Unsupported("ctor too long");
      }
      s.steps = 0;
    } catch (std::exception& e) {
      if (cfg.verbose) std::cerr << "[ctor] skipped " << f->getName().str() << ": " << e.what() << "\n";
      s = back;
    }
  }
  void runPath(State& s) {
    try {
      while (true) {
        if (s.steps > cfg.maxSteps) throw Unsupported("step bound");
        if ((s.steps & 1023) == 0 && clock.s() > cfg.budget) { incomplete = true; throw Unsupported("time budget"); }
        step(s);
      }
    } catch (ForkAgain&) {
      return;
    } catch (PathStop& e) {
      std::string w = e.what();
      ends[w]++; paths++;
      if (w == "done") {
        long r = reach(s); satEnds += r;
        if (r && s.wit && witnesses.size() < 3) {
          Violation v; v.label = "witness";
          for (auto& in : s.inputs) v.inputs.push_back({in.name, in.kind == 'r' ? hexd(evalR(in.t, *s.wit)) : in.kind == 'i' ? std::to_string((long)sx(evalV(in.t, *s.wit), in.t->w)) : std::to_string((long)in.c)});
          witnesses.push_back(v);
        }
      }
    } catch (PathEnd& e) {
      ends[e.what()]++; paths++;
      pathError(s, e.what(), "abort");
    } catch (Unsupported& e) {
      std::string where;
      if (!s.st.empty()) for (int i = s.st.size() - 1, k = 0; i >= 0 && k < 4; --i, ++k) where += " < " + demangle(s.st[i].f->getName().str()).substr(0, 120);
      unsupported[std::string(e.what())]++; paths++;
      ends["unsupported"]++;
      if (cfg.verbose) {
        std::string is; if (!s.st.empty()) { raw_string_ostream os(is); s.st.back().it->print(os); }
        std::cerr << "[unsupported] " << e.what() << where << "\n   at " << is << "\n";
      }
    }
  }
  static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
  }
  void output() {
    std::ofstream o(cfg.out);
    auto mp = [&](const char* k, std::map<std::string, long>& m) { o << js(k) << ": {"; bool f = true; for (auto& x : m) { o << (f ? "" : ", ") << js(x.first) << ": " << x.second; f = false; } o << "},\n"; };
    o << "{\n";
    o << "\"entry\": " << js(cfg.entry) << ",\n";
    o << "\"paths\": " << paths << ", \"forks\": " << forks << ", \"merges\": " << merges << ", \"merge_fails\": " << mergeFails << ", \"steps\": " << totalSteps << ", \"sat_ends\": " << satEnds << ", \"incomplete\": " << (incomplete ? "true" : "false") << ", \"remaining\": " << work.size() << ",\n";
    o << "\"queries\": " << S.st.queries << ", \"sat\": " << S.st.sat << ", \"unsat\": " << S.st.unsat << ", \"unknown\": " << S.st.unknown << ", \"folded\": " << S.st.folded << ", \"normal_form\": " << S.st.polyQueries << ", \"nf_confirmed\": " << S.st.nfConfirmed << ", \"split_leaves\": " << S.st.splitLeaves << ", \"nonzero_divisor_assumed\": " << S.st.nonzeroAssumed << ", \"solver_s\": " << S.st.solverSec << ", \"wall_s\": " << clock.s() << ", \"terms\": " << TM.store.size() << ",\n";
    mp("ends", ends); mp("covers", covers); mp("asserts", asserts); mp("undecided", unknownAsserts); mp("unsupported", unsupported);
    std::map<std::string, long> fc;
    for (auto& x : fnCount) { std::string d = demangle(x.first); if (d.find("fub::") != std::string::npos) fc[d.substr(0, 160)] += x.second; }
    mp("functions", fc);
    bool f = true;
    for (int pass = 0; pass < 2; ++pass) {
    o << (pass ? "],\n\"violations\": [" : "\"witnesses\": [");
    f = true;
    for (auto& v : *(pass ? &viols : &witnesses)) {
      o << (f ? "" : ",") << "\n {\"label\": " << js(v.label) << ", \"kind\": " << js(v.kind) << ", \"detail\": " << js(v.detail) << ", \"inputs\": [";
      bool g = true;
      for (auto& i : v.inputs) { o << (g ? "" : ", ") << "[" << js(i.first) << ", " << js(i.second) << "]"; g = false; }
      o << "], \"ufs\": ["; g = true;
      for (auto& i : v.ufs) { o << (g ? "" : ", ") << js(i); g = false; }
      o << "]}";
      f = false;
    }
    }
    o << "]\n}\n";
  }
};

static int realMain(int argc, char** argv) {
  Config cfg;
  std::string file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") cfg.entry = nxt();
    else if (a == "--seed" || a == "--dbudget") nxt();
    else if (a == "--out") cfg.out = nxt();
    else if (a == "--param") { std::string p = nxt(); auto e = p.rfind('='); cfg.params[p.substr(0, e)] = std::stol(p.substr(e + 1)); }
    else if (a == "--budget") cfg.budget = std::stod(nxt());
    else if (a == "--max-steps") cfg.maxSteps = std::stol(nxt());
    else if (a == "--max-paths") cfg.maxPaths = std::stol(nxt());
    else if (a == "--merge") cfg.merge = true;
    else if (a == "--fork-select") cfg.forkSelect = true;
    else if (a == "-v") cfg.verbose = true;
    else if (a == "--qtimeout") nxt(); else file = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(file, err, ctx);
  if (!m) { err.print("engine", errs()); return 2; }
  Engine e(ctx, *m, cfg);
  for (int i = 1; i < argc; ++i) {
    if (std::string(argv[i]) == "--qtimeout") e.S.qTimeout = std::stoul(argv[i + 1]);
    if (std::string(argv[i]) == "--seed") e.S.rng.seed(std::stoul(argv[i + 1]));
    if (std::string(argv[i]) == "--dbudget") e.S.decideBudget = std::stod(argv[i + 1]);
  }
  int rc = 0;
  try { e.run(); } catch (std::exception& x) { std::cerr << "engine error: " << x.what() << "\n"; e.unsupported[std::string("engine error: ") + x.what()]++; rc = 3; }
  e.output();
  _exit(rc);
}
struct Args { int c; char** v; int r; };
int main(int argc, char** argv) {
  // run on a large stack: terms are traversed recursively
  Args a{argc, argv, 0};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 2ull << 30);
  pthread_t th;
  pthread_create(&th, &at, [](void* p) -> void* { Args* q = (Args*)p; q->r = realMain(q->c, q->v); return nullptr; }, &a);
  pthread_join(th, nullptr);
  return a.r;
}
