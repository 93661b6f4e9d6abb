// symx: symbolic executor for LLVM IR. See DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>

using namespace llvm;
using namespace sx;

// ------------------------------------------------------------------ options
static std::string oBc, oOut, oDump, oSrc = "/repo";
static std::map<std::string, uint64_t> oParams;
static double oTimeout = 600;
static uint64_t oMaxSteps = 4000000000ull;
static unsigned oQueryMs = 60000, oSamples = 16, oDumpEvery = 50, oMaxViol = 8;
static bool oTrace = false;
static uint64_t oSeed = 1;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

static Module* M;
static const DataLayout* DL;

[[noreturn]] static void die(const std::string& s) {
  fprintf(stderr, "symx: %s\n", s.c_str());
  _exit(3);
}

// ------------------------------------------------------------------ program
struct KFunc;
struct KInst {
  Instruction* I = nullptr;
  unsigned op = 0;
  int dest = -1;
  uint32_t w = 0;             // result width in bits
  SmallVector<int, 4> ops;    // >=0 slot, <0 constant
  uint64_t off = 0;           // GEP constant part
  SmallVector<std::pair<int, int64_t>, 2> scaled;  // GEP: operand, scale
  Function* callee = nullptr;
  KFunc* kf = nullptr;
  int builtin = -1;
  std::unordered_map<uint64_t, uint32_t>* swc = nullptr;
  bool hit = false;
};
struct KFunc {
  Function* F;
  std::vector<KInst> insts;
  DenseMap<BasicBlock*, uint32_t> start;
  uint32_t nslots = 0, nargs = 0;
  bool entered = false;
};
static DenseMap<Function*, KFunc*> gFuncs;
static std::vector<Val> gConsts;
static DenseMap<Constant*, int> gConstIdx;
static DenseMap<const GlobalValue*, uint64_t> gGlobalAddr;
static std::unordered_map<uint64_t, Function*> gFuncAt;
static std::set<std::string> gUndefFns;

static uint32_t bitsOf(Type* T) {
  if (T->isVoidTy()) return 0;
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  if (auto* S = dyn_cast<StructType>(T)) {
    uint32_t n = 0;
    for (auto* e : S->elements()) n += bitsOf(e);
    return n;
  }
  if (auto* A = dyn_cast<ArrayType>(T)) return A->getNumElements() * bitsOf(A->getElementType());
  if (auto* V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * bitsOf(V->getElementType());
  if (T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return 0;
  std::string s;
  raw_string_ostream os(s);
  T->print(os);
  die("unsupported type " + os.str());
}
static bool isAgg(Type* T) { return T->isStructTy() || T->isArrayTy(); }
// bit offset of element idx in the packed representation (element 0 lowest)
static uint32_t aggOff(Type* T, ArrayRef<unsigned> idx, Type** out) {
  uint32_t off = 0;
  for (unsigned i : idx) {
    if (auto* S = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < i; k++) off += bitsOf(S->getElementType(k));
      T = S->getElementType(i);
    } else {
      T = cast<ArrayType>(T)->getElementType();
      off += i * bitsOf(T);
    }
  }
  *out = T;
  return off;
}

// ------------------------------------------------------------------ memory
#define UNDEF ((E)1)
struct LNode;
using LP = std::shared_ptr<LNode>;
struct Dense {
  std::vector<uint8_t> b;
  std::vector<E> s;  // empty, or per byte: nullptr concrete, UNDEF, or 8-bit expr
  Val get(uint64_t i) const {
    if (!s.empty() && s[i]) return s[i] == UNDEF ? Val() : Val(s[i]);
    return Val(8, b[i]);
  }
  bool undef(uint64_t i) const { return !s.empty() && s[i] == UNDEF; }
  void set(uint64_t i, const Val& v) {
    if (v.conc()) {
      b[i] = v.c;
      if (!s.empty()) s[i] = nullptr;
    } else {
      if (s.empty()) s.resize(b.size(), nullptr);
      s[i] = v.e;
    }
  }
  void setUndef(uint64_t i) {
    if (s.empty()) s.resize(b.size(), nullptr);
    s[i] = UNDEF;
  }
};
struct LNode {
  enum T { Arr, Const, DenseBase, Write, Copy, Fill } t;
  uint32_t arr = 0;
  uint8_t cst = 0;
  std::shared_ptr<Dense> dense;
  Val idx, len, v;     // Write: idx,v ; Copy/Fill: idx=dst,len
  LP src;
  Val srcOff;
  LP next;
};
struct Obj {
  uint64_t base = 0, cap = 0;
  Val size;            // symbolic size if not concrete (64-bit)
  bool freed = false, ro = false, lazy = false, heap = false, stack = false;
  Dense d;
  LP l;
  bool symSize() const { return size.w && !size.conc(); }
};
using ObjP = std::shared_ptr<Obj>;
struct ObjChunk { ObjP o[64]; };
struct ObjTable {
  std::vector<std::shared_ptr<ObjChunk>> ch;
  uint32_t n = 0;
  const Obj* get(uint32_t i) const { return ch[i >> 6]->o[i & 63].get(); }
  Obj* mut(uint32_t i) {
    auto& c = ch[i >> 6];
    if (c.use_count() > 1) c = std::make_shared<ObjChunk>(*c);
    auto& o = c->o[i & 63];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
  uint32_t add(ObjP p) {
    if ((n & 63) == 0) ch.push_back(std::make_shared<ObjChunk>());
    auto& c = ch.back();
    if (c.use_count() > 1) c = std::make_shared<ObjChunk>(*c);
    c->o[n & 63] = std::move(p);
    return n++;
  }
  int find(uint64_t a) const {  // last object with base <= a
    uint32_t lo = 0, hi = n;
    while (lo < hi) {
      uint32_t m = (lo + hi) / 2;
      if (get(m)->base <= a) lo = m + 1; else hi = m;
    }
    return (int)lo - 1;
  }
};

// ------------------------------------------------------------------ state
struct Frame {
  KFunc* kf;
  uint32_t pc = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  std::vector<Val> varargs;
  int retDest = -1;
};
struct Input { std::string name; uint32_t var; uint8_t kind; Val size; };  // kind 0 scalar, 1 array
struct Reach { std::string label; };
struct State {
  std::vector<std::shared_ptr<Frame>> st;
  ObjTable mem;
  std::vector<E> cons;
  std::shared_ptr<Model> model;
  std::shared_ptr<std::unordered_map<E, Val>> known;
  std::shared_ptr<Model> fixedv;  // variables forced to constants
  std::map<std::string, uint32_t> counters;
  std::vector<Input> inputs;
  std::vector<std::pair<std::string, Val>> observed;
  uint64_t nextAddr = 0x100000000ull;
  uint64_t steps = 0;
  bool dead = false;
  Frame& top() {
    auto& f = st.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return *f;
  }
};
using SP = std::unique_ptr<State>;
static std::vector<SP> gWork;

// ------------------------------------------------------------------ results
struct Violation { std::string kind, label, where, inputs; };
static std::vector<Violation> gViol;
static std::map<std::string, uint64_t> gViolCount;
static std::map<std::string, uint64_t> gReach, gChecks, gChecksConc;
static std::set<std::string> gIncomplete, gStubs;
static bool gSelectFork = true;
static uint64_t gPaths = 0, gPruned = 0, gSteps = 0, gForks = 0, gStates = 0, gUndefReads = 0;
static std::vector<std::string> gSampleTxt;

static std::string where(State& s) {
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 8; i--, n++) {
    Frame& f = *s.st[i];
    uint32_t pc = f.pc;
    if (i != (int)s.st.size() - 1 && pc > 0) pc--;
    Instruction* I = f.kf->insts[std::min<size_t>(pc, f.kf->insts.size() - 1)].I;
    std::string loc;
    if (auto& d = I->getDebugLoc()) loc = (d->getFilename() + ":" + std::to_string(d.getLine())).str();
    std::string nm = demangle(f.kf->F->getName().str());
    if (nm.size() > 60) nm = nm.substr(0, 57) + "...";
    if (n) r += " < ";
    r += nm + "@" + loc;
  }
  return r;
}
static std::string inputsText(State& s, const Model& m) {
  std::string r;
  for (auto& in : s.inputs) {
    if (in.kind == 0) {
      auto it = m.v.find(in.var);
      uint64_t v = it == m.v.end() ? 0 : it->second;
      r += "var " + in.name + " " + std::to_string(v) + "\n";
    } else {
      uint64_t sz = in.size.c;
      if (!in.size.conc()) { evalBegin(&m); sz = evalE(in.size.e); }
      r += "arr " + in.name + " " + std::to_string(sz);
      auto it = m.arr.find(in.var);
      if (it != m.arr.end()) for (auto& kv : it->second) r += " " + std::to_string(kv.first) + "=" + std::to_string(kv.second);
      r += "\n";
    }
  }
  return r;
}
static void report(State& s, const std::string& kind, const std::string& label, const Model& m) {
  gViolCount[label]++;
  for (auto& v : gViol) if (v.label == label && v.kind == kind) return;
  gViol.push_back({kind, label, where(s), inputsText(s, m)});
}
static void incomplete(State& s, const std::string& why) {
  std::string w = why + " at " + where(s);
  if (gIncomplete.insert(w).second && oTrace) fprintf(stderr, "INCOMPLETE %s\n", w.c_str());
  s.dead = true;
}

// ------------------------------------------------------------------ constraints
static void learn(State& s, E c) {
  if (c->kind == KAnd && c->w == 1) { learn(s, c->a); learn(s, c->b); return; }
  if (s.known.use_count() > 1 || !s.known) s.known = s.known ? std::make_shared<std::unordered_map<E, Val>>(*s.known) : std::make_shared<std::unordered_map<E, Val>>();
  (*s.known)[c] = Val(1, 1);
  Val n = vnot(Val(c));
  if (n.e) {
    (*s.known)[n.e] = Val(1, 0);
    if (n.e->kind == KOr) {  // both disjuncts false
      std::vector<E> st{n.e->a, n.e->b};
      while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (x->kind == KOr) { st.push_back(x->a); st.push_back(x->b); }
        (*s.known)[x] = Val(1, 0);
        Val nx = vnot(Val(x));
        if (nx.e) (*s.known)[nx.e] = Val(1, 1);
      }
    }
  }
  E var = nullptr; uint64_t val = 0;
  if (c->kind == KEq && c->b->kind == KConst && c->b->w <= 64) {
    (*s.known)[c->a] = Val(c->b);
    if (c->a->kind == KVar) { var = c->a; val = c->b->aux; }
  } else if (c->kind == KVar) { var = c; val = 1; }
  else if (c->kind == KNot && c->a->kind == KVar && c->w == 1) { var = c->a; val = 0; }
  if (var) {
    if (!s.fixedv || s.fixedv.use_count() > 1) s.fixedv = s.fixedv ? std::make_shared<Model>(*s.fixedv) : std::make_shared<Model>();
    s.fixedv->v[var->aux] = val;
  }
}
static void addCons(State& s, E c) {
  if (c->kind == KAnd && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  s.cons.push_back(c);
  learn(s, c);
}
// Simplify with what the path knows.
static Val know(State& s, const Val& v) {
  if (v.conc() || v.e->kind == KConst) return v;
  if (s.known) {
    auto it = s.known->find(v.e);
    if (it != s.known->end()) return it->second;
    if (v.w == 1) {
      if (v.e->kind == KAnd) {
        Val a = know(s, Val(v.e->a)), b = know(s, Val(v.e->b));
        if (a.e != v.e->a || b.e != v.e->b) return vand(a, b);
      } else if (v.e->kind == KOr) {
        Val a = know(s, Val(v.e->a)), b = know(s, Val(v.e->b));
        if (a.e != v.e->a || b.e != v.e->b) return vor(a, b);
      }
    }
  }
  if (s.fixedv && v.w <= 64) {
    for (uint32_t x : *v.e->vars) if (!s.fixedv->v.count(x)) return v;
    evalBegin(s.fixedv.get());
    return Val(v.w, evalE(v.e));
  }
  return v;
}
static void ensureModel(State& s) { if (!s.model) s.model = std::make_shared<Model>(); }
static void mergeModel(State& s, const Model& m, std::shared_ptr<Model>& out) {
  out = std::make_shared<Model>(*s.model);
  for (auto& kv : m.v) out->v[kv.first] = kv.second;
  for (auto& kv : m.arr) out->arr[kv.first] = kv.second;
}
// Can cond hold on this path? If so *out is a model of path && cond.
static SatRes feasible(State& s, const Val& cond, std::shared_ptr<Model>* out) {
  ensureModel(s);
  if (cond.conc()) { if (out) *out = s.model; return cond.c ? SAT : UNSAT; }
  evalBegin(s.model.get());
  if (evalE(cond.e)) { gSolver.modelHits++; if (out) *out = s.model; return SAT; }
  Model m;
  SatRes r = solveSlice(s.cons, cond.e, &m);
  if (r == SAT && out) mergeModel(s, m, *out);
  return r;
}
static SP forkState(State& s) {
  gForks++; gStates++;
  return std::make_unique<State>(s);
}
static void assumeTrue(State& s, const Val& c, std::shared_ptr<Model> m) {
  if (!c.conc()) addCons(s, c.e);
  s.model = m;
}

// Fix v to one value on this path; other values are explored by a forked
// state that re-executes the current instruction.
static bool concretize(State& s, Val v, uint64_t& out, uint64_t limit = 100000) {
  v = know(s, v);
  if (v.conc()) { out = v.c; return true; }
  if (v.w > 64) { incomplete(s, "concretize wide value"); return false; }
  ensureModel(s);
  evalBegin(s.model.get());
  uint64_t x = evalE(v.e);
  Val eq = veq(v, Val(v.w, x));
  Val ne = vnot(eq);
  std::shared_ptr<Model> mo;
  SatRes r = feasible(s, ne, &mo);
  if (r == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
  if (r == SAT) {
    SP o = forkState(s);
    assumeTrue(*o, ne, mo);
    gWork.push_back(std::move(o));
  }
  if (!eq.conc()) addCons(s, eq.e);
  out = x;
  return true;
}

// ------------------------------------------------------------------ memory ops
static Val freshUndef(State& s) {
  gUndefReads++;
  std::string n = "undef#" + std::to_string(s.counters["undef"]++);
  uint32_t id = newVar(n, 8, 0);
  s.inputs.push_back({n, id, 0, Val()});
  return varVal(id);
}
static uint32_t newObj(State& s, uint64_t cap, Val size, bool lazy) {
  auto o = std::make_shared<Obj>();
  o->base = s.nextAddr;
  o->cap = cap;
  o->size = size;
  s.nextAddr += ((cap + 15) & ~15ull) + 64;
  o->lazy = lazy;
  if (!lazy) {
    o->d.b.resize(cap, 0);
    if (cap) o->d.s.resize(cap, UNDEF);
  }
  return s.mem.add(o);
}
static LP lazyUndefBase(State& s) {
  auto n = std::make_shared<LNode>();
  n->t = LNode::Arr;
  n->arr = newVar("undefarr#" + std::to_string(s.counters["undefarr"]++), 8, 1);
  return n;
}
static uint32_t alloc(State& s, uint64_t n) {
  bool lazy = n > 65536;
  uint32_t id = newObj(s, n, Val(64, n), lazy);
  if (lazy) s.mem.mut(id)->l = lazyUndefBase(s);
  return id;
}
static void makeLazy(Obj* o) {
  if (o->lazy) return;
  auto n = std::make_shared<LNode>();
  n->t = LNode::DenseBase;
  n->dense = std::make_shared<Dense>(std::move(o->d));
  o->d = Dense();
  o->l = n;
  o->lazy = true;
}
static Val denseSelect(const std::function<Val(uint64_t)>& leaf, const Val& off, uint64_t lo, uint64_t hi, uint64_t step) {
  // off in {lo, lo+step, ..., hi}
  if (lo == hi) return leaf(lo);
  uint64_t n = (hi - lo) / step;
  uint64_t mid = lo + (n / 2 + 1) * step;
  return vite(vult(off, Val(64, mid)), denseSelect(leaf, off, lo, mid - step, step), denseSelect(leaf, off, mid, hi, step));
}
// off == x * k + c with a narrow x: reads then branch on the bits of x.
static bool affine(E e, E& x, uint64_t& k, uint64_t& c) {
  k = 1; c = 0;
  for (;;) {
    if (e->w == 64 && e->kind == KAdd && e->b->kind == KConst) { c += k * e->b->aux; e = e->a; }
    else if (e->w == 64 && e->kind == KMul && e->b->kind == KConst) { k *= e->b->aux; e = e->a; }
    else if (e->kind == KConcat && e->b->kind == KConst && !e->b->aux && e->w == 64) {
      k <<= e->b->w; e = e->a;
      break;  // arithmetic below this point may wrap at its own width
    }
    else break;
  }
  while (e->kind == KZExt && e->w <= 64) e = e->a;
  x = e;
  return e->kind != KConst && e->w <= 64 && e->umax < 8192 && k && k < (1ull << 32);
}
static Val bitSelect(const std::function<Val(uint64_t)>& leaf, const Val& x, int bit, uint64_t i, uint64_t umax, uint64_t k, uint64_t c, uint64_t hi) {
  if (bit < 0) {
    uint64_t off = i * k + c;
    return off <= hi ? leaf(off) : Val();  // w == 0: cannot be read here
  }
  Val l = bitSelect(leaf, x, bit - 1, i, umax, k, c, hi);
  uint64_t j = i | (1ull << bit);
  if (j > umax) return l;
  Val h = bitSelect(leaf, x, bit - 1, j, umax, k, c, hi);
  if (!h.w) return l;
  if (!l.w) return h;
  return vite(vextract(x, bit, 1), h, l);
}
static uint32_t lowZ(E e) {
  if (e->kind == KConst) { uint64_t c = e->aux; uint32_t n = 0; if (!c) return 64; while (!(c & 1)) { c >>= 1; n++; } return n; }
  if (e->kind == KConcat) { uint32_t n = lowZ(e->b); return n >= e->b->w ? e->b->w + lowZ(e->a) : n; }
  if (e->kind == KZExt) return lowZ(e->a);
  if (e->kind == KAdd) return std::min(lowZ(e->a), lowZ(e->b));
  if (e->kind == KMul) return lowZ(e->b);
  if (e->kind == KIte) return std::min(lowZ(e->b), lowZ(e->c));
  return 0;
}
static Val lazyRead(State& s, const LNode* n, Val idx, bool& ok) {
  idx = know(s, idx);
  Val acc;  // pending chain built recursively
  for (;;) {
    switch (n->t) {
      case LNode::Arr: return mkSelect(n->arr, idx);
      case LNode::Const: return Val(8, n->cst);
      case LNode::DenseBase: {
        const Dense& d = *n->dense;
        if (idx.conc()) {
          if (idx.c >= d.b.size()) return Val(8, 0);
          Val v = d.get(idx.c);
          return v.w ? v : freshUndef(s);
        }
        if (d.b.size() > 4096) { ok = false; return Val(8, 0); }
        return denseSelect([&](uint64_t i) { Val v = d.get(i); return v.w ? v : freshUndef(s); }, idx, 0, d.b.size() - 1, 1);
      }
      case LNode::Write: {
        Val eq = know(s, veq(idx, n->idx));
        if (eq.isTrue()) return n->v;
        if (eq.isFalse()) { n = n->next.get(); continue; }
        return vite(eq, n->v, lazyRead(s, n->next.get(), idx, ok));
      }
      case LNode::Copy: case LNode::Fill: {
        Val in = know(s, vult(vsub(idx, n->idx), n->len));
        if (in.isFalse()) { n = n->next.get(); continue; }
        Val v = n->t == LNode::Fill ? n->v : lazyRead(s, n->src.get(), vadd(vsub(idx, n->idx), n->srcOff), ok);
        if (in.isTrue()) return v;
        return vite(in, v, lazyRead(s, n->next.get(), idx, ok));
      }
    }
  }
}

// Resolve [addr, addr+n) to an object on this path. Returns object index or -1
// (path died, or violation reported). off is the (possibly symbolic) offset.
static void memViolation(State& s, const std::string& what, std::shared_ptr<Model> m) {
  report(s, "memory", what, *m);
  s.dead = true;
}
static int resolve(State& s, Val addr, Val n, Val& off, bool write, const char* what) {
  addr = know(s, addr);
  n = know(s, n);
  ensureModel(s);
  if (!addr.conc()) {
    // fast path: base constant added to an in-range offset is decided below
    evalBegin(s.model.get());
    uint64_t a0 = evalE(addr.e);
    int oi = s.mem.find(a0);
    auto inBounds = [&](const Obj* o) {
      Val of = vsub(addr, Val(64, o->base));
      Val lim = o->size;
      // of <= size - n  (n <= size)
      return vand(vule(n, lim), vule(of, vsub(lim, n)));
    };
    if (oi < 0) { memViolation(s, std::string(what) + ": wild pointer", s.model); return -1; }
    const Obj* o = s.mem.get(oi);
    Val in = inBounds(o);
    bool okHere;
    if (in.conc()) okHere = in.c;
    else { evalBegin(s.model.get()); okHere = evalE(in.e); }
    if (!okHere || o->freed) {
      // Is there another object for which the access is fine? The witness itself is bad already.
      std::string k = o->freed ? ": use after free" : (a0 < 4096 ? ": null pointer" : ": out of bounds");
      memViolation(s, std::string(what) + k, s.model);
      return -1;
    }
    in = know(s, in);
    if (!in.conc()) {
      std::shared_ptr<Model> mo;
      SatRes r = feasible(s, vnot(in), &mo);
      if (r == UNKNOWN) { incomplete(s, "solver timeout"); return -1; }
      if (r == SAT) {
        SP other = forkState(s);
        assumeTrue(*other, vnot(in), mo);
        gWork.push_back(std::move(other));
      }
      if (r == SAT) addCons(s, in.e);
    }
    off = vsub(addr, Val(64, o->base));
    if (write && o->ro) { memViolation(s, std::string(what) + ": write to constant memory", s.model); return -1; }
    return oi;
  }
  int oi = s.mem.find(addr.c);
  if (oi < 0) {
    memViolation(s, std::string(what) + (addr.c < 4096 ? ": null pointer" : ": wild pointer"), s.model);
    return -1;
  }
  const Obj* o = s.mem.get(oi);
  uint64_t of = addr.c - o->base;
  off = Val(64, of);
  if (o->freed && of <= o->cap) { memViolation(s, std::string(what) + ": use after free", s.model); return -1; }
  if (!o->symSize() && n.conc()) {
    if (of > o->cap || n.c > o->cap - of) {
      memViolation(s, std::string(what) + (addr.c < 4096 ? ": null pointer" : ": out of bounds"), s.model);
      return -1;
    }
  } else {
    Val in = know(s, vand(vule(n, o->size), vule(off, vsub(o->size, n))));
    Val bad = vnot(in);
    std::shared_ptr<Model> mo;
    SatRes r = feasible(s, bad, &mo);
    if (r == UNKNOWN) { incomplete(s, "solver timeout"); return -1; }
    if (r == SAT) {
      report(s, "memory", std::string(what) + ": out of bounds", *mo);
      std::shared_ptr<Model> mi;
      if (feasible(s, in, &mi) != SAT) { s.dead = true; return -1; }
      assumeTrue(s, in, mi);
    }
  }
  if (write && o->ro) { memViolation(s, std::string(what) + ": write to constant memory", s.model); return -1; }
  return oi;
}
static Val readBytes(State& s, int oi, Val off, uint32_t n, bool& ok) {
  const Obj* o = s.mem.get(oi);
  if (o->lazy) {
    Val r; r.w = 0;
    for (uint32_t i = 0; i < n; i++) {
      LP hold = s.mem.get(oi)->l;
      Val b = lazyRead(s, hold.get(), vadd(off, Val(64, i)), ok);
      if (!ok) return Val();
      r = vconcat(b, r);
    }
    return r;
  }
  if (off.conc()) {
    uint64_t of = off.c;
    bool und = false, sym = false;
    if (!o->d.s.empty()) for (uint32_t i = 0; i < n; i++) { if (o->d.s[of + i]) { sym = true; if (o->d.s[of + i] == UNDEF) und = true; } }
    if (!sym && n <= 8) {
      uint64_t v = 0;
      memcpy(&v, &o->d.b[of], n);
      return Val(n * 8, v);
    }
    if (und) {
      Obj* m = s.mem.mut(oi);
      for (uint32_t i = 0; i < n; i++) if (m->d.undef(of + i)) m->d.set(of + i, freshUndef(s));
      o = m;
    }
    Val r; r.w = 0;
    for (uint32_t i = 0; i < n; i++) r = vconcat(o->d.get(of + i), r);
    return r;
  }
  // symbolic offset, dense object
  uint64_t hi = o->cap - n, step = 1;
  uint32_t z = lowZ(off.e);
  if (z > 0) step = 1ull << std::min(z, 6u);
  uint64_t um = off.e->umax;
  if (um < hi) hi = um;
  hi -= hi % step;
  E ax; uint64_t ak, ac;
  bool useBits = affine(off.e, ax, ak, ac);
  if (!useBits && hi / step > 8192) { ok = false; return Val(); }
  if (useBits) hi = o->cap - n;
  if (!o->d.s.empty()) {
    Obj* m = nullptr;
    for (uint64_t i = 0; i < hi + n; i++)
      if (o->d.undef(i)) {
        // only materialise bytes that a load at a stepped offset can touch
        if (!m) { m = s.mem.mut(oi); o = m; }
        m->d.set(i, freshUndef(s));
      }
  }
  auto leaf = [&](uint64_t i) {
    Val r; r.w = 0;
    for (uint32_t k = 0; k < n; k++) r = vconcat(o->d.get(i + k), r);
    return r;
  };
  if (useBits) {
    int bits = 0;
    while (bits < 13 && (ax->umax >> bits)) bits++;
    Val r = bitSelect(leaf, Val(ax), bits - 1, 0, ax->umax, ak, ac, o->cap - n);
    if (r.w) return r;
  }
  return denseSelect(leaf, off, 0, hi, step);
}
static bool writeBytes(State& s, int oi, Val off, Val v, uint32_t n) {
  Obj* o = s.mem.mut(oi);
  if (o->lazy) {
    for (uint32_t i = 0; i < n; i++) {
      auto w = std::make_shared<LNode>();
      w->t = LNode::Write;
      w->idx = vadd(off, Val(64, i));
      w->v = vextract(v, i * 8, 8);
      w->next = o->l;
      o->l = w;
    }
    return true;
  }
  if (off.conc()) {
    if (v.conc() && n <= 8) {
      memcpy(&o->d.b[off.c], &v.c, n);
      if (!o->d.s.empty()) for (uint32_t i = 0; i < n; i++) o->d.s[off.c + i] = nullptr;
    } else for (uint32_t i = 0; i < n; i++) o->d.set(off.c + i, vextract(v, i * 8, 8));
    return true;
  }
  uint64_t hi = o->cap - n, step = 1;
  uint32_t z = lowZ(off.e);
  if (z > 0) step = 1ull << std::min(z, 6u);
  if (off.e->umax < hi) hi = off.e->umax;
  if (hi / step > 4096) { makeLazy(o); return writeBytes(s, oi, off, v, n); }
  for (uint64_t i = 0; i <= hi; i += step) {
    Val eq = veq(off, Val(64, i));
    if (eq.isFalse()) continue;
    for (uint32_t k = 0; k < n; k++) {
      Val old = o->d.get(i + k);
      if (!old.w) old = freshUndef(s);
      o->d.set(i + k, vite(eq, vextract(v, k * 8, 8), old));
    }
  }
  return true;
}
static LP lazyView(Obj* o) {
  if (o->lazy) return o->l;
  auto n = std::make_shared<LNode>();
  n->t = LNode::DenseBase;
  n->dense = std::make_shared<Dense>(o->d);
  return n;
}
// returns false if the path died or must be retried
static bool doMemcpy(State& s, Val dst, Val src, Val n, const char* what) {
  n = know(s, n);
  if (n.conc() && n.c == 0) return true;
  if (!n.conc()) {
    // decide whether the source is lazy
    Val sa = know(s, src);
    bool lz = false;
    if (sa.conc()) { int oi = s.mem.find(sa.c); if (oi >= 0) lz = s.mem.get(oi)->lazy; }
    else { ensureModel(s); evalBegin(s.model.get()); int oi = s.mem.find(evalE(sa.e)); if (oi >= 0) lz = s.mem.get(oi)->lazy; }
    if (!lz) {
      uint64_t c;
      if (!concretize(s, n, c)) return false;
      n = Val(64, c);
      if (c == 0) return true;
    } else {
      // zero length: pointers may be anything
      Val z = veq(n, Val(64, 0));
      Val nz = know(s, vnot(z));
      if (!nz.conc()) {
        std::shared_ptr<Model> m0, m1;
        SatRes r0 = feasible(s, z, &m0), r1 = feasible(s, vnot(z), &m1);
        if (r0 == UNKNOWN || r1 == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
        if (r0 == SAT && r1 == SAT) {
          SP o = forkState(s);
          assumeTrue(*o, z, m0);
          gWork.push_back(std::move(o));
          assumeTrue(s, vnot(z), m1);
        } else if (r0 == SAT) { return true; }
      } else if (nz.c == 0) return true;
    }
  }
  Val so, dof;
  int si = resolve(s, src, n, so, false, what);
  if (si < 0) return false;
  int di = resolve(s, dst, n, dof, true, what);
  if (di < 0) return false;
  if (n.conc() && so.conc() && dof.conc() && !s.mem.get(si)->lazy && !s.mem.get(di)->lazy) {
    ObjP hold;  // keep source alive across mut
    Dense tmp;
    const Obj* so_ = s.mem.get(si);
    uint64_t N = n.c;
    std::vector<uint8_t> b(so_->d.b.begin() + so.c, so_->d.b.begin() + so.c + N);
    std::vector<E> e;
    if (!so_->d.s.empty()) e.assign(so_->d.s.begin() + so.c, so_->d.s.begin() + so.c + N);
    Obj* d = s.mem.mut(di);
    std::copy(b.begin(), b.end(), d->d.b.begin() + dof.c);
    if (!e.empty()) {
      if (d->d.s.empty()) d->d.s.resize(d->d.b.size(), nullptr);
      std::copy(e.begin(), e.end(), d->d.s.begin() + dof.c);
    } else if (!d->d.s.empty()) std::fill(d->d.s.begin() + dof.c, d->d.s.begin() + dof.c + N, nullptr);
    return true;
  }
  if (n.conc() && n.c <= 256 && !s.mem.get(di)->lazy) {
    std::vector<Val> vs;
    bool ok = true;
    for (uint64_t i = 0; i < n.c; i++) {
      vs.push_back(readBytes(s, si, vadd(so, Val(64, i)), 1, ok));
      if (!ok) { incomplete(s, "memcpy read too large"); return false; }
    }
    for (uint64_t i = 0; i < n.c; i++) writeBytes(s, di, vadd(dof, Val(64, i)), vs[i], 1);
    return true;
  }
  LP sv = lazyView(s.mem.mut(si));
  Obj* d = s.mem.mut(di);
  makeLazy(d);
  auto c = std::make_shared<LNode>();
  c->t = LNode::Copy;
  c->idx = dof; c->len = n; c->src = sv; c->srcOff = so; c->next = d->l;
  d->l = c;
  return true;
}
static bool doMemset(State& s, Val dst, Val v, Val n) {
  n = know(s, n);
  if (n.conc() && n.c == 0) return true;
  if (!n.conc()) {
    Val da = know(s, dst);
    bool lz = false;
    if (da.conc()) { int oi = s.mem.find(da.c); if (oi >= 0) lz = s.mem.get(oi)->lazy; }
    if (!lz) {
      uint64_t c;
      if (!concretize(s, n, c)) return false;
      n = Val(64, c);
      if (c == 0) return true;
    }
  }
  Val of;
  int di = resolve(s, dst, n, of, true, "memset");
  if (di < 0) return false;
  Obj* d = s.mem.mut(di);
  v = vextract(v, 0, 8);
  if (n.conc() && of.conc() && !d->lazy) {
    for (uint64_t i = 0; i < n.c; i++) d->d.set(of.c + i, v);
    return true;
  }
  makeLazy(d);
  auto c = std::make_shared<LNode>();
  c->t = LNode::Fill;
  c->idx = of; c->len = n; c->v = v; c->next = d->l;
  d->l = c;
  return true;
}

// ------------------------------------------------------------------ constants
static uint64_t funcAddr(Function* F) {
  auto it = gGlobalAddr.find(F);
  if (it != gGlobalAddr.end()) return it->second;
  uint64_t a = 0x10000000ull + gFuncAt.size() * 16;
  gGlobalAddr[F] = a;
  gFuncAt[a] = F;
  return a;
}
static Val evalConst(Constant* C);
static Val fconst(const APFloat& f) { APInt b = f.bitcastToAPInt(); return mkConst(b); }
static Val evalConst(Constant* C) {
  if (auto* CI = dyn_cast<ConstantInt>(C)) return mkConst(CI->getValue());
  if (auto* CF = dyn_cast<ConstantFP>(C)) return fconst(CF->getValueAPF());
  if (isa<ConstantPointerNull>(C)) return Val(64, 0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return mkConst(APInt(bitsOf(C->getType()), 0));
  if (auto* F = dyn_cast<Function>(C)) return Val(64, funcAddr(F));
  if (auto* GA = dyn_cast<GlobalAlias>(C)) return evalConst(GA->getAliasee());
  if (auto* GV = dyn_cast<GlobalVariable>(C)) {
    auto it = gGlobalAddr.find(GV);
    if (it == gGlobalAddr.end()) die("global without address: " + GV->getName().str());
    return Val(64, it->second);
  }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
    Val r; r.w = 0;
    for (unsigned i = 0; i < C->getNumOperands(); i++) r = vconcat(evalConst(cast<Constant>(C->getOperand(i))), r);
    return r;
  }
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
    Val r; r.w = 0;
    for (unsigned i = 0; i < D->getNumElements(); i++) r = vconcat(evalConst(D->getElementAsConstant(i)), r);
    return r;
  }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) die("GEP constant");
        return vadd(evalConst(CE->getOperand(0)), mkConst(off));
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        Val v = evalConst(CE->getOperand(0));
        uint32_t w = bitsOf(CE->getType());
        return w <= v.w ? vextract(v, 0, w) : vzext(v, w);
      }
      case Instruction::Add: return vadd(evalConst(CE->getOperand(0)), evalConst(CE->getOperand(1)));
      case Instruction::Sub: return vsub(evalConst(CE->getOperand(0)), evalConst(CE->getOperand(1)));
      case Instruction::Trunc: return vextract(evalConst(CE->getOperand(0)), 0, bitsOf(CE->getType()));
      case Instruction::ZExt: return vzext(evalConst(CE->getOperand(0)), bitsOf(CE->getType()));
      case Instruction::ICmp: {
        Val a = evalConst(CE->getOperand(0)), b = evalConst(CE->getOperand(1));
        switch (CE->getPredicate()) {
          case CmpInst::ICMP_EQ: return veq(a, b);
          case CmpInst::ICMP_NE: return vne(a, b);
          case CmpInst::ICMP_ULT: return vult(a, b);
          case CmpInst::ICMP_UGT: return vult(b, a);
          default: break;
        }
        break;
      }
      default: break;
    }
    die(std::string("constant expression ") + CE->getOpcodeName());
  }
  std::string t;
  raw_string_ostream os(t);
  C->print(os);
  die("unsupported constant " + os.str());
}
static int constIdx(Constant* C) {
  auto it = gConstIdx.find(C);
  if (it != gConstIdx.end()) return it->second;
  int i = gConsts.size();
  gConsts.push_back(evalConst(C));
  gConstIdx[C] = i;
  return i;
}
static void initMem(Dense& d, uint64_t off, Constant* C) {
  Type* T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;  // zeroed
  if (auto* S = dyn_cast<ConstantStruct>(C)) {
    auto* SL = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) initMem(d, off + SL->getElementOffset(i), S->getOperand(i));
    return;
  }
  if (auto* A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) initMem(d, off + i * es, A->getOperand(i));
    return;
  }
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = D->getRawDataValues();
    memcpy(&d.b[off], r.data(), r.size());
    return;
  }
  Val v = evalConst(C);
  uint64_t n = DL->getTypeStoreSize(T);
  v = vzext(v, n * 8);
  for (uint64_t i = 0; i < n; i++) d.set(off + i, vextract(v, i * 8, 8));
}

// ------------------------------------------------------------------ builtins
enum BI {
  B_alloc = 0, B_free, B_memcpy, B_memset, B_memcmp, B_bcmp, B_sym, B_symbytes, B_symarr, B_assume, B_check,
  B_reach, B_param, B_fail, B_nop, B_observe, B_concretize, B_stop, B_issym, B_zeroarr, B_objsize, B_strlen,
  B_sscanf, B_fmodel, B_print, B_ceil, B_zero,
};
static const std::map<std::string, int> kBuiltins = {
    {"_Znwm", B_alloc}, {"_Znam", B_alloc}, {"malloc", B_alloc}, {"_ZnwmSt11align_val_t", B_alloc},
    {"_ZnwmRKSt9nothrow_t", B_alloc}, {"_ZnamRKSt9nothrow_t", B_alloc},
    {"_ZdlPv", B_free}, {"_ZdlPvm", B_free}, {"_ZdaPv", B_free}, {"_ZdaPvm", B_free}, {"free", B_free},
    {"_ZdlPvSt11align_val_t", B_free}, {"_ZdlPvmSt11align_val_t", B_free}, {"_ZdlPvRKSt9nothrow_t", B_free},
    {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_bcmp},
    {"strlen", B_strlen},
    {"sx_sym", B_sym}, {"sx_sym_bytes", B_symbytes}, {"sx_sym_array", B_symarr}, {"sx_assume", B_assume},
    {"sx_check", B_check}, {"sx_reach", B_reach}, {"sx_param", B_param}, {"sx_fail", B_fail},
    {"sx_observe", B_observe}, {"sx_concretize", B_concretize}, {"sx_stop", B_stop}, {"sx_is_symbolic", B_issym},
    {"sx_zero_array", B_zeroarr}, {"sx_print", B_print},
    {"__cxa_atexit", B_zero}, {"atexit", B_zero}, {"_ZNSt8ios_base4InitC1Ev", B_nop}, {"_ZNSt8ios_base4InitD1Ev", B_nop},
    {"sscanf", B_sscanf}, {"__isoc99_sscanf", B_sscanf}, {"__isoc23_sscanf", B_sscanf},
    {"ceilf", B_ceil}, {"ceil", B_ceil},
};

static bool cstr(State& s, Val p, std::string& out) {
  p = know(s, p);
  if (!p.conc()) return false;
  int oi = s.mem.find(p.c);
  if (oi < 0) return false;
  const Obj* o = s.mem.get(oi);
  if (o->lazy) return false;
  for (uint64_t i = p.c - o->base; i < o->cap; i++) {
    Val v = o->d.get(i);
    if (!v.w || !v.conc()) return false;
    if (!v.c) return true;
    out.push_back((char)v.c);
  }
  return false;
}
static std::string label(State& s, Val p) {
  std::string r;
  if (!cstr(s, p, r)) return "?";
  return r;
}
static std::string inputName(State& s, Val p) {
  std::string n = label(s, p);
  uint32_t k = s.counters["in:" + n]++;
  return n + "#" + std::to_string(k);
}
static void violation(State& s, const std::string& kind, const std::string& lab) {
  ensureModel(s);
  report(s, kind, lab, *s.model);
  s.dead = true;
}
static void finishPath(State& s);

// result via dest; returns false when the path died or is to be retried elsewhere
static bool callBuiltin(State& s, int b, std::vector<Val>& a, Val& ret, const KInst& ki) {
  switch (b) {
    case B_alloc: {
      Val n = know(s, a[0]);
      if (!n.conc()) {
        std::shared_ptr<Model> mo;
        SatRes r = feasible(s, vult(Val(64, 4096), n), &mo);
        if (r == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
        if (r == UNSAT) {
          uint64_t c;
          if (!concretize(s, n, c)) return false;
          n = Val(64, c);
        } else {
          // big symbolic allocation: lazy object with symbolic size; find a bound
          uint64_t cap = 1ull << 13;
          for (; cap <= (1ull << 34); cap <<= 1) {
            SatRes q = feasible(s, vult(Val(64, cap), n), nullptr);
            if (q == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
            if (q == UNSAT) break;
          }
          if (cap > (1ull << 34)) { violation(s, "memory", "allocation size unbounded"); return false; }
          uint32_t id = newObj(s, cap, n, true);
          Obj* o = s.mem.mut(id);
          o->l = lazyUndefBase(s);
          o->heap = true;
          ret = Val(64, o->base);
          return true;
        }
      }
      if (n.c > (1ull << 34)) { violation(s, "memory", "allocation size too large"); return false; }
      uint32_t id = alloc(s, n.c);
      Obj* o = s.mem.mut(id);
      o->heap = true;
      ret = Val(64, o->base);
      return true;
    }
    case B_free: {
      uint64_t p;
      if (!concretize(s, a[0], p)) return false;
      if (!p) return true;
      int oi = s.mem.find(p);
      if (oi < 0 || s.mem.get(oi)->base != p || !s.mem.get(oi)->heap) { violation(s, "memory", "invalid free"); return false; }
      if (s.mem.get(oi)->freed) { violation(s, "memory", "double free"); return false; }
      Obj* o = s.mem.mut(oi);
      o->freed = true;
      o->d = Dense();
      o->l.reset();
      return true;
    }
    case B_memcpy:
      if (!doMemcpy(s, a[0], a[1], a[2], "memcpy")) return false;
      ret = a[0];
      return true;
    case B_memset:
      if (!doMemset(s, a[0], a[1], a[2])) return false;
      ret = a[0];
      return true;
    case B_memcmp: case B_bcmp: {
      uint64_t n;
      if (!concretize(s, a[2], n)) return false;
      if (n == 0) { ret = Val(32, 0); return true; }
      Val o1, o2;
      int i1 = resolve(s, a[0], Val(64, n), o1, false, "memcmp");
      if (i1 < 0) return false;
      int i2 = resolve(s, a[1], Val(64, n), o2, false, "memcmp");
      if (i2 < 0) return false;
      bool ok = true;
      if (b == B_bcmp) {
        Val all(1, 1);
        for (uint64_t i = 0; i < n && !all.isFalse(); i++)
          all = vand(all, veq(readBytes(s, i1, vadd(o1, Val(64, i)), 1, ok), readBytes(s, i2, vadd(o2, Val(64, i)), 1, ok)));
        ret = vite(all, Val(32, 0), Val(32, 1));
      } else {
        std::vector<std::pair<Val, Val>> bs;
        for (uint64_t i = 0; i < n && ok; i++) {
          Val x = readBytes(s, i1, vadd(o1, Val(64, i)), 1, ok), y = readBytes(s, i2, vadd(o2, Val(64, i)), 1, ok);
          bs.push_back({x, y});
          if (ok && veq(x, y).isFalse()) break;
        }
        Val r(32, 0);
        if (ok) for (int i = (int)bs.size() - 1; i >= 0; i--)
          r = vite(veq(bs[i].first, bs[i].second), r, vite(vult(bs[i].first, bs[i].second), Val(32, (uint64_t)-1), Val(32, 1)));
        ret = r;
      }
      if (!ok) { incomplete(s, "memcmp read too large"); return false; }
      return true;
    }
    case B_strlen: {
      std::string t;
      if (cstr(s, a[0], t)) { ret = Val(64, t.size()); return true; }
      // scan: fork on each symbolic byte being zero
      uint64_t n = 0;
      Val base = know(s, a[0]);
      for (;; n++) {
        Val of;
        int oi = resolve(s, vadd(base, Val(64, n)), Val(64, 1), of, false, "strlen");
        if (oi < 0) return false;
        bool ok = true;
        Val c = readBytes(s, oi, of, 1, ok);
        Val z = know(s, veq(c, Val(8, 0)));
        if (z.isTrue()) break;
        if (z.isFalse()) continue;
        std::shared_ptr<Model> m0, m1;
        SatRes r0 = feasible(s, z, &m0), r1 = feasible(s, vnot(z), &m1);
        if (r0 == UNKNOWN || r1 == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
        if (r0 == SAT && r1 == SAT) {
          SP o = forkState(s);
          assumeTrue(*o, vnot(z), m1);
          gWork.push_back(std::move(o));
          assumeTrue(s, z, m0);
          break;
        }
        if (r0 == SAT) break;
      }
      ret = Val(64, n);
      return true;
    }
    case B_sym: {
      uint64_t w;
      if (!concretize(s, a[0], w)) return false;
      std::string n = inputName(s, a[1]);
      uint32_t id = newVar(n, w, 0);
      s.inputs.push_back({n, id, 0, Val()});
      ret = vzext(varVal(id), 64);
      return true;
    }
    case B_symbytes: {
      uint64_t n;
      if (!concretize(s, a[1], n)) return false;
      std::string nm = inputName(s, a[2]);
      if (!n) return true;
      Val of;
      int oi = resolve(s, a[0], Val(64, n), of, true, "sx_sym_bytes");
      if (oi < 0) return false;
      for (uint64_t i = 0; i < n; i++) {
        std::string bn = nm + "[" + std::to_string(i) + "]";
        uint32_t id = newVar(bn, 8, 0);
        s.inputs.push_back({bn, id, 0, Val()});
        writeBytes(s, oi, vadd(of, Val(64, i)), varVal(id), 1);
      }
      return true;
    }
    case B_symarr: case B_zeroarr: {  // (cap, size, name) -> ptr to lazily symbolic bytes
      uint64_t cap;
      if (!concretize(s, a[0], cap)) return false;
      uint32_t id = newObj(s, cap, know(s, a[1]), true);
      Obj* o = s.mem.mut(id);
      o->heap = true;
      auto n = std::make_shared<LNode>();
      if (b == B_symarr) {
        std::string nm = inputName(s, a[2]);
        n->t = LNode::Arr;
        n->arr = newVar(nm, 8, 1);
        s.inputs.push_back({nm, n->arr, 1, o->size});
      } else n->t = LNode::Const;
      o->l = n;
      ret = Val(64, o->base);
      return true;
    }
    case B_assume: {
      Val c = know(s, vne(a[0], Val(a[0].w, 0)));
      if (c.conc()) { if (!c.c) { gPruned++; s.dead = true; } return true; }
      std::shared_ptr<Model> mo;
      SatRes r = feasible(s, c, &mo);
      if (r == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
      if (r == UNSAT) { gPruned++; s.dead = true; return true; }
      assumeTrue(s, c, mo);
      return true;
    }
    case B_check: {
      std::string l = label(s, a[1]);
      gChecks[l]++;
      Val c = know(s, vne(a[0], Val(a[0].w, 0)));
      if (c.conc()) {
        gChecksConc[l]++;
        if (!c.c) violation(s, "check", l);
        return true;
      }
      std::shared_ptr<Model> mo;
      SatRes r = feasible(s, vnot(c), &mo);
      if (r == UNKNOWN) { incomplete(s, "solver timeout (" + l + ")"); return false; }
      if (r == SAT) {
        report(s, "check", l, *mo);
        std::shared_ptr<Model> mt;
        if (feasible(s, c, &mt) != SAT) { s.dead = true; return true; }
        assumeTrue(s, c, mt);
      } else addCons(s, c.e);
      return true;
    }
    case B_reach: gReach[label(s, a[0])]++; return true;
    case B_param: {
      std::string n = label(s, a[0]);
      auto it = oParams.find(n);
      if (it == oParams.end()) die("missing parameter " + n);
      ret = Val(64, it->second);
      return true;
    }
    case B_fail: violation(s, "fail", label(s, a[0])); return true;
    case B_observe: s.observed.push_back({label(s, a[0]), a[1]}); return true;
    case B_concretize: {
      uint64_t c;
      if (!concretize(s, a[0], c)) return false;
      ret = Val(a[0].w, c);
      return true;
    }
    case B_stop: finishPath(s); return true;
    case B_issym: ret = Val(32, !know(s, a[0]).conc()); return true;
    case B_nop: return true;
    case B_zero: ret = Val(32, 0); return true;
    case B_print:
      if (oTrace) {
        std::string v = a[1].conc() ? std::to_string(a[1].c) : exprStr(a[1].e, 6);
        fprintf(stderr, "PRINT %s %s\n", label(s, a[0]).c_str(), v.c_str());
      }
      return true;
    case B_ceil: {
      Val v = a[0];
      if (!v.conc()) { incomplete(s, "symbolic ceil"); return false; }
      if (v.w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); f = ceilf(f); memcpy(&u, &f, 4); ret = Val(32, u); }
      else { double f; memcpy(&f, &v.c, 8); f = ceil(f); uint64_t u; memcpy(&u, &f, 8); ret = Val(64, u); }
      return true;
    }
  }
  die("builtin");
}

// ------------------------------------------------------------------ compile
static int slotOf(DenseMap<Value*, int>& slots, Value* v) {
  if (auto* C = dyn_cast<Constant>(v)) return -1 - constIdx(C);
  auto it = slots.find(v);
  if (it == slots.end()) return INT_MIN;
  return it->second;
}
static KFunc* compile(Function* F) {
  auto it = gFuncs.find(F);
  if (it != gFuncs.end()) return it->second;
  KFunc* k = new KFunc;
  gFuncs[F] = k;
  k->F = F;
  DenseMap<Value*, int> slots;
  int n = 0;
  for (auto& A : F->args()) slots[&A] = n++;
  k->nargs = n;
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) slots[&I] = n++;
  k->nslots = n;
  for (auto& B : *F) {
    k->start[&B] = k->insts.size();
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki;
      ki.I = &I;
      ki.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) { ki.dest = slots[&I]; ki.w = bitsOf(I.getType()); }
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        for (auto& A : CB->args()) {
          if (A->getType()->isMetadataTy()) { ki.ops.push_back(INT_MIN); continue; }
          ki.ops.push_back(slotOf(slots, A.get()));
        }
        Value* cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
        if (auto* CF = dyn_cast<Function>(cv)) {
          ki.callee = CF;
          if (!CF->isIntrinsic()) {
            auto b = kBuiltins.find(CF->getName().str());
            if (b != kBuiltins.end()) ki.builtin = b->second;
          }
        } else if (!isa<InlineAsm>(cv)) ki.ops.push_back(slotOf(slots, CB->getCalledOperand()));
      } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(slotOf(slots, G->getPointerOperand()));
        if (G->getType()->isVectorTy()) die("vector GEP");
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          if (auto* ST = gi.getStructTypeOrNull()) {
            ki.off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
          } else {
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* CI = dyn_cast<ConstantInt>(gi.getOperand())) ki.off += CI->getSExtValue() * sc;
            else ki.scaled.push_back({slotOf(slots, gi.getOperand()), sc});
          }
        }
      } else if (auto* P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) ki.ops.push_back(slotOf(slots, P->getIncomingValue(i)));
      } else if (auto* Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) ki.ops.push_back(slotOf(slots, Br->getCondition()));
      } else if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
        ki.ops.push_back(slotOf(slots, Sw->getCondition()));
        if (bitsOf(Sw->getCondition()->getType()) <= 64) {
          ki.swc = new std::unordered_map<uint64_t, uint32_t>;
          for (auto c : Sw->cases()) (*ki.swc)[c.getCaseValue()->getZExtValue()] = c.getCaseIndex();
        }
      } else {
        for (auto& O : I.operands()) {
          if (isa<BasicBlock>(O.get())) continue;
          ki.ops.push_back(slotOf(slots, O.get()));
        }
      }
      k->insts.push_back(std::move(ki));
    }
  }
  return k;
}

// ------------------------------------------------------------------ execution
static inline const Val& opv(Frame& f, int o) { return o >= 0 ? f.regs[o] : gConsts[-1 - o]; }

static bool jump(State& s, Frame& f, BasicBlock* from, BasicBlock* to) {
  uint32_t t = f.kf->start[to];
  // phis in parallel
  SmallVector<std::pair<int, Val>, 8> vals;
  uint32_t pc = t;
  while (f.kf->insts[pc].op == Instruction::PHI) {
    KInst& ki = f.kf->insts[pc];
    ki.hit = true;
    auto* P = cast<PHINode>(ki.I);
    int i = P->getBasicBlockIndex(from);
    vals.push_back({ki.dest, opv(f, ki.ops[i])});
    pc++;
  }
  for (auto& v : vals) f.regs[v.first] = v.second;
  f.pc = pc;
  return true;
}
static void finishPath(State& s) {
  gPaths++;
  ensureModel(s);
  bool take = gSampleTxt.size() < oSamples;
  static uint64_t rng = 88172645463325252ull ^ (oSeed * 0x9E3779B97F4A7C15ull);
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  size_t pos = gSampleTxt.size();
  if (!take && oSamples && rng % gPaths < oSamples) { take = true; pos = rng % oSamples; }
  if (take) {
    std::string t = inputsText(s, *s.model);
    evalBegin(s.model.get());
    for (auto& o : s.observed) {
      uint64_t v = o.second.conc() ? o.second.c : evalE(o.second.e);
      t += "obs " + o.first + " " + std::to_string(v) + "\n";
    }
    if (pos == gSampleTxt.size()) gSampleTxt.push_back(t);
    else gSampleTxt[pos] = t;
  }
  s.dead = true;
}
static void popFrame(State& s, const Val& rv) {
  Frame& f = s.top();
  for (uint32_t a : f.allocas) {
    Obj* o = s.mem.mut(a);
    o->freed = true;
    o->d = Dense();
    o->l.reset();
  }
  int rd = f.retDest;
  s.st.pop_back();
  if (s.st.empty()) { finishPath(s); return; }
  if (rd >= 0) s.top().regs[rd] = rv;
}
static void pushFrame(State& s, KFunc* kf, std::vector<Val>& args, int dest) {
  kf->entered = true;
  auto f = std::make_shared<Frame>();
  f->kf = kf;
  f->regs.resize(kf->nslots);
  unsigned n = kf->nargs;
  for (unsigned i = 0; i < n && i < args.size(); i++) f->regs[i] = args[i];
  for (unsigned i = n; i < args.size(); i++) f->varargs.push_back(args[i]);
  f->retDest = dest;
  f->pc = 0;
  s.st.push_back(f);
  if (s.st.size() > 2000) incomplete(s, "call stack too deep");
}

static double toD(const Val& v) {
  if (v.w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromD(double d, uint32_t w) {
  if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val(32, u); }
  uint64_t u; memcpy(&u, &d, 8); return Val(64, u);
}

// fork on a condition; afterwards s continues with the outcome in *taken.
static bool forkCond(State& s, Val c, bool& taken, const std::function<void(State&, bool)>& cont) {
  c = know(s, c);
  if (c.conc()) { taken = c.c; return true; }
  std::shared_ptr<Model> mt, mf;
  ensureModel(s);
  SatRes rt = feasible(s, c, &mt);
  SatRes rf = feasible(s, vnot(c), &mf);
  if (rt == UNKNOWN || rf == UNKNOWN) { incomplete(s, "solver timeout"); return false; }
  if (rt == SAT && rf == SAT) {
    SP o = forkState(s);
    assumeTrue(*o, vnot(c), mf);
    cont(*o, false);
    if (!o->dead) gWork.push_back(std::move(o));
    assumeTrue(s, c, mt);
    taken = true;
    return true;
  }
  if (rt == SAT) { learn(s, c.e); taken = true; return true; }
  if (rf == SAT) { Val nc = vnot(c); if (nc.e) learn(s, nc.e); taken = false; return true; }
  // path condition itself is inconsistent: cannot happen (model exists)
  die("inconsistent path");
}

static Val cmpVals(CmpInst::Predicate p, const Val& a, const Val& b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return veq(a, b);
    case CmpInst::ICMP_NE: return vne(a, b);
    case CmpInst::ICMP_UGT: return vult(b, a);
    case CmpInst::ICMP_UGE: return vule(b, a);
    case CmpInst::ICMP_ULT: return vult(a, b);
    case CmpInst::ICMP_ULE: return vule(a, b);
    case CmpInst::ICMP_SGT: return vslt(b, a);
    case CmpInst::ICMP_SGE: return vsle(b, a);
    case CmpInst::ICMP_SLT: return vslt(a, b);
    case CmpInst::ICMP_SLE: return vsle(a, b);
    default: die("icmp predicate");
  }
}
static Val binop(unsigned op, const Val& a, const Val& b) {
  switch (op) {
    case Instruction::Add: return vadd(a, b);
    case Instruction::Sub: return vsub(a, b);
    case Instruction::Mul: return vmul(a, b);
    case Instruction::And: return vand(a, b);
    case Instruction::Or: return vor(a, b);
    case Instruction::Xor: return vxor(a, b);
    case Instruction::Shl: return vshl(a, b);
    case Instruction::LShr: return vlshr(a, b);
    case Instruction::AShr: return vashr(a, b);
    case Instruction::UDiv: return vudiv(a, b);
    case Instruction::SDiv: return vsdiv(a, b);
    case Instruction::URem: return vurem(a, b);
    case Instruction::SRem: return vsrem(a, b);
  }
  die("binop");
}
// elementwise over vectors
static Val vecMap(Type* T, const Val& a, const Val& b, const std::function<Val(Val, Val)>& f) {
  auto* V = dyn_cast<FixedVectorType>(T);
  if (!V) return f(a, b);
  uint32_t n = V->getNumElements(), ew = bitsOf(V->getElementType());
  Val r; r.w = 0;
  for (uint32_t i = 0; i < n; i++) r = vconcat(f(vextract(a, i * ew, ew), b.w ? vextract(b, i * ew, ew) : b), r);
  return r;
}
static Val ctz(const Val& v) {
  Val r(v.w, v.w);
  for (int i = v.w - 1; i >= 0; i--) r = vite(vextract(v, i, 1), Val(v.w, i), r);
  return r;
}
static Val clz(const Val& v) {
  Val r(v.w, v.w);
  for (uint32_t i = 0; i < v.w; i++) r = vite(vextract(v, i, 1), Val(v.w, v.w - 1 - i), r);
  return r;
}

// Handles an intrinsic. Returns false if path died/retry.
static bool intrinsic(State& s, Frame& f, KInst& ki, Val& ret) {
  auto* II = cast<IntrinsicInst>(ki.I);
  auto A = [&](int i) -> Val { return opv(f, ki.ops[i]); };
  switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      return doMemcpy(s, A(0), A(1), vzext(A(2), 64), "memcpy");
    case Intrinsic::memset: return doMemset(s, A(0), A(1), vzext(A(2), 64));
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start:
    case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend:
      if (!II->getType()->isVoidTy()) ret = Val(64, 0);
      return true;
    case Intrinsic::stacksave: ret = Val(64, 0); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: ret = A(0); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = A(0); return true;
    case Intrinsic::umax: ret = vecMap(II->getType(), A(0), A(1), [](Val a, Val b) { return vite(vult(a, b), b, a); }); return true;
    case Intrinsic::umin: ret = vecMap(II->getType(), A(0), A(1), [](Val a, Val b) { return vite(vult(a, b), a, b); }); return true;
    case Intrinsic::smax: ret = vecMap(II->getType(), A(0), A(1), [](Val a, Val b) { return vite(vslt(a, b), b, a); }); return true;
    case Intrinsic::smin: ret = vecMap(II->getType(), A(0), A(1), [](Val a, Val b) { return vite(vslt(a, b), a, b); }); return true;
    case Intrinsic::abs: { Val a = A(0); ret = vite(vslt(a, mkConst(APInt(a.w, 0))), vneg(a), a); return true; }
    case Intrinsic::ctpop: {
      Val a = A(0), r(a.w, 0);
      for (uint32_t i = 0; i < a.w; i++) r = vadd(r, vzext(vextract(a, i, 1), a.w));
      ret = r; return true;
    }
    case Intrinsic::cttz: ret = ctz(A(0)); return true;
    case Intrinsic::ctlz: ret = clz(A(0)); return true;
    case Intrinsic::bswap: {
      Val a = A(0), r; r.w = 0;
      for (uint32_t i = 0; i < a.w; i += 8) r = vconcat(r, vextract(a, i, 8));
      ret = r; return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Val a = A(0), b = A(1), c = A(2);
      uint32_t w = a.w;
      Val cat = vconcat(a, b);
      Val sh = vzext(vurem(c, Val(w, w)), 2 * w);
      if (II->getIntrinsicID() == Intrinsic::fshl) ret = vextract(vshl(cat, sh), w, w);
      else ret = vextract(vlshr(cat, sh), 0, w);
      return true;
    }
    case Intrinsic::uadd_with_overflow: { Val a = A(0), b = A(1), r = vadd(a, b); ret = vconcat(vult(r, a), r); return true; }
    case Intrinsic::usub_with_overflow: { Val a = A(0), b = A(1); ret = vconcat(vult(a, b), vsub(a, b)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      Val a = A(0), b = A(1);
      uint32_t w = a.w, W = 2 * w;
      auto id = II->getIntrinsicID();
      if (id == Intrinsic::umul_with_overflow) {
        Val r = vmul(vzext(a, W), vzext(b, W));
        ret = vconcat(vne(vextract(r, w, w), mkConst(APInt(w, 0))), vextract(r, 0, w));
        return true;
      }
      Val x = vsext(a, W), y = vsext(b, W);
      Val r = id == Intrinsic::sadd_with_overflow ? vadd(x, y) : id == Intrinsic::ssub_with_overflow ? vsub(x, y) : vmul(x, y);
      Val lo = vextract(r, 0, w);
      ret = vconcat(vne(vsext(lo, W), r), lo);
      return true;
    }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); ret = vite(vult(a, b), mkConst(APInt(a.w, 0)), vsub(a, b)); return true; }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1), r = vadd(a, b); ret = vite(vult(r, a), mkConst(APInt::getAllOnes(a.w)), r); return true; }
    case Intrinsic::is_constant: ret = Val(1, 0); return true;
    case Intrinsic::objectsize: ret = mkConst(APInt::getAllOnes(ki.w)); return true;
    case Intrinsic::ptrmask: ret = vand(A(0), A(1)); return true;
    case Intrinsic::trap: violation(s, "trap", "trap"); return false;
    case Intrinsic::debugtrap: return true;
    case Intrinsic::ubsantrap: violation(s, "ub", "undefined behaviour (ubsan trap " + std::to_string(A(0).c) + ")"); return false;
    case Intrinsic::load_relative: {
      Val p = vadd(A(0), vsext(A(1), 64)), of;
      int oi = resolve(s, p, Val(64, 4), of, false, "load");
      if (oi < 0) return false;
      bool ok = true;
      Val v = readBytes(s, oi, of, 4, ok);
      ret = vadd(A(0), vsext(v, 64));
      return ok;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
      auto* V = cast<FixedVectorType>(II->getArgOperand(0)->getType());
      uint32_t n = V->getNumElements(), ew = bitsOf(V->getElementType());
      Val a = A(0), r = vextract(a, 0, ew);
      for (uint32_t i = 1; i < n; i++) {
        Val x = vextract(a, i * ew, ew);
        switch (II->getIntrinsicID()) {
          case Intrinsic::vector_reduce_or: r = vor(r, x); break;
          case Intrinsic::vector_reduce_and: r = vand(r, x); break;
          case Intrinsic::vector_reduce_xor: r = vxor(r, x); break;
          default: r = vadd(r, x);
        }
      }
      ret = r; return true;
    }
    case Intrinsic::ceil: case Intrinsic::floor: {
      Val a = A(0);
      if (!a.conc()) break;
      ret = fromD(II->getIntrinsicID() == Intrinsic::ceil ? ceil(toD(a)) : floor(toD(a)), a.w);
      return true;
    }
    case Intrinsic::vastart: incomplete(s, "va_start"); return false;
    default: break;
  }
  incomplete(s, "intrinsic " + II->getCalledFunction()->getName().str());
  return false;
}

static void step(State& s);

static bool doCall(State& s, Frame& f, KInst& ki) {
  auto* CB = cast<CallBase>(ki.I);
  auto advance = [&](State& st) {
    Frame& g = st.top();
    if (auto* IV = dyn_cast<InvokeInst>(ki.I)) jump(st, g, IV->getParent(), IV->getNormalDest());
    else g.pc++;
  };
  Function* F = ki.callee;
  if (F && F->isIntrinsic()) {
    Val ret;
    uint32_t pc = f.pc;
    if (!intrinsic(s, f, ki, ret)) return false;
    Frame& g = s.top();
    (void)pc;
    if (ki.dest >= 0) g.regs[ki.dest] = ret;
    advance(s);
    return true;
  }
  unsigned nargs = CB->arg_size();
  std::vector<Val> args;
  args.reserve(nargs);
  for (unsigned i = 0; i < nargs; i++) args.push_back(ki.ops[i] == INT_MIN ? Val(64, 0) : opv(f, ki.ops[i]));
  if (!F) {
    if (isa<InlineAsm>(CB->getCalledOperand())) {
      auto* IA = cast<InlineAsm>(CB->getCalledOperand());
      if (IA->getAsmString().empty()) {  // compiler barrier
        if (ki.dest >= 0) f.regs[ki.dest] = nargs ? args[0] : Val(ki.w, 0);
        advance(s);
        return true;
      }
      incomplete(s, "inline asm");
      return false;
    }
    uint64_t a;
    if (!concretize(s, opv(f, ki.ops[nargs]), a)) return false;
    auto it = gFuncAt.find(a);
    if (it == gFuncAt.end()) { violation(s, "memory", a < 4096 ? "call of null function" : "call of a non-function"); return false; }
    F = it->second;
  }
  int bi = ki.builtin;
  if (bi < 0 && ki.callee == nullptr) {
    auto b = kBuiltins.find(F->getName().str());
    if (b != kBuiltins.end()) bi = b->second;
  }
  if (bi == B_sscanf) {
    F = M->getFunction("__sx_sscanf3");
    if (!F) { incomplete(s, "sscanf without model"); return false; }
    bi = -1;
  }
  if (bi >= 0) {
    Val ret;
    if (!callBuiltin(s, bi, args, ret, ki)) return false;
    if (s.dead) return true;
    Frame& g = s.top();
    if (ki.dest >= 0) g.regs[ki.dest] = ret.w ? (ret.w == ki.w ? ret : vzext(ret, ki.w)) : Val(ki.w, 0);
    advance(s);
    return true;
  }
  if (F->isDeclaration()) {
    std::string n = F->getName().str();
    if (n.find("__glibcxx_assert_fail") != std::string::npos || n.find("__throw_") != std::string::npos || n == "__cxa_throw" || n == "_ZSt9terminatev" || n == "abort" ||
        n == "__cxa_pure_virtual" || n == "__cxa_bad_cast" || n == "__cxa_throw_bad_array_new_length") {
      violation(s, "abort", demangle(n));
      return false;
    }
    if (n == "__assert_fail") {
      violation(s, "assert", "assertion failed: " + label(s, args[0]));
      return false;
    }
    if (n == "exit" || n == "_exit") { finishPath(s); return true; }
    incomplete(s, "call of unmodelled function " + demangle(n));
    return false;
  }
  KFunc* kf = compile(F);
  // byval arguments
  for (unsigned i = 0; i < nargs; i++)
    if (CB->isByValArgument(i)) {
      uint64_t n = DL->getTypeAllocSize(CB->getParamByValType(i));
      uint32_t id = alloc(s, n);
      Val p(64, s.mem.get(id)->base);
      if (!doMemcpy(s, p, args[i], Val(64, n), "byval copy")) return false;
      args[i] = p;
    }
  advance(s);
  pushFrame(s, kf, args, ki.dest);
  return true;
}

static void step(State& s) {
  Frame& f = s.top();
  KInst& ki = f.kf->insts[f.pc];
  ki.hit = true;
  s.steps++;
  gSteps++;
  Instruction* I = ki.I;
  switch (ki.op) {
    case Instruction::Ret: {
      Val rv = ki.ops.empty() ? Val() : opv(f, ki.ops[0]);
      popFrame(s, rv);
      return;
    }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional()) { jump(s, f, B->getParent(), B->getSuccessor(0)); return; }
      Val c = opv(f, ki.ops[0]);
      bool taken;
      if (!forkCond(s, c, taken, [&](State& o, bool t) { jump(o, o.top(), B->getParent(), B->getSuccessor(t ? 0 : 1)); })) return;
      jump(s, s.top(), B->getParent(), B->getSuccessor(taken ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* S = cast<SwitchInst>(I);
      Val c = know(s, opv(f, ki.ops[0]));
      if (c.conc()) {
        auto it = ki.swc->find(c.c);
        BasicBlock* d = it == ki.swc->end() ? S->getDefaultDest() : S->getSuccessor(it->second + 1);
        jump(s, f, S->getParent(), d);
        return;
      }
      // group by successor
      std::vector<std::pair<BasicBlock*, Val>> groups;
      Val any(1, 0);
      for (auto cs : S->cases()) {
        Val eq = veq(c, mkConst(cs.getCaseValue()->getValue()));
        if (eq.isFalse()) continue;
        any = vor(any, eq);
        bool found = false;
        for (auto& g : groups) if (g.first == cs.getCaseSuccessor()) { g.second = vor(g.second, eq); found = true; }
        if (!found) groups.push_back({cs.getCaseSuccessor(), eq});
      }
      Val dflt = vnot(any);
      bool found = false;
      for (auto& g : groups) if (g.first == S->getDefaultDest()) { g.second = vor(g.second, dflt); found = true; }
      if (!found) groups.push_back({S->getDefaultDest(), dflt});
      std::vector<std::pair<size_t, std::shared_ptr<Model>>> ok;
      for (size_t i = 0; i < groups.size(); i++) {
        Val g = know(s, groups[i].second);
        std::shared_ptr<Model> mo;
        SatRes r = feasible(s, g, &mo);
        if (r == UNKNOWN) { incomplete(s, "solver timeout"); return; }
        if (r == SAT) ok.push_back({i, mo});
      }
      if (ok.empty()) die("switch: no feasible successor");
      for (size_t k = 1; k < ok.size(); k++) {
        SP o = forkState(s);
        assumeTrue(*o, groups[ok[k].first].second, ok[k].second);
        jump(*o, o->top(), S->getParent(), groups[ok[k].first].first);
        gWork.push_back(std::move(o));
      }
      if (ok.size() > 1) assumeTrue(s, groups[ok[0].first].second, ok[0].second);
      jump(s, s.top(), S->getParent(), groups[ok[0].first].first);
      return;
    }
    case Instruction::Unreachable: violation(s, "ub", "unreachable code reached"); return;
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, ki); return;
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(A->getAllocatedType());
      uint64_t cnt;
      if (!concretize(s, opv(f, ki.ops[0]), cnt)) return;
      uint32_t id = alloc(s, n * cnt);
      Obj* o = s.mem.mut(id);
      o->stack = true;
      Frame& g = s.top();
      g.allocas.push_back(id);
      g.regs[ki.dest] = Val(64, o->base);
      g.pc++;
      return;
    }
    case Instruction::Load: {
      uint32_t bytes = (ki.w + 7) / 8;
      Type* T = I->getType();
      if (isAgg(T)) {
        // load field by field
        std::function<bool(Type*, uint64_t, Val&)> go = [&](Type* t, uint64_t off, Val& out) -> bool {
          if (auto* ST = dyn_cast<StructType>(t)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) if (!go(ST->getElementType(i), off + SL->getElementOffset(i), out)) return false;
            return true;
          }
          if (auto* AT = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(AT->getElementType());
            for (unsigned i = 0; i < AT->getNumElements(); i++) if (!go(AT->getElementType(), off + i * es, out)) return false;
            return true;
          }
          uint32_t w = bitsOf(t), nb = (w + 7) / 8;
          Val of;
          int oi = resolve(s, vadd(opv(s.top(), ki.ops[0]), Val(64, off)), Val(64, nb), of, false, "load");
          if (oi < 0) return false;
          bool ok = true;
          Val v = readBytes(s, oi, of, nb, ok);
          if (!ok) { incomplete(s, "load: object too large"); return false; }
          out = vconcat(vextract(v, 0, w), out);
          return true;
        };
        Val out; out.w = 0;
        if (!go(T, 0, out)) return;
        Frame& g = s.top();
        g.regs[ki.dest] = out;
        g.pc++;
        return;
      }
      Val of;
      int oi = resolve(s, opv(f, ki.ops[0]), Val(64, bytes), of, false, "load");
      if (oi < 0) return;
      bool ok = true;
      Val v = readBytes(s, oi, of, bytes, ok);
      if (!ok) {
        uint64_t a;
        if (!concretize(s, of, a)) return;
        ok = true;
        v = readBytes(s, oi, Val(64, a), bytes, ok);
        if (!ok) { incomplete(s, "load: object too large"); return; }
      }
      Frame& g = s.top();
      g.regs[ki.dest] = v.w == ki.w ? v : vextract(v, 0, ki.w);
      g.pc++;
      return;
    }
    case Instruction::Store: {
      Val v = opv(f, ki.ops[0]);
      Type* T = cast<StoreInst>(I)->getValueOperand()->getType();
      if (isAgg(T)) {
        uint32_t bit = 0;
        std::function<bool(Type*, uint64_t)> go = [&](Type* t, uint64_t off) -> bool {
          if (auto* ST = dyn_cast<StructType>(t)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) if (!go(ST->getElementType(i), off + SL->getElementOffset(i))) return false;
            return true;
          }
          if (auto* AT = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(AT->getElementType());
            for (unsigned i = 0; i < AT->getNumElements(); i++) if (!go(AT->getElementType(), off + i * es)) return false;
            return true;
          }
          uint32_t w = bitsOf(t), nb = (w + 7) / 8;
          Val of;
          int oi = resolve(s, vadd(opv(s.top(), ki.ops[1]), Val(64, off)), Val(64, nb), of, true, "store");
          if (oi < 0) return false;
          writeBytes(s, oi, of, vzext(vextract(v, bit, w), nb * 8), nb);
          bit += w;
          return true;
        };
        if (!go(T, 0)) return;
        s.top().pc++;
        return;
      }
      uint32_t bytes = (v.w + 7) / 8;
      if (v.w % 8) v = vzext(v, bytes * 8);
      Val of;
      int oi = resolve(s, opv(f, ki.ops[1]), Val(64, bytes), of, true, "store");
      if (oi < 0) return;
      writeBytes(s, oi, of, v, bytes);
      s.top().pc++;
      return;
    }
    case Instruction::GetElementPtr: {
      Val p = opv(f, ki.ops[0]);
      if (ki.off) p = vadd(p, Val(64, ki.off));
      for (auto& sc : ki.scaled) {
        Val i = opv(f, sc.first);
        i = i.w < 64 ? vsext(i, 64) : i;
        p = vadd(p, vmul(i, Val(64, (uint64_t)sc.second)));
      }
      f.regs[ki.dest] = p;
      f.pc++;
      return;
    }
    case Instruction::ICmp: {
      auto* C = cast<ICmpInst>(I);
      auto p = C->getPredicate();
      Type* T = C->getOperand(0)->getType();
      const Val &a = opv(f, ki.ops[0]), &b = opv(f, ki.ops[1]);
      f.regs[ki.dest] = T->isVectorTy() ? vecMap(T, a, b, [p](Val x, Val y) { return cmpVals(p, x, y); }) : cmpVals(p, a, b);
      f.pc++;
      return;
    }
    case Instruction::Select: {
      Val c = opv(f, ki.ops[0]);
      Val a = opv(f, ki.ops[1]), b = opv(f, ki.ops[2]);
      if (c.w > 1) {
        auto* V = cast<FixedVectorType>(I->getType());
        uint32_t n = V->getNumElements(), ew = bitsOf(V->getElementType());
        Val r; r.w = 0;
        for (uint32_t i = 0; i < n; i++) r = vconcat(vite(vextract(c, i, 1), vextract(a, i * ew, ew), vextract(b, i * ew, ew)), r);
        f.regs[ki.dest] = r;
      } else {
        c = know(s, c);
        // Selects between pointers or between constant sizes are branches the
        // optimizer folded: explore the two sides separately.
        if (!c.conc() && gSelectFork && (I->getType()->isPointerTy() || (a.w == 64 && a.conc() && b.conc()))) {
          Val d = veq(a, b);
          if (!d.isTrue()) {
            bool taken;
            uint32_t dest = ki.dest;
            if (!forkCond(s, c, taken, [&](State& o, bool t) { Frame& g = o.top(); g.regs[dest] = t ? a : b; g.pc++; })) return;
            Frame& g = s.top();
            g.regs[dest] = taken ? a : b;
            g.pc++;
            return;
          }
        }
        f.regs[ki.dest] = vite(c, a, b);
      }
      f.pc++;
      return;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a = opv(f, ki.ops[0]), b = know(s, opv(f, ki.ops[1]));
      if (I->getType()->isVectorTy()) { incomplete(s, "vector division"); return; }
      Val bad = veq(b, mkConst(APInt(b.w, 0)));
      bool sg = ki.op == Instruction::SDiv || ki.op == Instruction::SRem;
      if (sg) bad = vor(bad, vand(veq(a, mkConst(APInt::getSignedMinValue(a.w))), veq(b, mkConst(APInt::getAllOnes(b.w)))));
      bad = know(s, bad);
      if (!bad.isFalse()) {
        std::shared_ptr<Model> mo, mi;
        SatRes r = feasible(s, bad, &mo);
        if (r == UNKNOWN) { incomplete(s, "solver timeout"); return; }
        if (r == SAT) {
          report(s, "arith", "division by zero or overflowing division", *mo);
          if (feasible(s, vnot(bad), &mi) != SAT) { s.dead = true; return; }
          assumeTrue(s, vnot(bad), mi);
        }
      }
      s.top().regs[ki.dest] = binop(ki.op, a, b);
      s.top().pc++;
      return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      const Val &a = opv(f, ki.ops[0]), &b = opv(f, ki.ops[1]);
      unsigned op = ki.op;
      Val r = I->getType()->isVectorTy() ? vecMap(I->getType(), a, b, [op](Val x, Val y) { return binop(op, x, y); }) : binop(op, a, b);
      f.regs[ki.dest] = r;
      f.pc++;
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      const Val& a = opv(f, ki.ops[0]);
      unsigned op = ki.op;
      Type* T = I->getType();
      Val r;
      if (auto* V = dyn_cast<FixedVectorType>(T)) {
        uint32_t ew = bitsOf(V->getElementType());
        r = Val(); r.w = 0;
        uint32_t sw = a.w / V->getNumElements();
        for (uint32_t i = 0; i < V->getNumElements(); i++) {
          Val x = vextract(a, i * sw, sw);
          r = vconcat(op == Instruction::Trunc ? vextract(x, 0, ew) : op == Instruction::ZExt ? vzext(x, ew) : vsext(x, ew), r);
        }
      } else r = op == Instruction::Trunc ? vextract(a, 0, ki.w) : op == Instruction::ZExt ? vzext(a, ki.w) : vsext(a, ki.w);
      f.regs[ki.dest] = r;
      f.pc++;
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      const Val& a = opv(f, ki.ops[0]);
      f.regs[ki.dest] = ki.w <= a.w ? vextract(a, 0, ki.w) : vzext(a, ki.w);
      f.pc++;
      return;
    }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
      f.regs[ki.dest] = opv(f, ki.ops[0]);
      f.pc++;
      return;
    case Instruction::ExtractValue: {
      auto* X = cast<ExtractValueInst>(I);
      Type* t;
      uint32_t off = aggOff(X->getAggregateOperand()->getType(), X->getIndices(), &t);
      f.regs[ki.dest] = vextract(opv(f, ki.ops[0]), off, ki.w);
      f.pc++;
      return;
    }
    case Instruction::InsertValue: {
      auto* X = cast<InsertValueInst>(I);
      Type* t;
      uint32_t off = aggOff(X->getType(), X->getIndices(), &t);
      Val a = opv(f, ki.ops[0]), v = opv(f, ki.ops[1]);
      Val r = vextract(a, 0, off);
      r = vconcat(v, r);
      r = vconcat(vextract(a, off + v.w, a.w - off - v.w), r);
      f.regs[ki.dest] = r;
      f.pc++;
      return;
    }
    case Instruction::ExtractElement: {
      Val a = opv(f, ki.ops[0]);
      uint64_t i;
      if (!concretize(s, opv(f, ki.ops[1]), i)) return;
      s.top().regs[ki.dest] = vextract(a, i * ki.w, ki.w);
      s.top().pc++;
      return;
    }
    case Instruction::InsertElement: {
      Val a = opv(f, ki.ops[0]), v = opv(f, ki.ops[1]);
      uint64_t i;
      if (!concretize(s, opv(f, ki.ops[2]), i)) return;
      uint32_t off = i * v.w;
      Val r = vconcat(v, vextract(a, 0, off));
      r = vconcat(vextract(a, off + v.w, a.w - off - v.w), r);
      s.top().regs[ki.dest] = r;
      s.top().pc++;
      return;
    }
    case Instruction::ShuffleVector: {
      auto* X = cast<ShuffleVectorInst>(I);
      Val a = opv(f, ki.ops[0]), b = opv(f, ki.ops[1]);
      auto* VT = cast<FixedVectorType>(X->getOperand(0)->getType());
      uint32_t n = VT->getNumElements(), ew = bitsOf(VT->getElementType());
      Val r; r.w = 0;
      for (int m : X->getShuffleMask()) {
        Val e = m < 0 ? mkConst(APInt(ew, 0)) : (uint32_t)m < n ? vextract(a, m * ew, ew) : vextract(b, (m - n) * ew, ew);
        r = vconcat(e, r);
      }
      f.regs[ki.dest] = r;
      f.pc++;
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Val a = know(s, opv(f, ki.ops[0])), b = know(s, opv(f, ki.ops[1]));
      if (!a.conc() || !b.conc() || I->getType()->isVectorTy() || ki.w > 64) { incomplete(s, "symbolic floating point"); return; }
      double x = toD(a), y = toD(b);
      f.regs[ki.dest] = fromD(ki.op == Instruction::FAdd ? x + y : ki.op == Instruction::FSub ? x - y : ki.op == Instruction::FMul ? x * y : x / y, ki.w);
      f.pc++;
      return;
    }
    case Instruction::UIToFP: case Instruction::SIToFP: {
      uint64_t v;
      uint32_t w = opv(f, ki.ops[0]).w;
      if (!concretize(s, opv(f, ki.ops[0]), v)) return;
      s.top().regs[ki.dest] = fromD(ki.op == Instruction::UIToFP ? (double)v : (double)sextw(v, w), ki.w);
      s.top().pc++;
      return;
    }
    case Instruction::FPToUI: case Instruction::FPToSI: {
      Val a = know(s, opv(f, ki.ops[0]));
      if (!a.conc()) { incomplete(s, "symbolic floating point"); return; }
      f.regs[ki.dest] = Val(ki.w, ki.op == Instruction::FPToUI ? (uint64_t)toD(a) : (uint64_t)(int64_t)toD(a));
      f.pc++;
      return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
      Val a = know(s, opv(f, ki.ops[0]));
      if (!a.conc() || ki.w > 64) { incomplete(s, "symbolic floating point"); return; }
      f.regs[ki.dest] = fromD(toD(a), ki.w);
      f.pc++;
      return;
    }
    case Instruction::FCmp: {
      Val a = know(s, opv(f, ki.ops[0])), b = know(s, opv(f, ki.ops[1]));
      if (!a.conc() || !b.conc()) { incomplete(s, "symbolic floating point"); return; }
      double x = toD(a), y = toD(b);
      bool r;
      switch (cast<FCmpInst>(I)->getPredicate()) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
        default: incomplete(s, "fcmp"); return;
      }
      f.regs[ki.dest] = Val(1, r);
      f.pc++;
      return;
    }
    default: incomplete(s, std::string("instruction ") + I->getOpcodeName()); return;
  }
}

// ------------------------------------------------------------------ main
static std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void writeOut(bool timedOut) {
  FILE* o = fopen(oOut.c_str(), "w");
  if (!o) die("cannot write " + oOut);
  fprintf(o, "{\n\"timed_out\": %s,\n\"paths\": %lu,\n\"pruned\": %lu,\n\"states\": %lu,\n\"steps\": %lu,\n\"forks\": %lu,\n",
          timedOut ? "true" : "false", gPaths, gPruned, gStates, gSteps, gForks);
  fprintf(o, "\"undef_reads\": %lu,\n\"exprs\": %lu,\n\"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"cache_hits\": %lu, \"model_hits\": %lu,\n\"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f, \"dumped\": %lu,\n",
          gUndefReads, gExprCount, gSolver.queries, gSolver.sat, gSolver.unsat, gSolver.unknown, gSolver.cacheHits, gSolver.modelHits, gSolver.seconds, gSolver.maxQuery, elapsed(), gSolver.dumped);
  auto mapOut = [&](const char* n, std::map<std::string, uint64_t>& m) {
    fprintf(o, "\"%s\": {", n);
    bool first = true;
    for (auto& kv : m) { fprintf(o, "%s%s: %lu", first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(o, "},\n");
  };
  mapOut("reach", gReach);
  mapOut("checks", gChecks);
  mapOut("checks_concrete", gChecksConc);
  fprintf(o, "\"incomplete\": [");
  bool first = true;
  for (auto& s : gIncomplete) { fprintf(o, "%s%s", first ? "" : ", ", jesc(s).c_str()); first = false; }
  fprintf(o, "],\n\"violations\": [");
  first = true;
  for (auto& v : gViol) {
    fprintf(o, "%s\n {\"kind\": %s, \"label\": %s, \"count\": %lu, \"where\": %s, \"inputs\": %s}", first ? "" : ",", jesc(v.kind).c_str(),
            jesc(v.label).c_str(), gViolCount[v.label], jesc(v.where).c_str(), jesc(v.inputs).c_str());
    first = false;
  }
  fprintf(o, "],\n\"samples\": [");
  first = true;
  for (auto& s : gSampleTxt) { fprintf(o, "%s\n %s", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(o, "],\n\"functions\": [");
  first = true;
  for (auto& kv : gFuncs) {
    KFunc* k = kv.second;
    if (!k->entered) continue;
    std::set<std::pair<std::string, unsigned>> all, hit;
    // instructions may come from inlined code: attribute by their own location
    for (auto& ki : k->insts) {
      auto& d = ki.I->getDebugLoc();
      if (!d || d.getLine() == 0) continue;
      std::string fn = d->getFilename().str();
      if (fn.compare(0, oSrc.size(), oSrc) != 0 && d->getDirectory().str().compare(0, oSrc.size(), oSrc) != 0) continue;
      if (fn.compare(0, oSrc.size(), oSrc) == 0) fn = fn.substr(oSrc.size() + (fn.size() > oSrc.size()));
      std::string key = fn + "|" + demangle(d->getScope()->getSubprogram()->getLinkageName().str());
      all.insert({key, d.getLine()});
      if (ki.hit) hit.insert({key, d.getLine()});
    }
    std::map<std::string, std::pair<std::set<unsigned>, std::set<unsigned>>> per;
    for (auto& x : all) per[x.first].second.insert(x.second);
    for (auto& x : hit) per[x.first].first.insert(x.second);
    for (auto& p : per) {
      if (p.second.first.empty()) continue;
      fprintf(o, "%s\n {\"fn\": %s, \"hit\": [", first ? "" : ",", jesc(p.first).c_str());
      first = false;
      bool f2 = true;
      for (unsigned l : p.second.first) { fprintf(o, "%s%u", f2 ? "" : ",", l); f2 = false; }
      fprintf(o, "], \"all\": [");
      f2 = true;
      for (unsigned l : p.second.second) { fprintf(o, "%s%u", f2 ? "" : ",", l); f2 = false; }
      fprintf(o, "]}");
    }
  }
  fprintf(o, "]\n}\n");
  fclose(o);
}

static int realMain() {
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(oBc, err, ctx);
  if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  solverInit(oQueryMs, oDump, oDumpEvery);
  auto s = std::make_unique<State>();
  gStates = 1;
  s->nextAddr = 0x20000000ull;
  // globals
  for (auto& G : M->globals()) {
    if (G.getName().startswith("llvm.")) continue;
    uint64_t n = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
    if (G.isDeclaration() && n < 512) n = 512;
    auto o = std::make_shared<Obj>();
    o->base = s->nextAddr;
    o->cap = n;
    o->size = Val(64, n);
    o->d.b.resize(n, 0);
    s->nextAddr += ((n + 15) & ~15ull) + 64;
    s->mem.add(o);
    gGlobalAddr[&G] = o->base;
  }
  for (auto& F : *M) funcAddr(&F);
  for (auto& G : M->globals()) {
    if (G.getName().startswith("llvm.") || G.isDeclaration()) continue;
    int oi = s->mem.find(gGlobalAddr[&G]);
    Obj* o = s->mem.mut(oi);
    initMem(o->d, 0, G.getInitializer());
    if (G.isConstant()) o->ro = true;
  }
  ensureModel(*s);
  Function* H = M->getFunction("harness");
  if (!H || H->isDeclaration()) die("no harness function");
  // A driver sequence: constructors in priority order, then the harness.
  std::vector<std::pair<uint32_t, Function*>> ctors;
  if (auto* G = M->getGlobalVariable("llvm.global_ctors"))
    if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
      for (auto& O : A->operands()) {
        auto* S = cast<ConstantStruct>(O.get());
        if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts()))
          ctors.push_back({(uint32_t)cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Val> none;
  pushFrame(*s, compile(H), none, -1);
  for (int i = (int)ctors.size() - 1; i >= 0; i--) pushFrame(*s, compile(ctors[i].second), none, -1);
  gWork.push_back(std::move(s));
  bool timedOut = false;
  while (!gWork.empty()) {
    SP cur = std::move(gWork.back());
    gWork.pop_back();
    uint64_t k = 0;
    while (!cur->dead) {
      step(*cur);
      if ((++k & 1023) == 0) {
        if (elapsed() > oTimeout || gSteps > oMaxSteps) { timedOut = true; break; }
      }
    }
    if (elapsed() > oTimeout) timedOut = true;
    if (timedOut) break;
    if (gViol.size() >= oMaxViol) break;
  }
  writeOut(timedOut);
  return 0;
}

int main(int argc, char** argv) {
  tStart = std::chrono::steady_clock::now();
  if (argc > 1 && !strcmp(argv[1], "--selftest")) {
    int bad = 0;
    for (int i = 1; i <= 3; i++) bad += exprSelfTest(i);
    printf("expression self-test: %d mismatches\n", bad);
    return bad != 0;
  }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) die("missing value for " + a); return argv[++i]; };
    if (a == "--bc") oBc = val();
    else if (a == "--out") oOut = val();
    else if (a == "--param") { std::string p = val(); auto e = p.find('='); oParams[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); }
    else if (a == "--timeout") oTimeout = atof(val().c_str());
    else if (a == "--max-steps") oMaxSteps = strtoull(val().c_str(), 0, 0);
    else if (a == "--query-ms") oQueryMs = atoi(val().c_str());
    else if (a == "--samples") oSamples = atoi(val().c_str());
    else if (a == "--dump") oDump = val();
    else if (a == "--dump-every") oDumpEvery = atoi(val().c_str());
    else if (a == "--src") oSrc = val();
    else if (a == "--seed") oSeed = strtoull(val().c_str(), 0, 0);
    else if (a == "--no-select-fork") gSelectFork = false;
    else if (a == "--trace") oTrace = true;
    else if (a == "--max-viol") oMaxViol = atoi(val().c_str());
    else die("unknown option " + a);
  }
  int rc = 3;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t th;
  auto fn = [](void* p) -> void* { *(int*)p = realMain(); return nullptr; };
  if (pthread_create(&th, &at, fn, &rc)) die("pthread_create");
  pthread_join(th, nullptr);
  fflush(stdout);
  _exit(rc);
}
