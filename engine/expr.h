// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <map>
#include <vector>

namespace sx {
using llvm::APInt;

enum Kind : uint8_t {
  KConst, KVar, KSelect,
  KAdd, KMul, KUDiv, KSDiv, KURem, KSRem,
  KAnd, KOr, KXor, KNot, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle,
  KConcat, KExtract, KZExt, KSExt, KIte,
};

using VarSet = std::vector<uint32_t>;  // sorted

struct Expr {
  Kind kind;
  uint32_t w;
  uint32_t id;
  const Expr *a = nullptr, *b = nullptr, *c = nullptr;
  uint64_t aux = 0;   // KConst: value (w<=64); KVar: var id; KSelect: select var id; KExtract: low bit
  uint64_t aux2 = 0;  // KSelect: array var id
  const APInt* big = nullptr;  // KConst, w > 64
  uint64_t umax = ~0ull;       // upper bound (w <= 64)
  const VarSet* vars = nullptr;
  mutable void* z3 = nullptr;
  mutable uint64_t gen = 0;
  mutable uint64_t val = 0;
};
using E = const Expr*;

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, uint32_t w) {
  if (w >= 64) return (int64_t)v;
  uint64_t s = 1ull << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ s) - s);
}

// A value: concrete (e == nullptr, w <= 64) or an expression.
struct Val {
  E e = nullptr;
  uint64_t c = 0;
  uint32_t w = 0;
  Val() {}
  Val(uint32_t w_, uint64_t c_) : c(c_ & maskw(w_)), w(w_) {}
  explicit Val(E x) : e(x), w(x->w) {
    if (x->kind == KConst && x->w <= 64) { e = nullptr; c = x->aux; }
  }
  bool conc() const { return e == nullptr; }
  bool valid() const { return w != 0; }
  bool isTrue() const { return !e && c; }
  bool isFalse() const { return !e && !c; }
};

struct VarInfo {
  std::string name;
  uint32_t w;    // width (8 for arrays' elements)
  uint8_t type;  // 0 var, 1 array, 2 select instance
  E expr = nullptr;
};
extern std::vector<VarInfo> gVars;
extern uint64_t gExprCount;

uint32_t newVar(const std::string& name, uint32_t w, uint8_t type);  // interned by name
Val varVal(uint32_t id);
Val mkSelect(uint32_t arrayId, Val idx);  // idx is 64-bit

E toE(const Val& v);
Val mkConst(const APInt& a);
APInt toAP(const Val& v);
bool isConst(const Val& v);

Val vadd(Val a, Val b);
Val vsub(Val a, Val b);
Val vmul(Val a, Val b);
Val vudiv(Val a, Val b);
Val vsdiv(Val a, Val b);
Val vurem(Val a, Val b);
Val vsrem(Val a, Val b);
Val vand(Val a, Val b);
Val vor(Val a, Val b);
Val vxor(Val a, Val b);
Val vnot(Val a);
Val vneg(Val a);
Val vshl(Val a, Val b);
Val vlshr(Val a, Val b);
Val vashr(Val a, Val b);
Val veq(Val a, Val b);
Val vne(Val a, Val b);
Val vult(Val a, Val b);
Val vule(Val a, Val b);
Val vslt(Val a, Val b);
Val vsle(Val a, Val b);
Val vconcat(Val hi, Val lo);
Val vextract(Val a, uint32_t lo, uint32_t w);
Val vzext(Val a, uint32_t w);
Val vsext(Val a, uint32_t w);
Val vite(Val c, Val a, Val b);

struct Model {
  std::unordered_map<uint32_t, uint64_t> v;                      // vars
  std::unordered_map<uint32_t, std::map<uint64_t, uint8_t>> arr;  // arrays, default 0
};
// Evaluation under a model (vars default to 0).
void evalBegin(const Model* m);
uint64_t evalE(E e);       // w <= 64
APInt evalWide(E e);       // any width
std::string exprStr(E e, int depth = 4);
int exprSelfTest(uint64_t seed);
}  // namespace sx
