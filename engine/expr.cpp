#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <unordered_set>

namespace sx {
std::vector<VarInfo> gVars;
uint64_t gExprCount = 0;
static std::unordered_map<std::string, uint32_t> gVarByName;

// ---------------------------------------------------------------- interning
struct VSHash {
  size_t operator()(const VarSet& s) const {
    size_t h = 1469598103934665603ull;
    for (auto x : s) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
static std::unordered_set<VarSet, VSHash> gSets;
static const VarSet* kEmpty() {
  static const VarSet* e = &*gSets.insert(VarSet()).first;
  return e;
}
static std::unordered_map<uint64_t, const VarSet*> gUnion;
static std::unordered_map<const VarSet*, uint32_t> gSetIds;
static uint32_t setId(const VarSet* s) {
  auto it = gSetIds.find(s);
  if (it != gSetIds.end()) return it->second;
  uint32_t i = gSetIds.size();
  gSetIds[s] = i;
  return i;
}
static const VarSet* unite(const VarSet* x, const VarSet* y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  uint32_t i = setId(x), j = setId(y);
  if (i > j) std::swap(i, j);
  uint64_t key = ((uint64_t)i << 32) | j;
  auto it = gUnion.find(key);
  if (it != gUnion.end()) return it->second;
  VarSet r;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  const VarSet* p = &*gSets.insert(std::move(r)).first;
  gUnion[key] = p;
  return p;
}

struct EHash {
  size_t operator()(E e) const {
    size_t h = e->kind * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](uint64_t x) { h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(e->a ? e->a->id + 1 : 0);
    mix(e->b ? e->b->id + 1 : 0);
    mix(e->c ? e->c->id + 1 : 0);
    mix(e->aux);
    mix(e->aux2);
    if (e->big) mix(hash_value(*e->big));
    return h;
  }
};
struct EEq {
  bool operator()(E x, E y) const {
    if (x->kind != y->kind || x->w != y->w || x->a != y->a || x->b != y->b || x->c != y->c ||
        x->aux != y->aux || x->aux2 != y->aux2)
      return false;
    if (!x->big && !y->big) return true;
    return x->big && y->big && *x->big == *y->big;
  }
};
static std::unordered_set<E, EHash, EEq> gTab;

static uint64_t satadd(uint64_t a, uint64_t b) { return a + b < a ? ~0ull : a + b; }
static uint64_t fillBits(uint64_t x) {
  x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32;
  return x;
}

static void computeMeta(Expr* e) {
  const VarSet* s = kEmpty();
  if (e->kind == KVar) {
    s = &*gSets.insert(VarSet{(uint32_t)e->aux}).first;
  } else if (e->kind == KSelect) {
    VarSet t{(uint32_t)e->aux, (uint32_t)e->aux2};
    std::sort(t.begin(), t.end());
    s = &*gSets.insert(t).first;
  }
  if (e->a) s = unite(s, e->a->vars);
  if (e->b) s = unite(s, e->b->vars);
  if (e->c) s = unite(s, e->c->vars);
  e->vars = s;
  if (e->w > 64) { e->umax = ~0ull; return; }
  uint64_t m = maskw(e->w), u = m;
  switch (e->kind) {
    case KConst: u = e->aux; break;
    case KAdd: {
      uint64_t t = satadd(e->a->umax, e->b->umax);
      if (t <= m) u = t;
      break;
    }
    case KMul: {
      unsigned __int128 t = (unsigned __int128)e->a->umax * e->b->umax;
      if (t <= m) u = (uint64_t)t;
      break;
    }
    case KUDiv: if (e->b->kind == KConst && e->b->aux) u = e->a->umax / e->b->aux; break;
    case KURem: if (e->b->kind == KConst && e->b->aux) u = std::min(e->a->umax, e->b->aux - 1); else u = std::min(m, e->a->umax); break;
    case KAnd: u = std::min(e->a->umax, e->b->umax); break;
    case KOr: case KXor: u = fillBits(e->a->umax | e->b->umax); break;
    case KLShr: u = e->a->umax; break;
    case KConcat: {
      uint32_t lw = e->b->w;
      u = (e->a->umax << lw) | e->b->umax;
      if (e->b->umax != maskw(lw) ) u = (e->a->umax << lw) | fillBits(e->b->umax);
      u &= m;
      break;
    }
    case KExtract:
      if (e->a->w <= 64) {
        uint64_t t = e->a->umax >> e->aux;
        if (t <= m) u = t;
      }
      break;
    case KZExt: u = e->a->umax; break;
    case KIte: u = std::max(e->b->umax, e->c->umax); break;
    default: break;
  }
  e->umax = std::min(u, m);
}

static E intern(Expr& t) {
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  Expr* n = new Expr(t);
  n->id = gExprCount++;
  if (n->big) n->big = new APInt(*n->big);
  computeMeta(n);
  gTab.insert(n);
  return n;
}
static E mk(Kind k, uint32_t w, E a, E b = nullptr, E c = nullptr, uint64_t aux = 0, uint64_t aux2 = 0) {
  Expr t;
  t.kind = k; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.aux2 = aux2;
  return intern(t);
}
static Val V(E e) { return Val(e); }

E toE(const Val& v) {
  if (v.e) return v.e;
  Expr t;
  t.kind = KConst; t.w = v.w; t.aux = v.c;
  return intern(t);
}
Val mkConst(const APInt& a) {
  if (a.getBitWidth() <= 64) return Val(a.getBitWidth(), a.getZExtValue());
  Expr t;
  t.kind = KConst; t.w = a.getBitWidth(); t.big = &a;
  return Val(intern(t));
}
APInt toAP(const Val& v) {
  if (!v.e) return APInt(v.w, v.c);
  assert(v.e->kind == KConst);
  if (v.e->w <= 64) return APInt(v.e->w, v.e->aux);
  return *v.e->big;
}
bool isConst(const Val& v) { return !v.e || v.e->kind == KConst; }

uint32_t newVar(const std::string& name, uint32_t w, uint8_t type) {
  auto it = gVarByName.find(name);
  if (it != gVarByName.end()) {
    if (gVars[it->second].w != w || gVars[it->second].type != type) {
      fprintf(stderr, "symx: variable %s redeclared with another type\n", name.c_str());
      exit(3);
    }
    return it->second;
  }
  uint32_t id = gVars.size();
  gVars.push_back({name, w, type, nullptr});
  gVarByName[name] = id;
  if (type == 0) {
    Expr t;
    t.kind = KVar; t.w = w; t.aux = id;
    gVars[id].expr = intern(t);
  }
  return id;
}
Val varVal(uint32_t id) { return Val(gVars[id].expr); }

Val mkSelect(uint32_t arrayId, Val idx) {
  E i = toE(idx);
  std::string nm = "sel!" + std::to_string(arrayId) + "!" + std::to_string(i->id);
  uint32_t sid = newVar(nm, 8, 2);
  E e = mk(KSelect, 8, i, nullptr, nullptr, sid, arrayId);
  gVars[sid].expr = e;
  return Val(e);
}

// ------------------------------------------------------------ simplification
static bool isC(E e) { return e->kind == KConst; }
static bool isC64(E e) { return e->kind == KConst && e->w <= 64; }

#define WIDEFOLD(op) \
  if (isConst(a) && isConst(b)) return mkConst(toAP(a) op toAP(b))

// Ite with two constant arms
static bool iteConstArms(E e) { return e->kind == KIte && isC(e->b) && isC(e->c); }

Val vnot(Val a) {
  if (a.conc()) return Val(a.w, ~a.c);
  if (isC(a.e)) return mkConst(~toAP(a));
  if (a.e->kind == KNot) return V(a.e->a);
  if (a.w == 1) {
    if (a.e->kind == KUlt) return V(mk(KUle, 1, a.e->b, a.e->a));
    if (a.e->kind == KUle) return V(mk(KUlt, 1, a.e->b, a.e->a));
    if (a.e->kind == KSlt) return V(mk(KSle, 1, a.e->b, a.e->a));
    if (a.e->kind == KSle) return V(mk(KSlt, 1, a.e->b, a.e->a));
  }
  if (iteConstArms(a.e)) return vite(V(a.e->a), vnot(V(a.e->b)), vnot(V(a.e->c)));
  return V(mk(KNot, a.w, a.e));
}
Val vneg(Val a) {
  if (a.conc()) return Val(a.w, 0 - a.c);
  return vadd(vnot(a), Val(a.w, 1));
}

static Val widen1(uint32_t w) { return mkConst(APInt(w, 1)); }

Val vadd(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, a.c + b.c);
  WIDEFOLD(+);
  if (isConst(a)) std::swap(a, b);
  if (a.w == 1) return vxor(a, b);
  E x = toE(a);
  if (isConst(b)) {
    if (toAP(b) == 0) return a;
    if (x->kind == KAdd && isC(x->b)) return vadd(V(x->a), vadd(V(x->b), b));
    if (iteConstArms(x)) return vite(V(x->a), vadd(V(x->b), b), vadd(V(x->c), b));
  } else {
    E y = toE(b);
    if (x->kind == KAdd && isC(x->b)) return vadd(vadd(V(x->a), b), V(x->b));
    if (y->kind == KAdd && isC(y->b)) return vadd(vadd(a, V(y->a)), V(y->b));
    // x + ~x = -1
    if ((x->kind == KNot && x->a == y) || (y->kind == KNot && y->a == x)) return mkConst(APInt::getAllOnes(a.w));
    // (p + ~q) + q = p - 1
    if (x->kind == KAdd) {
      if (x->b->kind == KNot && x->b->a == y) return vadd(V(x->a), mkConst(APInt::getAllOnes(a.w)));
      if (x->a->kind == KNot && x->a->a == y) return vadd(V(x->b), mkConst(APInt::getAllOnes(a.w)));
      if (y->kind == KNot && y->a == x->a) return vadd(V(x->b), mkConst(APInt::getAllOnes(a.w)));
      if (y->kind == KNot && y->a == x->b) return vadd(V(x->a), mkConst(APInt::getAllOnes(a.w)));
    }
    if (y->kind == KAdd) {
      if (y->b->kind == KNot && y->b->a == x) return vadd(V(y->a), mkConst(APInt::getAllOnes(a.w)));
      if (y->a->kind == KNot && y->a->a == x) return vadd(V(y->b), mkConst(APInt::getAllOnes(a.w)));
      if (x->kind == KNot && x->a == y->a) return vadd(V(y->b), mkConst(APInt::getAllOnes(a.w)));
      if (x->kind == KNot && x->a == y->b) return vadd(V(y->a), mkConst(APInt::getAllOnes(a.w)));
    }
    if (x->id > y->id) std::swap(x, y);
    return V(mk(KAdd, a.w, x, y));
  }
  return V(mk(KAdd, a.w, x, toE(b)));
}
Val vsub(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, a.c - b.c);
  WIDEFOLD(-);
  if (a.w == 1) return vxor(a, b);
  if (toE(a) == toE(b)) return mkConst(APInt(a.w, 0));
  if (isConst(b)) return vadd(a, mkConst(-toAP(b)));
  return vadd(vadd(a, vnot(b)), widen1(a.w));
}
static bool isPow2(const APInt& v, uint32_t& sh) {
  if (!v.isPowerOf2()) return false;
  sh = v.logBase2();
  return true;
}
Val vmul(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, a.c * b.c);
  WIDEFOLD(*);
  if (a.w == 1) return vand(a, b);
  if (isConst(a)) std::swap(a, b);
  if (isConst(b)) {
    APInt c = toAP(b);
    if (c == 0) return b;
    if (c == 1) return a;
    uint32_t sh;
    if (isPow2(c, sh)) return vshl(a, mkConst(APInt(a.w, sh)));
    if (iteConstArms(a.e)) return vite(V(a.e->a), vmul(V(a.e->b), b), vmul(V(a.e->c), b));
  }
  E x = toE(a), y = toE(b);
  if (!isC(y) && x->id > y->id) std::swap(x, y);
  return V(mk(KMul, a.w, x, y));
}
Val vudiv(Val a, Val b) {  // caller excludes b == 0
  if (a.conc() && b.conc()) return b.c ? Val(a.w, a.c / b.c) : Val(a.w, ~0ull);
  if (isConst(b)) {
    APInt c = toAP(b);
    if (c == 1) return a;
    uint32_t sh;
    if (isPow2(c, sh)) return vlshr(a, mkConst(APInt(a.w, sh)));
    if (a.w <= 64 && a.e && a.e->umax < b.c) return Val(a.w, 0);
  }
  return V(mk(KUDiv, a.w, toE(a), toE(b)));
}
Val vurem(Val a, Val b) {
  if (a.conc() && b.conc()) return b.c ? Val(a.w, a.c % b.c) : a;
  if (isConst(b)) {
    APInt c = toAP(b);
    uint32_t sh;
    if (isPow2(c, sh)) return vand(a, mkConst(c - 1));
    if (a.w <= 64 && a.e && a.e->umax < b.c) return a;
  }
  return V(mk(KURem, a.w, toE(a), toE(b)));
}
Val vsdiv(Val a, Val b) {
  if (a.conc() && b.conc()) {
    if (!b.c) return Val(a.w, sextw(a.c, a.w) < 0 ? 1 : ~0ull);
    int64_t x = sextw(a.c, a.w), y = sextw(b.c, b.w);
    if (y == -1) return Val(a.w, 0 - a.c);
    return Val(a.w, (uint64_t)(x / y));
  }
  if (a.w <= 64 && a.e && b.conc() && a.e->umax <= maskw(a.w) >> 1 && !(b.c >> (b.w - 1)) && b.c) return vudiv(a, b);
  return V(mk(KSDiv, a.w, toE(a), toE(b)));
}
Val vsrem(Val a, Val b) {
  if (a.conc() && b.conc()) {
    if (!b.c) return a;
    int64_t x = sextw(a.c, a.w), y = sextw(b.c, b.w);
    if (y == -1) return Val(a.w, 0);
    return Val(a.w, (uint64_t)(x % y));
  }
  if (a.w <= 64 && a.e && b.conc() && a.e->umax <= maskw(a.w) >> 1 && !(b.c >> (b.w - 1)) && b.c) return vurem(a, b);
  return V(mk(KSRem, a.w, toE(a), toE(b)));
}
Val vand(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, a.c & b.c);
  WIDEFOLD(&);
  if (isConst(a)) std::swap(a, b);
  if (isConst(b)) {
    APInt c = toAP(b);
    if (c == 0) return b;
    if (c.isAllOnes()) return a;
    E x = a.e;
    if (x->kind == KAnd && isC(x->b)) return vand(V(x->a), mkConst(toAP(V(x->b)) & c));
    if (iteConstArms(x)) return vite(V(x->a), vand(V(x->b), b), vand(V(x->c), b));
    if (c.isMask()) {
      uint32_t n = c.countr_one();
      return vzext(vextract(a, 0, n), a.w);
    }
    if (c.isShiftedMask()) {  // contiguous ones: [lo, lo+n)
      uint32_t lo = c.countr_zero(), n = c.popcount();
      Val mid = vextract(a, lo, n);
      Val r = vconcat(mid, mkConst(APInt(lo, 0)));
      return vzext(r, a.w);
    }
    // push into concat/zext
    if (x->kind == KConcat)
      return vconcat(vand(V(x->a), mkConst(c.extractBits(x->a->w, x->b->w))), vand(V(x->b), mkConst(c.extractBits(x->b->w, 0))));
    if (x->kind == KZExt) return vzext(vand(V(x->a), mkConst(c.trunc(x->a->w))), a.w);
    return V(mk(KAnd, a.w, x, toE(b)));
  }
  E x = toE(a), y = toE(b);
  if (x == y) return a;
  if ((x->kind == KNot && x->a == y) || (y->kind == KNot && y->a == x)) return mkConst(APInt(a.w, 0));
  if (x->kind == KZExt && y->kind == KZExt && x->a->w == y->a->w) return vzext(vand(V(x->a), V(y->a)), a.w);
  if (x->id > y->id) std::swap(x, y);
  return V(mk(KAnd, a.w, x, y));
}
// number of low bits of e known zero
static uint32_t lowZeros(E e) {
  if (e->kind == KConst) { APInt c = toAP(V(e)); return c == 0 ? e->w : c.countr_zero(); }
  if (e->kind == KConcat) { uint32_t n = lowZeros(e->b); return n == e->b->w ? n + lowZeros(e->a) : n; }
  if (e->kind == KZExt) { uint32_t n = lowZeros(e->a); return n == e->a->w ? e->w : n; }
  return 0;
}
// number of significant low bits (above are known zero)
static uint32_t sigBits(E e) {
  if (e->kind == KConst) return toAP(V(e)).getActiveBits();
  if (e->kind == KZExt) return sigBits(e->a);
  if (e->kind == KConcat) { uint32_t n = sigBits(e->a); return n ? n + e->b->w : sigBits(e->b); }
  if (e->w <= 64) { uint32_t n = 0; uint64_t u = e->umax; while (u) { n++; u >>= 1; } return n; }
  return e->w;
}
static Val orDisjoint(E x, E y, bool& done) {
  // if x occupies bits >= k and y bits < k: concat
  done = true;
  uint32_t lz = lowZeros(x), sy = sigBits(y);
  if (sy <= lz && lz < x->w && lz > 0)
    return vconcat(vextract(V(x), lz, x->w - lz), vextract(V(y), 0, lz));
  lz = lowZeros(y); uint32_t sxb = sigBits(x);
  if (sxb <= lz && lz < y->w && lz > 0)
    return vconcat(vextract(V(y), lz, y->w - lz), vextract(V(x), 0, lz));
  done = false;
  return Val();
}
Val vor(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, a.c | b.c);
  WIDEFOLD(|);
  if (isConst(a)) std::swap(a, b);
  E x = toE(a), y = toE(b);
  if (isC(y)) {
    APInt c = toAP(b);
    if (c == 0) return a;
    if (c.isAllOnes()) return b;
    if (x->kind == KOr && isC(x->b)) return vor(V(x->a), mkConst(toAP(V(x->b)) | c));
    if (iteConstArms(x)) return vite(V(x->a), vor(V(x->b), b), vor(V(x->c), b));
  }
  if (x == y) return a;
  if ((x->kind == KNot && x->a == y) || (y->kind == KNot && y->a == x)) return mkConst(APInt::getAllOnes(a.w));
  if (a.w > 1) {
    bool d;
    Val r = orDisjoint(x, y, d);
    if (d) return r;
  }
  if (isC(y)) {
    if (x->kind == KConcat) {
      APInt c = toAP(b);
      return vconcat(vor(V(x->a), mkConst(c.extractBits(x->a->w, x->b->w))), vor(V(x->b), mkConst(c.extractBits(x->b->w, 0))));
    }
    return V(mk(KOr, a.w, x, y));
  }
  if (x->id > y->id) std::swap(x, y);
  return V(mk(KOr, a.w, x, y));
}
Val vxor(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, a.c ^ b.c);
  WIDEFOLD(^);
  if (isConst(a)) std::swap(a, b);
  E x = toE(a), y = toE(b);
  if (isC(y)) {
    APInt c = toAP(b);
    if (c == 0) return a;
    if (c.isAllOnes()) return vnot(a);
    if (x->kind == KXor && isC(x->b)) return vxor(V(x->a), mkConst(toAP(V(x->b)) ^ c));
    if (iteConstArms(x)) return vite(V(x->a), vxor(V(x->b), b), vxor(V(x->c), b));
    if (x->kind == KZExt || x->kind == KConcat) {
      uint32_t lw = x->kind == KZExt ? x->a->w : x->b->w;
      Val lo = x->kind == KZExt ? V(x->a) : V(x->b);
      Val hi = x->kind == KZExt ? mkConst(APInt(x->w - lw, 0)) : V(x->a);
      return vconcat(vxor(hi, mkConst(c.extractBits(x->w - lw, lw))), vxor(lo, mkConst(c.extractBits(lw, 0))));
    }
    return V(mk(KXor, a.w, x, y));
  }
  if (x == y) return mkConst(APInt(a.w, 0));
  if (x->kind == KZExt && y->kind == KZExt && x->a->w == y->a->w) return vzext(vxor(V(x->a), V(y->a)), a.w);
  if (x->kind == KNot && y->kind == KNot) return vxor(V(x->a), V(y->a));
  if (x->kind == KNot) return vnot(vxor(V(x->a), V(y)));
  if (y->kind == KNot) return vnot(vxor(V(x), V(y->a)));
  if (x->id > y->id) std::swap(x, y);
  return V(mk(KXor, a.w, x, y));
}
Val vshl(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, b.c >= a.w ? 0 : a.c << b.c);
  if (isConst(b)) {
    APInt c = toAP(b);
    if (c.uge(a.w)) return mkConst(APInt(a.w, 0));
    uint32_t k = c.getZExtValue();
    if (k == 0) return a;
    return vconcat(vextract(a, 0, a.w - k), mkConst(APInt(k, 0)));
  }
  return V(mk(KShl, a.w, toE(a), toE(b)));
}
Val vlshr(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, b.c >= a.w ? 0 : a.c >> b.c);
  if (isConst(b)) {
    APInt c = toAP(b);
    if (c.uge(a.w)) return mkConst(APInt(a.w, 0));
    uint32_t k = c.getZExtValue();
    if (k == 0) return a;
    return vzext(vextract(a, k, a.w - k), a.w);
  }
  return V(mk(KLShr, a.w, toE(a), toE(b)));
}
Val vashr(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(a.w, (uint64_t)(sextw(a.c, a.w) >> (b.c >= a.w ? std::min(a.w - 1, 63u) : b.c)));
  if (isConst(b)) {
    APInt c = toAP(b);
    uint32_t k = c.uge(a.w) ? a.w - 1 : c.getZExtValue();
    if (k == 0) return a;
    return vsext(vextract(a, k, a.w - k), a.w);
  }
  return V(mk(KAShr, a.w, toE(a), toE(b)));
}

Val veq(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(1, a.c == b.c);
  if (isConst(a) && isConst(b)) return Val(1, toAP(a) == toAP(b));
  if (isConst(a)) std::swap(a, b);
  E x = toE(a), y = toE(b);
  if (x == y) return Val(1, 1);
  if (isC(y)) {
    APInt c = toAP(b);
    if (a.w == 1) return c == 0 ? vnot(a) : a;
    if (a.w <= 64 && c.getZExtValue() > x->umax) return Val(1, 0);
    switch (x->kind) {
      case KAdd: if (isC(x->b)) return veq(V(x->a), mkConst(c - toAP(V(x->b)))); break;
      case KNot: return veq(V(x->a), mkConst(~c));
      case KXor: if (isC(x->b)) return veq(V(x->a), mkConst(c ^ toAP(V(x->b)))); break;
      case KZExt:
        if (c.getActiveBits() > x->a->w) return Val(1, 0);
        return veq(V(x->a), mkConst(c.trunc(x->a->w)));
      case KSExt: {
        APInt t = c.trunc(x->a->w);
        if (t.sext(x->w) != c) return Val(1, 0);
        return veq(V(x->a), mkConst(t));
      }
      case KConcat:
        return vand(veq(V(x->b), mkConst(c.extractBits(x->b->w, 0))), veq(V(x->a), mkConst(c.extractBits(x->a->w, x->b->w))));
      case KIte: {
        if (isC(x->b)) {
          if (toAP(V(x->b)) == c) return vor(V(x->a), veq(V(x->c), b));
          return vand(vnot(V(x->a)), veq(V(x->c), b));
        }
        if (isC(x->c)) {
          if (toAP(V(x->c)) == c) return vor(vnot(V(x->a)), veq(V(x->b), b));
          return vand(V(x->a), veq(V(x->b), b));
        }
        break;
      }
      case KOr:
        if (c == 0) return vand(veq(V(x->a), b), veq(V(x->b), b));
        break;
      default: break;
    }
    return V(mk(KEq, 1, x, y));
  }
  if (a.w == 1) return vnot(vxor(a, b));
  if (x->kind == KZExt && y->kind == KZExt) {
    if (x->a->w == y->a->w) return veq(V(x->a), V(y->a));
    if (x->a->w > y->a->w) std::swap(x, y);
    return veq(vzext(V(x->a), y->a->w), V(y->a));
  }
  if (x->kind == KSExt && y->kind == KSExt && x->a->w == y->a->w) return veq(V(x->a), V(y->a));
  if (x->kind == KConcat && y->kind == KConcat && x->b->w == y->b->w)
    return vand(veq(V(x->a), V(y->a)), veq(V(x->b), V(y->b)));
  if (x->kind == KAdd && y->kind == KAdd) {
    if (x->b == y->b) return veq(V(x->a), V(y->a));
    if (x->a == y->a) return veq(V(x->b), V(y->b));
    if (isC(x->b) && isC(y->b)) return veq(vadd(V(x->a), mkConst(toAP(V(x->b)) - toAP(V(y->b)))), V(y->a));
  }
  if (x->kind == KAdd && isC(x->b) && x->a == y) return Val(1, 0);
  if (y->kind == KAdd && isC(y->b) && y->a == x) return Val(1, 0);
  if (x->id > y->id) std::swap(x, y);
  return V(mk(KEq, 1, x, y));
}
Val vne(Val a, Val b) { return vnot(veq(a, b)); }

Val vult(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(1, a.c < b.c);
  if (isConst(a) && isConst(b)) return Val(1, toAP(a).ult(toAP(b)));
  E x = toE(a), y = toE(b);
  if (x == y) return Val(1, 0);
  if (a.w == 1) return vand(vnot(a), b);
  if (isC(y)) {
    APInt c = toAP(b);
    if (c == 0) return Val(1, 0);
    if (c == 1) return veq(a, mkConst(APInt(a.w, 0)));
    if (a.w <= 64 && x->umax < c.getZExtValue()) return Val(1, 1);
    if (x->kind == KZExt) {
      if (c.getActiveBits() > x->a->w) return Val(1, 1);
      return vult(V(x->a), mkConst(c.trunc(x->a->w)));
    }
    if (x->kind == KConcat && lowZeros(toE(b)) >= x->b->w)
      return vult(V(x->a), mkConst(c.extractBits(x->a->w, x->b->w)));
    if (iteConstArms(x)) return vite(V(x->a), vult(V(x->b), b), vult(V(x->c), b));
  } else if (isC(x)) {
    APInt c = toAP(a);
    if (c.isAllOnes()) return Val(1, 0);
    if (c == 0) return vne(b, a);
    if (a.w <= 64 && c.getZExtValue() >= y->umax) return Val(1, 0);
    if (y->kind == KZExt) {
      if (c.getActiveBits() > y->a->w) return Val(1, 0);
      return vult(mkConst(c.trunc(y->a->w)), V(y->a));
    }
    if (iteConstArms(y)) return vite(V(y->a), vult(a, V(y->b)), vult(a, V(y->c)));
  } else if (x->kind == KZExt && y->kind == KZExt) {
    uint32_t w = std::max(x->a->w, y->a->w);
    return vult(vzext(V(x->a), w), vzext(V(y->a), w));
  }
  return V(mk(KUlt, 1, x, y));
}
Val vule(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(1, a.c <= b.c);
  return vnot(vult(b, a));
}
Val vslt(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(1, sextw(a.c, a.w) < sextw(b.c, b.w));
  if (isConst(a) && isConst(b)) return Val(1, toAP(a).slt(toAP(b)));
  E x = toE(a), y = toE(b);
  if (x == y) return Val(1, 0);
  if (a.w == 1) return vand(a, vnot(b));
  auto nonneg = [](E e) {
    if (e->w > 64) return e->kind == KConst ? !toAP(V(e)).isNegative() : e->kind == KZExt;
    return e->umax <= (maskw(e->w) >> 1);
  };
  if (nonneg(x) && nonneg(y)) return vult(a, b);
  if (isC(y) && toAP(b) == 0) return vextract(a, a.w - 1, 1);  // x < 0
  if (isC(x) && toAP(a).isAllOnes()) return vnot(vextract(b, b.w - 1, 1));  // -1 < y
  if (x->kind == KSExt && y->kind == KSExt) {
    uint32_t w = std::max(x->a->w, y->a->w);
    return vslt(vsext(V(x->a), w), vsext(V(y->a), w));
  }
  if (x->kind == KSExt && isC(y)) {
    APInt c = toAP(b), t = c.trunc(x->a->w);
    if (t.sext(x->w) == c) return vslt(V(x->a), mkConst(t));
    return Val(1, !c.isNegative());
  }
  if (y->kind == KSExt && isC(x)) {
    APInt c = toAP(a), t = c.trunc(y->a->w);
    if (t.sext(y->w) == c) return vslt(mkConst(t), V(y->a));
    return Val(1, c.isNegative());
  }
  if (isC(y) && iteConstArms(x)) return vite(V(x->a), vslt(V(x->b), b), vslt(V(x->c), b));
  if (isC(x) && iteConstArms(y)) return vite(V(y->a), vslt(a, V(y->b)), vslt(a, V(y->c)));
  return V(mk(KSlt, 1, x, y));
}
Val vsle(Val a, Val b) {
  if (a.conc() && b.conc()) return Val(1, sextw(a.c, a.w) <= sextw(b.c, b.w));
  return vnot(vslt(b, a));
}
Val vconcat(Val hi, Val lo) {
  if (hi.w == 0) return lo;
  if (lo.w == 0) return hi;
  uint32_t w = hi.w + lo.w;
  if (hi.conc() && lo.conc() && w <= 64) return Val(w, (hi.c << lo.w) | lo.c);
  if (isConst(hi) && isConst(lo)) return mkConst((toAP(hi).zext(w) << lo.w) | toAP(lo).zext(w));
  if (isConst(hi) && toAP(hi) == 0) return vzext(lo, w);
  E x = toE(hi), y = toE(lo);
  if (x->kind == KExtract && y->kind == KExtract && x->a == y->a && x->aux == y->aux + y->w)
    return vextract(V(x->a), y->aux, w);
  // Concat(zext-part): x = Extract(t, k..), y = t itself low part
  if (x->kind == KExtract && x->a == y && false) return Val();
  // right-assoc merge: Concat(A, Concat(B, C)) with A,B adjacent extracts
  if (y->kind == KConcat) {
    E b = y->a;
    if (x->kind == KExtract && b->kind == KExtract && x->a == b->a && x->aux == b->aux + b->w)
      return vconcat(vextract(V(x->a), b->aux, x->w + b->w), V(y->b));
    if (isC(x) && isC(b)) return vconcat(vconcat(hi, V(b)), V(y->b));
  }
  if (x->kind == KConcat) return vconcat(V(x->a), vconcat(V(x->b), lo));
  if (x->kind == KZExt) return vzext(vconcat(V(x->a), lo), w);
  // sign-extension pattern is left to the solver
  return V(mk(KConcat, w, x, y));
}
static Val vextract1(Val a, uint32_t lo, uint32_t w);
Val vextract(Val a, uint32_t lo, uint32_t w) {
  if (w == 0 || a.conc() || isC(a.e) || (lo == 0 && w == a.w) || a.e->kind == KVar || a.e->kind == KExtract)
    return vextract1(a, lo, w);
  static std::unordered_map<uint64_t, std::unordered_map<uint32_t, Val>> memo;
  uint64_t k1 = a.e->id;
  uint32_t k2 = lo * 4096 + w;
  auto& m = memo[k1];
  auto it = m.find(k2);
  if (it != m.end()) return it->second;
  Val r = vextract1(a, lo, w);
  memo[k1][k2] = r;
  return r;
}
static Val vextract1(Val a, uint32_t lo, uint32_t w) {
  if (w == 0) { Val z; z.w = 0; return z; }
  if (a.conc()) return Val(w, a.c >> lo);
  if (lo == 0 && w == a.w) return a;
  E x = a.e;
  switch (x->kind) {
    case KConst: return mkConst(toAP(a).extractBits(w, lo));
    case KExtract: return vextract(V(x->a), lo + x->aux, w);
    case KZExt:
      if (lo >= x->a->w) return mkConst(APInt(w, 0));
      if (lo + w <= x->a->w) return vextract(V(x->a), lo, w);
      return vzext(vextract(V(x->a), lo, x->a->w - lo), w);
    case KSExt:
      if (lo + w <= x->a->w) return vextract(V(x->a), lo, w);
      if (lo < x->a->w) return vsext(vextract(V(x->a), lo, x->a->w - lo), w);
      if (w == 1) return vextract(V(x->a), x->a->w - 1, 1);
      break;
    case KConcat: {
      uint32_t lw = x->b->w;
      if (lo >= lw) return vextract(V(x->a), lo - lw, w);
      if (lo + w <= lw) return vextract(V(x->b), lo, w);
      return vconcat(vextract(V(x->a), 0, lo + w - lw), vextract(V(x->b), lo, lw - lo));
    }
    case KAdd: case KMul:
      if (lo == 0) {
        Val p = vextract(V(x->a), 0, w), q = vextract(V(x->b), 0, w);
        return x->kind == KAdd ? vadd(p, q) : vmul(p, q);
      }
      break;
    case KAnd: return vand(vextract(V(x->a), lo, w), vextract(V(x->b), lo, w));
    case KOr: return vor(vextract(V(x->a), lo, w), vextract(V(x->b), lo, w));
    case KXor: return vxor(vextract(V(x->a), lo, w), vextract(V(x->b), lo, w));
    case KNot: return vnot(vextract(V(x->a), lo, w));
    case KIte:
      return vite(V(x->a), vextract(V(x->b), lo, w), vextract(V(x->c), lo, w));
    default: break;
  }
  if (x->w <= 64 && (x->umax >> lo) == 0) return Val(w, 0);
  return V(mk(KExtract, w, x, nullptr, nullptr, lo));
}
Val vzext(Val a, uint32_t w) {
  if (w == a.w) return a;
  if (w < a.w) return vextract(a, 0, w);
  if (a.conc() && w <= 64) return Val(w, a.c);
  if (isConst(a)) return mkConst(toAP(a).zext(w));
  if (a.e->kind == KZExt) return vzext(V(a.e->a), w);
  if (iteConstArms(a.e)) return vite(V(a.e->a), vzext(V(a.e->b), w), vzext(V(a.e->c), w));
  return V(mk(KZExt, w, a.e));
}
Val vsext(Val a, uint32_t w) {
  if (w == a.w) return a;
  if (w < a.w) return vextract(a, 0, w);
  if (a.conc() && w <= 64) return Val(w, (uint64_t)sextw(a.c, a.w));
  if (isConst(a)) return mkConst(toAP(a).sext(w));
  E x = a.e;
  if (x->kind == KSExt) return vsext(V(x->a), w);
  if (x->kind == KZExt) return vzext(V(x->a), w);
  if (iteConstArms(x)) return vite(V(x->a), vsext(V(x->b), w), vsext(V(x->c), w));
  if (a.w <= 64 && a.w > 1 && x->umax <= (maskw(a.w) >> 1)) return vzext(a, w);
  if (a.w == 1) return vite(a, mkConst(APInt::getAllOnes(w)), mkConst(APInt(w, 0)));
  return V(mk(KSExt, w, x));
}
Val vite(Val c, Val a, Val b) {
  if (c.conc()) return c.c ? a : b;
  if (a.w == 0) return a;
  if (a.conc() && b.conc() && a.c == b.c) return a;
  E x = toE(a), y = toE(b);
  if (x == y) return a;
  E cc = c.e;
  if (cc->kind == KNot) return vite(V(cc->a), b, a);
  if (a.w == 1) {
    if (a.conc()) return a.c ? vor(c, b) : vand(vnot(c), b);
    if (b.conc()) return b.c ? vor(vnot(c), a) : vand(c, a);
    if (x == cc) return vor(c, b);
    if (y == cc) return vand(c, a);
  }
  if (x->kind == KIte && x->a == cc) return vite(c, V(x->b), b);
  if (y->kind == KIte && y->a == cc) return vite(c, a, V(y->c));
  // ite(c, a, ite(d, a, b)) -> ite(c|d, a, b)
  if (y->kind == KIte && y->b == x) return vite(vor(c, V(y->a)), a, V(y->c));
  // pull zext out
  if (x->kind == KZExt && y->kind == KZExt && x->a->w == y->a->w) return vzext(vite(c, V(x->a), V(y->a)), a.w);
  if (x->kind == KConcat && y->kind == KConcat && x->b->w == y->b->w && (x->a == y->a || x->b == y->b))
    return vconcat(vite(c, V(x->a), V(y->a)), vite(c, V(x->b), V(y->b)));
  return V(mk(KIte, a.w, cc, x, y));
}

// ---------------------------------------------------------------- evaluation
static const Model* gM;
static uint64_t gGen = 1;
static std::unordered_map<E, APInt> gWideMemo;
void evalBegin(const Model* m) { gM = m; gGen++; gWideMemo.clear(); }

uint64_t evalE(E e) {
  if (e->kind == KConst) return e->aux;
  if (e->gen == gGen) return e->val;
  uint64_t r = 0, m = maskw(e->w);
  bool wideKid = (e->a && e->a->w > 64) || (e->b && e->b->w > 64);
  if (e->w > 64) return evalWide(e).trunc(64).getZExtValue();
  if (wideKid && e->kind != KIte) {
    switch (e->kind) {
      case KExtract: r = evalWide(e->a).extractBits(e->w, e->aux).getZExtValue(); break;
      case KEq: r = evalWide(e->a) == evalWide(e->b); break;
      case KUlt: r = evalWide(e->a).ult(evalWide(e->b)); break;
      case KUle: r = evalWide(e->a).ule(evalWide(e->b)); break;
      case KSlt: r = evalWide(e->a).slt(evalWide(e->b)); break;
      case KSle: r = evalWide(e->a).sle(evalWide(e->b)); break;
      default: fprintf(stderr, "symx: evalE wide kid kind %d\n", e->kind); exit(3);
    }
  } else switch (e->kind) {
    case KVar: { auto it = gM->v.find(e->aux); r = it == gM->v.end() ? 0 : it->second; break; }
    case KSelect: {
      uint64_t i = evalE(e->a);
      auto it = gM->arr.find(e->aux2);
      if (it != gM->arr.end()) { auto j = it->second.find(i); if (j != it->second.end()) r = j->second; }
      break;
    }
    case KAdd: r = evalE(e->a) + evalE(e->b); break;
    case KMul: r = evalE(e->a) * evalE(e->b); break;
    case KUDiv: { uint64_t y = evalE(e->b); r = y ? evalE(e->a) / y : ~0ull; break; }
    case KURem: { uint64_t y = evalE(e->b); r = y ? evalE(e->a) % y : evalE(e->a); break; }
    case KSDiv: {
      int64_t x = sextw(evalE(e->a), e->w), y = sextw(evalE(e->b), e->w);
      r = y == 0 ? (x < 0 ? 1 : ~0ull) : y == -1 ? 0 - (uint64_t)x : (uint64_t)(x / y); break;
    }
    case KSRem: {
      int64_t x = sextw(evalE(e->a), e->w), y = sextw(evalE(e->b), e->w);
      r = y == 0 ? x : y == -1 ? 0 : (uint64_t)(x % y); break;
    }
    case KAnd: r = evalE(e->a) & evalE(e->b); break;
    case KOr: r = evalE(e->a) | evalE(e->b); break;
    case KXor: r = evalE(e->a) ^ evalE(e->b); break;
    case KNot: r = ~evalE(e->a); break;
    case KShl: { uint64_t y = evalE(e->b); r = y >= e->w ? 0 : evalE(e->a) << y; break; }
    case KLShr: { uint64_t y = evalE(e->b); r = y >= e->w ? 0 : evalE(e->a) >> y; break; }
    case KAShr: { uint64_t y = evalE(e->b); r = sextw(evalE(e->a), e->w) >> (y >= e->w ? std::min(e->w - 1, 63u) : y); break; }
    case KEq: r = evalE(e->a) == evalE(e->b); break;
    case KUlt: r = evalE(e->a) < evalE(e->b); break;
    case KUle: r = evalE(e->a) <= evalE(e->b); break;
    case KSlt: r = sextw(evalE(e->a), e->a->w) < sextw(evalE(e->b), e->a->w); break;
    case KSle: r = sextw(evalE(e->a), e->a->w) <= sextw(evalE(e->b), e->a->w); break;
    case KConcat: r = (evalE(e->a) << e->b->w) | evalE(e->b); break;
    case KExtract: r = evalE(e->a) >> e->aux; break;
    case KZExt: r = evalE(e->a); break;
    case KSExt: r = sextw(evalE(e->a), e->a->w); break;
    case KIte: r = evalE(e->a) ? evalE(e->b) : evalE(e->c); break;
    default: abort();
  }
  r &= m;
  e->gen = gGen;
  e->val = r;
  return r;
}
APInt evalWide(E e) {
  if (e->w <= 64) return APInt(e->w, evalE(e));
  if (e->kind == KConst) return *e->big;
  auto it = gWideMemo.find(e);
  if (it != gWideMemo.end()) return it->second;
  APInt r(e->w, 0);
  switch (e->kind) {
    case KAdd: r = evalWide(e->a) + evalWide(e->b); break;
    case KMul: r = evalWide(e->a) * evalWide(e->b); break;
    case KAnd: r = evalWide(e->a) & evalWide(e->b); break;
    case KOr: r = evalWide(e->a) | evalWide(e->b); break;
    case KXor: r = evalWide(e->a) ^ evalWide(e->b); break;
    case KNot: r = ~evalWide(e->a); break;
    case KShl: r = evalWide(e->a).shl(evalWide(e->b)); break;
    case KLShr: r = evalWide(e->a).lshr(evalWide(e->b)); break;
    case KAShr: r = evalWide(e->a).ashr(evalWide(e->b)); break;
    case KUDiv: { APInt y = evalWide(e->b); r = y == 0 ? APInt::getAllOnes(e->w) : evalWide(e->a).udiv(y); break; }
    case KURem: { APInt y = evalWide(e->b); r = y == 0 ? evalWide(e->a) : evalWide(e->a).urem(y); break; }
    case KConcat: r = (evalWide(e->a).zext(e->w) << e->b->w) | evalWide(e->b).zext(e->w); break;
    case KExtract: r = evalWide(e->a).extractBits(e->w, e->aux); break;
    case KZExt: r = evalWide(e->a).zext(e->w); break;
    case KSExt: r = evalWide(e->a).sext(e->w); break;
    case KIte: r = evalE(e->a) ? evalWide(e->b) : evalWide(e->c); break;
    default: fprintf(stderr, "symx: evalWide kind %d\n", e->kind); exit(3);
  }
  gWideMemo.emplace(e, r);
  return r;
}

std::string exprStr(E e, int depth) {
  static const char* nm[] = {"const","var","sel","add","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
  if (e->kind == KConst) return e->w <= 64 ? std::to_string(e->aux) : "big";
  if (e->kind == KVar) return gVars[e->aux].name;
  if (depth <= 0) return "...";
  std::string s = std::string("(") + nm[e->kind] + std::to_string(e->w);
  if (e->kind == KExtract) s += "@" + std::to_string(e->aux);
  if (e->a) s += " " + exprStr(e->a, depth - 1);
  if (e->b) s += " " + exprStr(e->b, depth - 1);
  if (e->c) s += " " + exprStr(e->c, depth - 1);
  return s + ")";
}

// ----------------------------------------------------------------- self test
// Builds random expressions through the simplifying constructors next to a
// direct APInt computation of the same operations, and compares.
int exprSelfTest(uint64_t seed) {
  std::mt19937_64 rng(seed);
  static const uint32_t widths[] = {1, 3, 8, 16, 24, 32, 64, 72, 128};
  int bad = 0;
  for (int round = 0; round < 3000 && bad < 5; round++) {
    struct Node { Val v; std::vector<APInt> vals; };
    std::vector<Node> pool;
    const int K = 6;
    Model models[K];
    std::vector<uint32_t> vids;
    for (int i = 0; i < 6; i++) {
      uint32_t w = widths[rng() % 7];
      std::string nm = "t" + std::to_string(i) + "w" + std::to_string(w);
      uint32_t id = newVar(nm, w, 0);
      Node n; n.v = varVal(id);
      for (int k = 0; k < K; k++) {
        uint64_t x = rng();
        if (k % 3 == 1) x &= 3;
        if (k % 3 == 2) x = ~(x & 1);
        if (models[k].v.count(id)) x = models[k].v[id];
        models[k].v[id] = x & maskw(w);
        n.vals.push_back(APInt(w, x & maskw(w)));
      }
      pool.push_back(n);
    }
    for (int step = 0; step < 40; step++) {
      Node& p = pool[rng() % pool.size()];
      uint32_t w = p.v.w;
      std::vector<int> same;
      for (size_t i = 0; i < pool.size(); i++) if (pool[i].v.w == w) same.push_back(i);
      Node q;
      if (rng() % 3 == 0) {
        APInt c(w, 0);
        switch (rng() % 5) {
          case 0: c = APInt(w, rng() & maskw(std::min(w, 64u)) ); break;
          case 1: c = APInt(w, rng() & 3 & maskw(std::min(w, 64u))); break;
          case 2: c = APInt::getAllOnes(w); break;
          case 3: c = APInt::getLowBitsSet(w, rng() % (w + 1)); break;
          case 4: { uint32_t lo = rng() % w; c = APInt::getBitsSet(w, lo, lo + 1 + rng() % (w - lo)); break; }
        }
        q.v = mkConst(c);
        for (int k = 0; k < K; k++) q.vals.push_back(c);
      } else q = pool[same[rng() % same.size()]];
      Node r;
      Node pp = p;
      if (rng() % 4 == 0) std::swap(pp, q);
      int op = rng() % 24;
      auto bin = [&](auto f, auto g) {
        r.v = f(pp.v, q.v);
        for (int k = 0; k < K; k++) r.vals.push_back(g(pp.vals[k], q.vals[k]));
      };
      auto b1 = [](bool b) { return APInt(1, b); };
      switch (op) {
        case 0: bin(vadd, [](APInt x, APInt y) { return x + y; }); break;
        case 1: bin(vsub, [](APInt x, APInt y) { return x - y; }); break;
        case 2: bin(vmul, [](APInt x, APInt y) { return x * y; }); break;
        case 3: bin(vand, [](APInt x, APInt y) { return x & y; }); break;
        case 4: bin(vor, [](APInt x, APInt y) { return x | y; }); break;
        case 5: bin(vxor, [](APInt x, APInt y) { return x ^ y; }); break;
        case 6: r.v = vnot(pp.v); for (int k = 0; k < K; k++) r.vals.push_back(~pp.vals[k]); break;
        case 7: bin(vshl, [](APInt x, APInt y) { return x.shl(y); }); break;
        case 8: bin(vlshr, [](APInt x, APInt y) { return x.lshr(y); }); break;
        case 9: bin(vashr, [](APInt x, APInt y) { return x.ashr(y); }); break;
        case 10: bin(veq, [&](APInt x, APInt y) { return b1(x == y); }); break;
        case 11: bin(vne, [&](APInt x, APInt y) { return b1(x != y); }); break;
        case 12: bin(vult, [&](APInt x, APInt y) { return b1(x.ult(y)); }); break;
        case 13: bin(vule, [&](APInt x, APInt y) { return b1(x.ule(y)); }); break;
        case 14: bin(vslt, [&](APInt x, APInt y) { return b1(x.slt(y)); }); break;
        case 15: bin(vsle, [&](APInt x, APInt y) { return b1(x.sle(y)); }); break;
        case 16: {
          Node& z = pool[rng() % pool.size()];
          if (z.v.w + pp.v.w > 128) continue;
          r.v = vconcat(pp.v, z.v);
          for (int k = 0; k < K; k++) {
            uint32_t W = z.v.w + pp.v.w;
            r.vals.push_back((pp.vals[k].zext(W) << z.v.w) | z.vals[k].zext(W));
          }
          break;
        }
        case 17: case 18: {
          uint32_t lo = rng() % pp.v.w, n = 1 + rng() % (pp.v.w - lo);
          if (rng() % 2) { lo = 0; n = std::min(8u, pp.v.w); }
          r.v = vextract(pp.v, lo, n);
          for (int k = 0; k < K; k++) r.vals.push_back(pp.vals[k].extractBits(n, lo));
          break;
        }
        case 19: case 20: {
          uint32_t W = widths[rng() % 9];
          if (W <= pp.v.w) continue;
          r.v = op == 19 ? vzext(pp.v, W) : vsext(pp.v, W);
          for (int k = 0; k < K; k++) r.vals.push_back(op == 19 ? pp.vals[k].zext(W) : pp.vals[k].sext(W));
          break;
        }
        case 21: {
          std::vector<int> bs;
          for (size_t i = 0; i < pool.size(); i++) if (pool[i].v.w == 1) bs.push_back(i);
          if (bs.empty()) continue;
          Node& z = pool[bs[rng() % bs.size()]];
          r.v = vite(z.v, pp.v, q.v);
          for (int k = 0; k < K; k++) r.vals.push_back(z.vals[k] != 0 ? pp.vals[k] : q.vals[k]);
          break;
        }
        case 22: if (pp.v.w > 64) continue; bin(vudiv, [](APInt x, APInt y) { return y == 0 ? APInt::getAllOnes(x.getBitWidth()) : x.udiv(y); }); break;
        case 23: if (pp.v.w > 64) continue; bin(vurem, [](APInt x, APInt y) { return y == 0 ? x : x.urem(y); }); break;
      }
      if (r.v.w == 0) continue;
      for (int k = 0; k < K; k++) {
        evalBegin(&models[k]);
        APInt got = r.v.conc() ? APInt(r.v.w, r.v.c) : evalWide(r.v.e);
        if (got.getBitWidth() != r.vals[k].getBitWidth() || got != r.vals[k]) {
          fprintf(stderr, "selftest mismatch op %d round %d: %s\n", op, round, r.v.e ? exprStr(r.v.e).c_str() : "const");
          bad++;
          break;
        }
        if (r.v.e && r.v.w <= 64 && got.getZExtValue() > r.v.e->umax) {
          fprintf(stderr, "selftest umax wrong op %d: %s\n", op, exprStr(r.v.e).c_str());
          bad++;
          break;
        }
      }
      pool.push_back(r);
    }
  }
  return bad;
}
}  // namespace sx
