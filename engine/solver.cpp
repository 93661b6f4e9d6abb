#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <unordered_set>
#include <llvm/ADT/SmallString.h>
#include <z3.h>

namespace sx {
SolverStats gSolver;
static Z3_context C;
static unsigned gTimeout;
static std::string gDump;
static unsigned gDumpEvery;

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
void solverInit(unsigned t, const std::string& dir, unsigned every) {
  gTimeout = t; gDump = dir; gDumpEvery = every ? every : 1;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);  // non-rc: terms stay alive
  Z3_set_error_handler(C, onErr);
}
static Z3_sort bv(uint32_t w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast num(const APInt& a) {
  llvm::SmallString<64> s;
  a.toString(s, 10, false);
  return Z3_mk_numeral(C, std::string(s).c_str(), bv(a.getBitWidth()));
}
static Z3_ast tr(E e);
// as bit-vector even when width 1
static Z3_ast trbv(E e) {
  Z3_ast a = tr(e);
  if (e->w != 1) return a;
  return Z3_mk_ite(C, a, Z3_mk_unsigned_int64(C, 1, bv(1)), Z3_mk_unsigned_int64(C, 0, bv(1)));
}
static Z3_ast tr1(E e) {
  uint32_t w = e->w;
  switch (e->kind) {
    case KConst:
      if (w == 1) return e->aux ? Z3_mk_true(C) : Z3_mk_false(C);
      if (w <= 64) return Z3_mk_unsigned_int64(C, e->aux, bv(w));
      return num(*e->big);
    case KVar: case KSelect: {
      Z3_symbol s = Z3_mk_string_symbol(C, gVars[e->aux].name.c_str());
      return Z3_mk_const(C, s, w == 1 ? Z3_mk_bool_sort(C) : bv(w));
    }
    case KAdd: return Z3_mk_bvadd(C, tr(e->a), tr(e->b));
    case KMul: return Z3_mk_bvmul(C, tr(e->a), tr(e->b));
    case KUDiv: return Z3_mk_bvudiv(C, tr(e->a), tr(e->b));
    case KSDiv: return Z3_mk_bvsdiv(C, tr(e->a), tr(e->b));
    case KURem: return Z3_mk_bvurem(C, tr(e->a), tr(e->b));
    case KSRem: return Z3_mk_bvsrem(C, tr(e->a), tr(e->b));
    case KAnd: if (w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; return Z3_mk_and(C, 2, x); } return Z3_mk_bvand(C, tr(e->a), tr(e->b));
    case KOr: if (w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; return Z3_mk_or(C, 2, x); } return Z3_mk_bvor(C, tr(e->a), tr(e->b));
    case KXor: if (w == 1) return Z3_mk_xor(C, tr(e->a), tr(e->b)); return Z3_mk_bvxor(C, tr(e->a), tr(e->b));
    case KNot: if (w == 1) return Z3_mk_not(C, tr(e->a)); return Z3_mk_bvnot(C, tr(e->a));
    case KShl: return Z3_mk_bvshl(C, tr(e->a), tr(e->b));
    case KLShr: return Z3_mk_bvlshr(C, tr(e->a), tr(e->b));
    case KAShr: return Z3_mk_bvashr(C, tr(e->a), tr(e->b));
    case KEq: return Z3_mk_eq(C, tr(e->a), tr(e->b));
    case KUlt: return Z3_mk_bvult(C, tr(e->a), tr(e->b));
    case KUle: return Z3_mk_bvule(C, tr(e->a), tr(e->b));
    case KSlt: return Z3_mk_bvslt(C, tr(e->a), tr(e->b));
    case KSle: return Z3_mk_bvsle(C, tr(e->a), tr(e->b));
    case KConcat: return Z3_mk_concat(C, trbv(e->a), trbv(e->b));
    case KExtract: {
      Z3_ast x = Z3_mk_extract(C, e->aux + w - 1, e->aux, trbv(e->a));
      if (w == 1) return Z3_mk_eq(C, x, Z3_mk_unsigned_int64(C, 1, bv(1)));
      return x;
    }
    case KZExt: return Z3_mk_zero_ext(C, w - e->a->w, trbv(e->a));
    case KSExt: return Z3_mk_sign_ext(C, w - e->a->w, trbv(e->a));
    case KIte: return Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c));
  }
  abort();
}
static Z3_ast tr(E e) {
  if (!e->z3) e->z3 = tr1(e);
  return (Z3_ast)e->z3;
}

struct CacheEnt { SatRes r; std::shared_ptr<Model> m; };
struct VHash {
  size_t operator()(const std::vector<uint32_t>& s) const {
    size_t h = 1469598103934665603ull;
    for (auto x : s) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VHash> gCache;

static void flatten(E e, std::vector<E>& out) {
  if (e->kind == KAnd && e->w == 1) { flatten(e->a, out); flatten(e->b, out); }
  else out.push_back(e);
}

static Z3_solver S;
static std::unordered_map<uint32_t, Z3_ast> gLit;
static std::set<std::pair<uint32_t, uint32_t>> gFact;
static size_t gAsserted;
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> gCores;  // by largest id
static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
}

SatRes solveSlice(const std::vector<E>& constraints, E cond, Model* m) {
  // slice
  std::vector<E> cs;
  flatten(cond, cs);
  std::unordered_set<uint32_t> vars;
  std::vector<uint32_t> work;
  auto addVars = [&](E e) { for (uint32_t v : *e->vars) if (vars.insert(v).second) work.push_back(v); };
  for (E e : cs) addVars(e);
  std::vector<char> used(constraints.size(), 0);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < constraints.size(); i++) {
      if (used[i]) continue;
      for (uint32_t v : *constraints[i]->vars)
        if (vars.count(v)) { used[i] = 1; break; }
      if (used[i]) { cs.push_back(constraints[i]); addVars(constraints[i]); changed = true; }
    }
  }
  std::vector<uint32_t> key;
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it != gCache.end()) {
    gSolver.cacheHits++;
    if (it->second.r == SAT && m) *m = *it->second.m;
    return it->second.r;
  }
  // a known unsatisfiable subset
  for (uint32_t id : key) {
    auto c = gCores.find(id);
    if (c == gCores.end()) continue;
    for (auto& core : c->second)
      if (std::includes(key.begin(), key.end(), core.begin(), core.end())) {
        gSolver.cacheHits++;
        return UNSAT;
      }
  }
  auto t0 = std::chrono::steady_clock::now();
  // Reads of one array: equal indices give equal bytes (facts, independent of the query).
  std::map<uint32_t, std::vector<E>> sel;
  for (uint32_t v : vars) if (gVars[v].type == 2) sel[gVars[v].expr->aux2].push_back(gVars[v].expr);
  std::vector<std::pair<std::pair<uint32_t, uint32_t>, Z3_ast>> facts;
  for (auto& kv : sel) {
    auto& l = kv.second;
    std::sort(l.begin(), l.end(), [](E a, E b) { return a->id < b->id; });
    for (size_t i = 0; i < l.size(); i++)
      for (size_t j = i + 1; j < l.size(); j++) {
        Val eq = veq(Val(l[i]->a), Val(l[j]->a));
        if (eq.isFalse()) continue;
        Z3_ast veqz = Z3_mk_eq(C, tr(l[i]), tr(l[j]));
        facts.push_back({{l[i]->id, l[j]->id}, eq.isTrue() ? veqz : Z3_mk_implies(C, tr(toE(eq)), veqz)});
      }
  }
  gSolver.queries++;
  static const char* mode = getenv("SX_SOLVER");
  auto fresh = [&]() {
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, s);
    setTimeout(s, gTimeout);
    for (E e : cs) Z3_solver_assert(C, s, tr(e));
    for (auto& f : facts) Z3_solver_assert(C, s, f.second);
    return s;
  };
  Z3_solver s = nullptr;
  Z3_lbool r = Z3_L_UNDEF;
  if (!mode || mode[0] != 'f') {
    // one solver for many queries: each constraint sits behind an assumption literal
    if (!S || gAsserted > 3000) {
      if (S) Z3_solver_dec_ref(C, S);
      S = Z3_mk_simple_solver(C);
      Z3_solver_inc_ref(C, S);
      setTimeout(S, std::min(gTimeout, 5000u));
      gLit.clear(); gFact.clear(); gAsserted = 0;
    }
    std::vector<Z3_ast> as;
    for (E e : cs) {
      Z3_ast& l = gLit[e->id];
      if (!l) {
        l = Z3_mk_const(C, Z3_mk_string_symbol(C, ("!a" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(C));
        Z3_solver_assert(C, S, Z3_mk_implies(C, l, tr(e)));
        gAsserted++;
      }
      as.push_back(l);
    }
    for (auto& f : facts) if (gFact.insert(f.first).second) { Z3_solver_assert(C, S, f.second); gAsserted++; }
    r = Z3_solver_check_assumptions(C, S, as.size(), as.data());
    if (r == Z3_L_FALSE) {
      Z3_ast_vector core = Z3_solver_get_unsat_core(C, S);
      Z3_ast_vector_inc_ref(C, core);
      std::vector<uint32_t> ids;
      for (unsigned i = 0; i < Z3_ast_vector_size(C, core); i++) {
        Z3_ast l = Z3_ast_vector_get(C, core, i);
        for (size_t k = 0; k < as.size(); k++) if (as[k] == l) { ids.push_back(cs[k]->id); break; }
      }
      if (ids.size() == Z3_ast_vector_size(C, core) && !ids.empty() && ids.size() < key.size()) {
        std::sort(ids.begin(), ids.end());
        auto& v = gCores[ids.back()];
        if (v.size() < 64) v.push_back(ids);
      }
      Z3_ast_vector_dec_ref(C, core);
    }
    s = S;
    Z3_solver_inc_ref(C, s);
  }
  if (r == Z3_L_UNDEF) {
    if (s) Z3_solver_dec_ref(C, s);
    s = fresh();
    r = Z3_solver_check(C, s);
  }
  std::string dumpTxt;
  if (!gDump.empty() && gSolver.queries % gDumpEvery == 0) {
    Z3_solver d = fresh();
    dumpTxt = Z3_solver_to_string(C, d);
    Z3_solver_dec_ref(C, d);
  }
  CacheEnt ce;
  ce.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (ce.r == SAT) {
    gSolver.sat++;
    ce.m = std::make_shared<Model>();
    Z3_model zm = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, zm);
    for (uint32_t v : vars) {
      if (gVars[v].type == 1) continue;
      E e = gVars[v].expr;
      Z3_ast out;
      uint64_t x = 0;
      if (Z3_model_eval(C, zm, tr(e), true, &out)) {
        if (e->w == 1) x = Z3_get_bool_value(C, out) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(C, out, (uint64_t*)&x);
      }
      ce.m->v[v] = x;
    }
    std::vector<E> all;
    for (auto& kv : sel) for (E e : kv.second) all.push_back(e);
    std::sort(all.begin(), all.end(), [](E a, E b) { return a->id < b->id; });  // inner reads first
    for (E e : all) {
      evalBegin(ce.m.get());
      uint64_t idx = evalE(e->a);
      ce.m->arr[(uint32_t)e->aux2][idx] = (uint8_t)ce.m->v[(uint32_t)e->aux];
    }
    Z3_model_dec_ref(C, zm);
  } else if (ce.r == UNSAT) gSolver.unsat++;
  else gSolver.unknown++;
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolver.seconds += dt;
  gSolver.maxQuery = std::max(gSolver.maxQuery, dt);
  if (!dumpTxt.empty() && ce.r != UNKNOWN) {
    std::string fn = gDump + "/q" + std::to_string(gSolver.queries) + (ce.r == SAT ? ".sat" : ".unsat") + ".smt2";
    FILE* f = fopen(fn.c_str(), "w");
    if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", dumpTxt.c_str()); fclose(f); gSolver.dumped++; }
  }
  if (ce.r == SAT) {
    // Trust but verify: the model must satisfy the slice under our own evaluator.
    evalBegin(ce.m.get());
    for (E e : cs)
      if (!evalE(e)) {
        fprintf(stderr, "symx: internal error: solver model does not satisfy the constraint %s\n", exprStr(e, 8).c_str());
        exit(3);
      }
    if (m) *m = *ce.m;
  }
  gCache[key] = ce;
  return ce.r;
}
}  // namespace sx
