// C28: from the tokens of a line to its statements.
#include "spec_grammar.h"
#include "spec_opcodes.h"
using namespace nsasm;
using namespace spec;
namespace {
static const char* kn[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"};
static const char* vn[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"};
static const char* tn[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9"};
// What may follow, by the place in a line: everything, or the tokens of operands.
enum { W_any, W_operand, W_line };
const int kPuncts[] = {'(', ')', '[', ']', ',', ':', '#', '+', '-', '*', '/', '@', '{', '}', '>', '<', '^',
                       P_scope, P_export, P_noreturn, P_yields, P_plusplus, P_minusminus, 'A', 'S', 'X', 'Y'};
const int kOperand[] = {'(', ')', '[', ']', ',', '#', '+', 'A', 'S', 'X', 'Y', P_noreturn, P_yields, ':'};
const int kLine[] = {':', '{', '}', P_export, '#'};
Tok Pick(int i, int what, const Tok* repair) {
  Tok t;
  if (repair) {  // the line is wrong already: only what might hide that is tried
    switch (sx_concretize((uint64_t)sx_range(0, 3, kn[i]))) {
      case 0: return t;
      case 1: t.kind = K_literal; t.value = 1; return t;
      case 2: t.kind = K_punct; t.value = ')'; return t;
      default: return *repair;
    }
  }
  switch (sx_concretize((uint64_t)sx_range(0, what == W_any ? 6 : what == W_operand ? 4 : 5, kn[i]))) {
    case 0:
      t.kind = K_punct;
      if (what == W_any) t.value = kPuncts[sx_concretize((uint64_t)sx_range(0, (int)std::size(kPuncts) - 1, vn[i]))];
      if (what == W_operand) t.value = kOperand[sx_concretize((uint64_t)sx_range(0, (int)std::size(kOperand) - 1, vn[i]))];
      if (what == W_line) t.value = kLine[sx_concretize((uint64_t)sx_range(0, (int)std::size(kLine) - 1, vn[i]))];
      return t;
    case 1:
      t.kind = K_name;
      t.name = std::string("n") + (char)('0' + i);
      return t;
    case 2:
      t.kind = K_literal;
      t.type = what == W_operand ? (NumericType)sx_range(T_unknown, T_long, tn[i]) : T_unknown;
      t.value = sx_range(0, 7, vn[i]);
      return t;
    case 3:
      if (what == W_line) {
        t.kind = K_mnemonic;
        t.value = M_nop;
        return t;
      }
      t.kind = K_mode;
      t.name = "m8x8";
      return t;
    case 4:
      if (what == W_line) {
        t.kind = K_directive;
        t.value = sx_range(0, 1, vn[i]) ? D_halt : D_db;
        return t;
      }
      t.kind = K_suffix;
      t.value = sx_range(S_none + 1, S_w, vn[i]);
      return t;
    case 5:
      if (what == W_line) {
        t.kind = K_suffix;
        t.value = S_b;
        return t;
      }
      t.kind = K_mnemonic;
      t.value = sx_range(M_adc, PM_sub, vn[i]);
      return t;
    default:
      t.kind = K_directive;
      t.value = sx_range(D_begin, D_remote, vn[i]);
      return t;
  }
}
// An operand as an expression, for the choice of addressing mode.
struct Described : Expression {
  Operand o;
  const Names& names;
  Described(const Operand& o, const Names& names) : o(o), names(names) {}
  ErrorOr<int> Evaluate(const LookupContext& context) const override {
    if (!o.present) return Error("no operand");
    if (o.lookup && !context.Lookup(FullIdentifier("n0")).ok()) return Error("needs names");
    if (!o.defined) return Error("no value");
    return (int)o.value;
  }
  NumericType Type() const override { return (NumericType)o.type; }
  absl::optional<std::string> SimpleIdentifier() const override {
    if (o.simple) return o.simple_name;
    return absl::nullopt;
  }
  bool RequiresLookup() const override { return o.lookup; }
  std::set<FullIdentifier> ExternalNamesReferenced(const IsLocalContext&) const override { return {}; }
  std::string ToString() const override { return ""; }
  std::unique_ptr<Expression> Copy() const override { return absl::make_unique<Described>(o, names); }
};
}  // namespace
extern "C" void harness() {
  int n = (int)sx_param("n");
  int what = (int)sx_param("what"), first = (int)sx_param("first"), more = (int)sx_param("more");
  Location loc("file", 1);
  Names names;
  for (int i = 0; i < 10; i++) names.value[i] = 100 + i;
  names.value[14] = names.value[15] = 99;
  std::vector<Tok> toks(1);
  auto add = [&](const Tok& t) {
    toks.back() = t;
    toks.emplace_back();
  };
  if (what == W_operand) {
    Tok t;
    if (first == 999) { t.kind = K_mnemonic; t.value = sx_range(M_adc, PM_sub, "mnemonic"); }
    else if (first < 1000) { t.kind = K_mnemonic; t.value = first; }
    else { t.kind = K_directive; t.value = first - 1000; }
    add(t);
  }
  Tok bad;
  int wrong = 0;
  for (int i = 0; i < n; i++) {
    Tok t = Pick(i, what, wrong ? &bad : nullptr);
    if (wrong && t.kind == K_end) break;
    add(t);
    if (wrong) {
      if (++wrong > more) break;
      continue;
    }
    Reader probe{toks, names};
    if (!probe.Line() && probe.p < toks.size() - 1) {
      wrong = 1;
      bad = t;
      if (wrong > more) break;
    }
  }
  std::vector<Token> real;
  for (auto& t : toks) real.push_back(Real(t, loc));
  Reader r{toks, names};
  bool good = r.Line();
  auto got = Parse(real);
  if (!good) {
    CHECK(!got.ok(), "wrong-line-accepted");
    sx_reach("refused");
    return;
  }
  // What the grammar allows the instruction set may not.
  bool legal = true;
  std::vector<int> modes;
  for (auto& it : r.items) {
    int mode = -1;
    if (it.what == Item::instruction) {
      legal &= (it.suffix == S_none) | (kWidths.w[it.code] != kFixed);
      // The mode an operand selects is C22's.
      auto arg = [&](size_t k) { return k < it.args.size() ? Described(it.args[k], names) : Described(Operand(), names); };
      auto m = DeduceMode((Mnemonic)it.code, it.form, arg(0), arg(1));
      legal &= m.ok();
      if (m.ok()) mode = (int)*m;
    }
    modes.push_back(mode);
  }
  CHECK(got.ok() == legal, "good-line");
  if (!legal) { sx_reach("illegal"); return; }
  CHECK(got->size() == r.items.size(), "count");
  auto flags = *StatusFlags::FromName("m8x8");
  auto returns = [&](const ReturnConvention& c, const Item& it) {
    CHECK(c.IsDefault() == (it.returns == 0) && c.IsExitCall() == (it.returns == 1), "returns");
    auto y = c.YieldFlags();
    CHECK(y.has_value() == (it.returns == 2), "yields");
    if (y) CHECK(*y == flags, "yields-mode");
  };
  for (size_t i = 0; i < r.items.size(); i++) {
    const Item& it = r.items[i];
    if (it.what == Item::label) {
      auto* l = absl::get_if<ParsedLabel>(&(*got)[i]);
      CHECK(l != nullptr, "label");
      CHECK(l->IsIdentifier() && l->Identifier() == it.name, "label-name");
      CHECK(l->IsExported() == it.exported, "label-exported");
      sx_reach("label");
      continue;
    }
    auto* st = absl::get_if<Statement>(&(*got)[i]);
    CHECK(st != nullptr, "statement");
    if (it.what == Item::directive) {
      auto* d = st->Directive();
      CHECK(d != nullptr && d->name == it.code, "directive");
      bool list = (it.code == D_db) | (it.code == D_dw) | (it.code == D_dl);
      CHECK(d->list_argument.size() == (list ? it.args.size() : 0), "operand-count");
      if (list) {
        for (size_t k = 0; k < it.args.size(); k++) Same(d->list_argument[k], it.args[k], names);
        CHECK(!d->argument, "no-operand");
      } else {
        Same(d->argument, it.args.empty() ? Operand() : it.args[0], names);
      }
      if (it.has_mode) CHECK(d->flag_state_argument == flags, "mode");
      returns(d->return_convention_argument, it);
      sx_reach("directive");
      continue;
    }
    auto* in = st->Instruction();
    CHECK(in != nullptr && in->mnemonic == it.code, "instruction");
    CHECK(in->suffix == it.suffix, "suffix");
    CHECK((int)in->addressing_mode == modes[i], "addressing");
    Same(in->arg1, it.args.size() > 0 ? it.args[0] : Operand(), names);
    Same(in->arg2, it.args.size() > 1 ? it.args[1] : Operand(), names);
    returns(in->return_convention, it);
    sx_reach("instruction");
  }
  sx_observe("count", got->size());
  sx_reach("line");
}
