// C34: a statement's printed text reads back as the statement.
#include "nsasm/token.h"
#include "spec_grammar.h"
using namespace nsasm;
using namespace spec;
namespace {
const char* kVal[] = {"v0", "v1", "v2", "v3", "v4"};
const char* kType[] = {"t0", "t1", "t2", "t3", "t4"};
const char* kWhich[] = {"w0", "w1", "w2", "w3", "w4"};
int tier, nvals;
bool few;  // every digit below ten
Tok P(int c) { Tok t; t.kind = K_punct; t.value = c; return t; }
// A value or a name, one token or several.
void Value(std::vector<Tok>* out) {
  int i = nvals++;
  Tok t;
  int which = (int)sx_concretize((uint64_t)sx_range(0, 7, kWhich[i]));
  auto name = [&](int k) { t.kind = K_name; t.name = std::string("n") + (char)('0' + k); out->push_back(t); };
  switch (which) {
    default: {
      t.kind = K_literal;
      t.type = (NumericType[]){T_byte, T_word, T_long, T_unknown}[which];
      uint32_t v = which < 3 ? (uint32_t)sx_range(0, (1 << 8 * (which + 1)) - 1, kVal[i]) : (uint32_t)sx_range(0, few ? 9 : 999, kVal[i]);
      if (few && which < 3) {
        bool low = true;
        for (int k = 0; k < 2 * (which + 1); k++) low &= (v >> 4 * k & 15) < 10;
        sx_assume(low);
      }
      t.value = (int)v;
      out->push_back(t);
      return;
    }
    case 4: name(1); return;
    case 5: out->push_back(P('@')); name(2); return;
    case 6: name(3); out->push_back(P(P_scope)); name(4); return;
    case 7: out->push_back(P('@')); out->push_back(P(P_scope)); name(5); return;
  }
}
void Returns(std::vector<Tok>* out, int which) {
  static const char* kModes[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
  Tok m;
  m.kind = K_mode;
  m.name = kModes[sx_concretize((uint64_t)sx_range(0, 10, which == 3 ? "mode" : "yielded"))];
  if (which == 1) out->push_back(P(P_noreturn));
  if (which == 2) out->push_back(P(P_yields));
  if (which >= 2) out->push_back(m);
}
void SameValue(const ExpressionOrNull& a, const ExpressionOrNull& b, const Names& names) {
  CHECK((bool)a == (bool)b, "operand-present");
  if (!a) return;
  CHECK(a.Type() == b.Type(), "operand-type");
  CHECK(a.RequiresLookup() == b.RequiresLookup(), "operand-lookup");
  CHECK(a.SimpleIdentifier() == b.SimpleIdentifier(), "operand-name");
  auto x = a.Evaluate(names), y = b.Evaluate(names);
  CHECK(x.ok() && y.ok() && *x == *y, "operand-value");
}
void SameReturns(const ReturnConvention& a, const ReturnConvention& b) {
  CHECK(a.IsDefault() == b.IsDefault() && a.IsExitCall() == b.IsExitCall(), "returns");
  CHECK(a.YieldFlags() == b.YieldFlags(), "yields");
}
}  // namespace
extern "C" void harness() {
  int what = (int)sx_param("what");
  few = sx_param("few");
  Location loc("file", 1);
  Names names;
  for (int i = 0; i < 16; i++) names.value[i] = 100 + 7 * i;
  std::vector<Tok> t;
  Tok head;
  if (what == 0) {  // an instruction with any operand
    head.kind = K_mnemonic;
    head.value = (int)sx_concretize((uint64_t)sx_range((int)sx_param("from"), (int)sx_param("to"), "mnemonic"));
    t.push_back(head);
    Tok s;
    s.kind = K_suffix;
    s.value = (int)sx_concretize((uint64_t)sx_range(S_none, S_w, "suffix"));
    if (s.value != S_none) t.push_back(s);
    int form = (int)sx_concretize((uint64_t)sx_range(0, 13, "form"));
    switch (form) {
      case 0: break;
      case 1: t.push_back(P('A')); break;
      case 2: t.push_back(P('#')); Value(&t); break;
      case 3: t.push_back(P('#')); Value(&t); t.push_back(P(',')); t.push_back(P('#')); Value(&t); break;
      case 4: Value(&t); break;
      case 5: Value(&t); t.push_back(P(',')); t.push_back(P('X')); break;
      case 6: Value(&t); t.push_back(P(',')); t.push_back(P('Y')); break;
      case 7: Value(&t); t.push_back(P(',')); t.push_back(P('S')); break;
      case 8: t.push_back(P('(')); Value(&t); t.push_back(P(')')); break;
      case 9: t.push_back(P('(')); Value(&t); t.push_back(P(')')); t.push_back(P(',')); t.push_back(P('Y')); break;
      case 10: t.push_back(P('(')); Value(&t); t.push_back(P(',')); t.push_back(P('X')); t.push_back(P(')')); break;
      case 11: t.push_back(P('(')); Value(&t); t.push_back(P(',')); t.push_back(P('S')); t.push_back(P(')')); t.push_back(P(',')); t.push_back(P('Y')); break;
      case 12: t.push_back(P('[')); Value(&t); t.push_back(P(']')); break;
      case 13: t.push_back(P('[')); Value(&t); t.push_back(P(']')); t.push_back(P(',')); t.push_back(P('Y')); break;
    }
    if ((head.value == M_jsr || head.value == M_jsl) && s.value == S_none && (form == 4 || form == 10)) Returns(&t, (int)sx_concretize((uint64_t)sx_range(0, 2, "returns")));
  } else if (what == 1) {  // a directive
    head.kind = K_directive;
    head.value = (int)sx_param("from");
    t.push_back(head);
    switch (DirectiveTypeByName((DirectiveName)head.value)) {
      case DT_no_arg: break;
      case DT_single_arg: case DT_constant_arg: Value(&t); break;
      case DT_name_arg: { Tok n; n.kind = K_name; n.name = "n1"; t.push_back(n); break; }
      case DT_list_arg: {
        int n = (int)sx_concretize((uint64_t)sx_range(1, (int)sx_param("to"), "count"));
        for (int i = 0; i < n; i++) {
          if (i) t.push_back(P(','));
          Value(&t);
        }
        break;
      }
      case DT_flag_arg: Returns(&t, 3); break;
      case DT_remote_arg: Value(&t);
      case DT_calling_convention_arg: Returns(&t, 3); Returns(&t, (int)sx_concretize((uint64_t)sx_range(0, 2, "returns"))); break;
    }
  } else {  // a label
    if (sx_concretize((uint64_t)sx_range(0, 1, "exported"))) t.push_back(P(P_export));
    Tok n;
    n.kind = K_name;
    n.name = "n1";
    t.push_back(n);
  }
  t.emplace_back();
  std::vector<Token> real;
  for (auto& x : t) real.push_back(Real(x, loc));
  auto first = Parse(real);
  if (!first.ok()) { sx_reach("refused"); return; }
  CHECK(first->size() == 1, "one-statement");
  if (auto* l = absl::get_if<ParsedLabel>(&(*first)[0])) {
    auto tokens = Tokenize(l->ToString(), loc);
    CHECK(tokens.ok(), "label-tokens");
    auto second = Parse(*tokens);
    CHECK(second.ok() && second->size() == 1, "label-reads");
    auto* m = absl::get_if<ParsedLabel>(&(*second)[0]);
    CHECK(m && m->IsIdentifier() && m->Identifier() == l->Identifier() && m->IsExported() == l->IsExported(), "label-same");
    sx_reach("label");
    return;
  }
  const Statement& a = absl::get<Statement>((*first)[0]);
  std::string text = a.ToString();
  auto tokens = Tokenize(text, loc);
  CHECK(tokens.ok(), "text-tokens");
  auto second = Parse(*tokens);
  CHECK(second.ok() && second->size() == 1, "text-reads");
  auto* b = absl::get_if<Statement>(&(*second)[0]);
  CHECK(b != nullptr, "statement");
  if (auto* i = a.Instruction()) {
    const nsasm::Instruction* j = b->Instruction();
    CHECK(j && i->mnemonic == j->mnemonic && i->suffix == j->suffix && i->addressing_mode == j->addressing_mode, "same-instruction");
    SameValue(i->arg1, j->arg1, names);
    SameValue(i->arg2, j->arg2, names);
    SameReturns(i->return_convention, j->return_convention);
    sx_reach("instruction");
  } else {
    const nsasm::Directive *d = a.Directive(), *e = b->Directive();
    CHECK(d && e && d->name == e->name, "same-directive");
    SameValue(d->argument, e->argument, names);
    CHECK(d->list_argument.size() == e->list_argument.size(), "count");
    for (size_t k = 0; k < d->list_argument.size(); k++) SameValue(d->list_argument[k], e->list_argument[k], names);
    CHECK(d->flag_state_argument == e->flag_state_argument, "mode");
    SameReturns(d->return_convention_argument, e->return_convention_argument);
    sx_reach("directive");
  }
  sx_observe("length", text.size());
}
