// C29: expressions, from their tokens to their value.
#include "spec_grammar.h"
using namespace nsasm;
using namespace spec;
extern "C" void harness() {
  int n = (int)sx_param("n");
  int bits = (int)sx_param("bits");  // of literals and names, signed
  static const char* kn[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"};
  static const char* vn[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"};
  static const char* tn[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9"};
  static const int kOps[] = {'+', '-', '*', '/', '<', '>', '^', '(', ')', '@', P_scope};
  int viable = (int)sx_param("viable");  // only lines right so far, of this many of the tokens below
  bool types = sx_param("types");
  static const int kSome[] = {0, 2, 3, 4, 9, 10, 5, 6};
  Location loc("file", 1);
  Names names;
  auto any = [&](const char* name) { return bits == 32 ? sx_int(name) : (int)((uint32_t)sx_sym(bits, name) << (32 - bits)) >> (32 - bits); };
  std::vector<Tok> toks(2);
  toks[0].kind = K_directive;
  toks[0].value = D_equ;
  std::vector<Token> real;
  real.push_back(Real(toks[0], loc));
  bool dead = false;
  int used = 0;
  for (int i = 0; i < n; i++) {
    Tok t;
    // Once the line is wrong only what might hide it is tried.
    int k = (int)sx_concretize((uint64_t)sx_range(0, dead ? 2 : viable ? viable - 1 : 12, kn[i]));
    if (viable && k > 0) k = kSome[k];
    if (k == 0) {
      t.kind = K_literal;
      t.type = dead || !types ? T_unknown : (NumericType)sx_range(T_unknown, T_long, tn[i]);
      t.value = dead ? 1 : any(vn[i]);
    } else if (dead) {
      if (k == 2) break;
      t.kind = K_punct;
      t.value = ')';
    } else if (k == 1) {
      t.kind = K_name;
      t.name = std::string("n") + (char)('0' + used);
      names.value[used] = any(vn[i]);
      used++;
    } else {
      t.kind = K_punct;
      t.value = kOps[k - 2];
    }
    toks.back() = t;
    toks.emplace_back();
    real.push_back(Real(t, loc));
    if (!dead) {
      Reader probe{toks, names};
      if (!probe.Line() && probe.p < toks.size() - 1) dead = true;
      if (dead && viable) return;
    }
  }
  real.push_back(Token(EndOfLine(), loc));
  if (sx_bool("undefined")) names.undefined = 0;
  Reader r{toks, names};
  bool good = r.Line();
  auto got = Parse(real);
  CHECK(got.ok() == good, "accepted");
  if (!good) { sx_reach("refused"); return; }
  CHECK(got->size() == 1, "one-statement");
  auto* st = absl::get_if<Statement>(&(*got)[0]);
  CHECK(st && st->Directive() && st->Directive()->name == D_equ, "directive");
  Statement copy = *st;
  const Operand& o = r.items[0].args[0];
  Same(copy.Directive()->argument, o, names);
  sx_reach(o.defined ? "value" : "error");
}
