// The language of a line of assembly, written independently of
// nsasm/parse.cc: tokens with symbolic contents, and the statements they spell.
#pragma once
#include "nsasm/parse.h"
#include "sx.h"
namespace spec {
using namespace nsasm;
enum Kind { K_end, K_name, K_mode, K_literal, K_mnemonic, K_suffix, K_directive, K_punct };
struct Tok {
  Kind kind = K_end;
  int value = 0;  // of a literal, mnemonic, suffix, directive or punctuation
  NumericType type = T_unknown;
  std::string name;
};
// Names n0, n1, ... with a symbolic value each, varied by how they are qualified.
struct Names : LookupContext {
  int value[16] = {};
  int undefined = -1;  // index of the one that has no value
  static int Index(const std::string& s) {
    if (s == "m8x8") return 15;
    if (s.size() != 2 || s[0] != 'n') return 14;
    return s[1] - '0';
  }
  int Value(int module, int name) const {  // module -1 none, -2 global
    unsigned v = (unsigned)value[name];
    if (module == -2) v ^= 0x71;
    if (module >= 0) v ^= 0x10u * (unsigned)(module + 1) | 1;
    return (int)v;
  }
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    int n = Index(id.Identifier());
    if (n == undefined) return Error("undefined");
    return Value(!id.Qualified() ? -1 : id.Module().empty() ? -2 : Index(id.Module()), n);
  }
};
struct Operand {
  bool present = false;
  bool defined = true;   // it has a value
  int64_t value = 0;     // exact
  int type = T_unknown;
  bool lookup = false;   // names something
  bool simple = false;   // is just an unqualified name
  std::string simple_name;
};
struct Item {
  enum { label, directive, instruction } what;
  std::string name;      // label
  bool exported = false;
  int code = 0;          // mnemonic or directive
  int suffix = S_none;
  SyntacticAddressingMode form = SA_imp;
  std::vector<Operand> args;
  int returns = 0;       // 0 as called, 1 noreturn, 2 yields
  bool has_mode = false;
};
inline int Signed(int t) { return (int)sx_ite((t >= T_byte) & (t <= T_long), t + 3, t); }
inline int Width(int t) { return (int)sx_ite(t > T_long, t - 3, t); }
inline int Combine(int a, int b) {
  bool sign = (a > T_long) | (b > T_long);
  int w = (int)sx_ite(Width(a) > Width(b), Width(a), Width(b));
  return (int)sx_ite(a == T_unknown, b, sx_ite(b == T_unknown, a, sx_ite(sign, w + 3, w)));
}
// Reads a line; `failed` with the index of the offending token otherwise.
struct Reader {
  const std::vector<Tok>& t;
  const Names& names;
  size_t p = 0;
  bool failed = false;
  std::vector<Item> items;

  bool Is(int c) { return t[p].kind == K_punct && t[p].value == c; }
  bool Fail() { failed = true; return false; }
  bool Take(int c) {
    if (!Is(c)) return Fail();
    p++;
    return true;
  }
  bool Done() { return t[p].kind == K_end || Is(':'); }
  bool Closed() { return Done() || Is(P_noreturn) || Is(P_yields); }
  static void Settle(Operand* o) {
    o->defined &= (o->value >= INT32_MIN) & (o->value <= INT32_MAX);
    o->value = (int)o->value;
  }

  bool Primary(Operand* o) {
    if (t[p].kind == K_literal) {
      o->value = CastTo(t[p].type, t[p].value);
      o->type = t[p].type;
      p++;
      return true;
    }
    if (Is('(')) {
      p++;
      if (!Sum(o)) return false;
      return Take(')');
    }
    if (Is('-') || Is('<') || Is('>') || Is('^')) {
      int op = t[p].value;
      p++;
      if (!Primary(o)) return false;
      o->simple = false;
      if (op == '-') {
        o->value = -o->value;
        Settle(o);
        o->type = Signed(o->type);
      } else {
        o->value = (uint64_t)o->value >> (op == '<' ? 0 : op == '>' ? 8 : 16) & 0xff;
        o->type = T_byte;
      }
      return true;
    }
    bool far = false;
    if (Is('@')) {
      far = true;
      p++;
    }
    auto name = [&] { return t[p].kind == K_name || t[p].kind == K_mode; };
    int module = -1;
    if (Is(P_scope)) {
      module = -2;
      p++;
      if (!name()) return Fail();
    }
    if (!name()) return Fail();
    int id = Names::Index(t[p].name);
    o->simple_name = t[p].name;
    p++;
    if (module == -1 && Is(P_scope)) {
      p++;
      if (!name()) return Fail();
      module = id;
      id = Names::Index(t[p].name);
      p++;
    }
    o->lookup = true;
    o->simple = module == -1;
    o->value = names.Value(module, id);
    o->defined = id != names.undefined;
    o->type = far ? T_long : T_word;
    return true;
  }
  bool Product(Operand* o) {
    if (!Primary(o)) return false;
    while (Is('*') || Is('/')) {
      bool times = Is('*');
      p++;
      Operand r;
      if (!Primary(&r)) return false;
      Join(o, r);
      if (times) {
        o->value = o->value * r.value;
      } else {
        o->defined &= r.value != 0;
        o->value = o->value / (int64_t)sx_ite(r.value == 0, 1, (uint64_t)r.value);
      }
      Settle(o);
    }
    return true;
  }
  bool Sum(Operand* o) {
    o->present = true;
    if (!Product(o)) return false;
    while (Is('+') || Is('-')) {
      bool plus = Is('+');
      p++;
      Operand r;
      if (!Product(&r)) return false;
      Join(o, r);
      o->value = plus ? o->value + r.value : o->value - r.value;
      Settle(o);
    }
    return true;
  }
  static void Join(Operand* o, const Operand& r) {
    o->defined &= r.defined;
    o->lookup |= r.lookup;
    o->simple = false;
    o->type = Combine(o->type, r.type);
  }
  // The token after the parenthesis that closes the one at p, or p itself.
  size_t AfterParens() {
    int depth = 0;
    for (size_t q = p; t[q].kind != K_end; q++) {
      if (t[q].kind != K_punct) continue;
      if (t[q].value == '(') depth++;
      if (t[q].value == ')' && --depth == 0) return q + 1;
    }
    return p;
  }
  bool InstructionOperand(Item* i) {
    auto form = [&](SyntacticAddressingMode f) {
      i->form = f;
      return Closed() ? true : Fail();
    };
    auto expr = [&] {
      i->args.emplace_back();
      return Sum(&i->args.back());
    };
    if (Closed()) return form(SA_imp);
    if (Is('A')) { p++; return form(SA_acc); }
    if (Is('#')) {
      p++;
      if (!expr()) return false;
      if (!Is(',')) return form(SA_imm);
      p++;
      return Take('#') && expr() && form(SA_mov);
    }
    if (Is('[')) {
      p++;
      if (!expr() || !Take(']')) return false;
      if (!Is(',')) return form(SA_lng);
      p++;
      return Take('Y') && form(SA_lng_y);
    }
    if (Is('(')) {
      size_t q = AfterParens();
      bool whole = false;
      if (q > p) {
        const Tok& next = t[q];
        whole = next.kind == K_end || (next.kind == K_punct && (next.value == ':' || next.value == ',' || next.value == P_noreturn || next.value == P_yields));
      }
      // A comma directly inside means indexing too.
      size_t start = p;
      Item probe;
      Reader inside{t, names, p + 1};
      Operand first;
      bool comma = inside.Sum(&first) && inside.Is(',');
      if (whole || comma) {
        p++;
        if (!expr()) return false;
        if (Is(',')) {
          p++;
          if (Is('X')) { p++; return Take(')') && form(SA_ind_x); }
          return Take('S') && Take(')') && Take(',') && Take('Y') && form(SA_stk_y);
        }
        if (!Take(')')) return false;
        if (!Is(',')) return form(SA_ind);
        p++;
        return Take('Y') && form(SA_ind_y);
      }
      p = start;
    }
    if (!expr()) return false;
    if (!Is(',')) return form(SA_dir);
    p++;
    if (Is('X')) { p++; return form(SA_dir_x); }
    if (Is('Y')) { p++; return form(SA_dir_y); }
    return Take('S') && form(SA_stk);
  }
  bool Mode(Item* i) {
    if (t[p].kind != K_mode) return Fail();
    p++;
    i->has_mode = true;
    return true;
  }
  bool Returns(Item* i) {
    if (Is(P_noreturn)) { i->returns = 1; p++; }
    else if (Is(P_yields)) {
      i->returns = 2;
      p++;
      bool had = i->has_mode;
      if (!Mode(i)) return false;
      i->has_mode = had;
    }
    return Done() ? true : Fail();
  }
  bool Instruction(Item* i) {
    i->what = Item::instruction;
    i->code = t[p++].value;
    if (t[p].kind == K_suffix) i->suffix = t[p++].value;
    if (!InstructionOperand(i)) return false;
    if (!Returns(i)) return false;
    if (i->returns != 0 && i->code != M_jsr && i->code != M_jsl) return Fail();
    return true;
  }
  bool Directive(Item* i) {
    i->what = Item::directive;
    i->code = t[p++].value;
    auto expr = [&] {
      i->args.emplace_back();
      return Sum(&i->args.back());
    };
    switch (i->code) {
      case D_begin: case D_end: case D_halt:
        break;
      case D_db: case D_dw: case D_dl:
        if (!expr()) return false;
        while (Is(',')) { p++; if (!expr()) return false; }
        break;
      case D_equ:
        if (!expr()) return false;
        break;
      case D_org:
        if (!expr()) return false;
        if (i->args[0].lookup) return Fail();
        break;
      case D_module:
        if (!expr()) return false;
        if (!i->args[0].simple) return Fail();
        break;
      case D_mode:
        if (!Mode(i)) return false;
        break;
      case D_remote:
        if (!expr()) return false;
        [[fallthrough]];
      case D_entry:
        if (!Mode(i)) return false;
        return Returns(i);
    }
    return Done() ? true : Fail();
  }
  bool Line() {
    while (t[p].kind != K_end) {
      if (Is(':')) { p++; continue; }
      if (t[p].kind == K_name || t[p].kind == K_mode || Is(P_export)) {
        Item l;
        l.what = Item::label;
        if (Is(P_export)) { l.exported = true; p++; }
        if (t[p].kind != K_name && t[p].kind != K_mode) return Fail();
        l.name = t[p++].name;
        items.push_back(l);
        if (Done()) continue;
      }
      Item i;
      if (Is('{') || Is('}')) {
        i.what = Item::directive;
        i.code = Is('{') ? D_begin : D_end;
        p++;
        items.push_back(i);
        continue;
      }
      if (t[p].kind == K_directive) { if (!Directive(&i)) return false; }
      else if (t[p].kind == K_mnemonic) { if (!Instruction(&i)) return false; }
      else return Fail();
      items.push_back(i);
    }
    return true;
  }
};
inline Token Real(const Tok& t, Location loc) {
  switch (t.kind) {
    case K_name: case K_mode: return Token(t.name, loc);
    case K_literal: return Token(t.value, loc, t.type);
    case K_mnemonic: return Token((Mnemonic)t.value, loc);
    case K_suffix: return Token((Suffix)t.value, loc);
    case K_directive: return Token((DirectiveName)t.value, loc);
    case K_punct: return Token((Punctuation)t.value, loc);
    default: return Token(EndOfLine(), loc);
  }
}
// The expression is the one the operand describes.
inline void Same(const ExpressionOrNull& e, const Operand& o, const Names& names) {
  CHECK((bool)e == o.present, "operand-present");
  if (!o.present) return;
  CHECK(e.Type() == o.type, "operand-type");
  CHECK(e.RequiresLookup() == o.lookup, "operand-lookup");
  auto s = e.SimpleIdentifier();
  CHECK(s.has_value() == o.simple, "operand-simple");
  if (o.simple) CHECK(*s == o.simple_name, "operand-name");
  auto v = e.Evaluate(names);
  CHECK(v.ok() == o.defined, "operand-defined");
  if (v.ok()) CHECK(*v == o.value, "operand-value");
}
}  // namespace spec
