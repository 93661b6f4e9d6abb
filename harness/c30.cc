// C30: programs, from their text to the bytes written.
#include "nsasm/assembler.h"
#include "nsasm/mnemonic.h"
#include "nsasm/parse.h"
#include "sx.h"
using namespace nsasm;
namespace {
// ---- the program as written: lines picked from a menu ----
enum Op { kLabel, kOpen, kClose, kOrg, kEqu, kData, kModule, kEntry, kNop, kRts, kJump, kBranch, kMaybe, kRemote, kHalt, kCode };
struct Ref {  // an operand: a name, or a literal when there is none
  const char* module = nullptr;  // nullptr: unqualified
  const char* name = nullptr;
  int plus = 0;
};
struct Line {
  Op op;
  const char* text;  // '?' any digit, '!' any of a to f, in the digits of a literal
  const char* label = nullptr;
  bool exported = false;
  int width = 0;     // of data
  Ref ref;
  int opcode = -1;   // of other code: opcode, operand (if width > 1), whether it ends the routine, whether it is relative
  bool exit = false, relative = false;
};
const Line kMenu[] = {
    /* 0*/ {kOrg, ".org $00800?"},
    /* 1*/ {kOrg, ".org $7effff"},
    /* 2*/ {kData, ".db 7", nullptr, false, 1},
    /* 3*/ {kData, ".dw $12?!", nullptr, false, 2},
    /* 4*/ {kLabel, "p:", "p"},
    /* 5*/ {kData, ".dl p", nullptr, false, 3, {nullptr, "p"}},
    /* 6*/ {kLabel, "export p", "p", true},
    /* 7*/ {kOpen, "{"},
    /* 8*/ {kClose, "}"},
    /* 9*/ {kEqu, "p .equ $!?", "p"},
    /*10*/ {kEqu, "p .equ q+2", "p", false, 0, {nullptr, "q", 2}},
    /*11*/ {kEqu, "q .equ p-300", "q", false, 0, {nullptr, "p", -300}},
    /*12*/ {kData, ".dw q+1", nullptr, false, 2, {nullptr, "q", 1}},
    /*13*/ {kModule, ".module m", "m"},
    /*14*/ {kModule, ".module k", "k"},
    /*15*/ {kData, ".dl m::p", nullptr, false, 3, {"m", "p"}},
    /*16*/ {kData, ".dl ::p", nullptr, false, 3, {"", "p"}},
    /*17*/ {kEqu, "q .equ k::p", "q", false, 0, {"k", "p"}},
    /*18*/ {kEqu, "p .equ m::q", "p", false, 0, {"m", "q"}},
    /*19*/ {kEntry, ".entry m8x8"},
    /*20*/ {kNop, "nop"},
    /*21*/ {kRts, "rts"},
    /*22*/ {kJump, "jmp p", nullptr, false, 3, {nullptr, "p"}},
    /*23*/ {kBranch, "bra p", nullptr, false, 2, {nullptr, "p"}},
    /*24*/ {kMaybe, "bne p", nullptr, false, 2, {nullptr, "p"}},
    /*25*/ {kOrg, ".org 0-?"},
    /*26*/ {kOrg, ".org 1677721?"},
    /*27*/ {kEqu, "p .equ 0-?", "p"},
    /*28*/ {kRemote, ".remote p m8x8", nullptr, false, 0, {nullptr, "p"}},
    /*29*/ {kOrg, ".org $01800?"},
    /*30*/ {kEqu, "export q .equ 5", "q", true},
    /*31*/ {kOrg, ".org $01fff!"},
    /*32*/ {kLabel, "q:", "q"},
    /*33*/ {kEqu, "p .equ 1677721?", "p"},
    /*34*/ {kOrg, ".org $00ff??"},
    /*35*/ {kEqu, "q .equ m::p", "q", false, 0, {"m", "p"}},
    /*36*/ {kEqu, "export p .equ $?!", "p", true},
    /*37*/ {kData, ".db m::q", nullptr, false, 1, {"m", "q"}},
    /*38*/ {kEqu, "q .equ p+2", "q", false, 0, {nullptr, "p", 2}},
    /*39*/ {kModule, ".module j", "j"},
    /*40*/ {kEqu, "p .equ j::r", "p", false, 0, {"j", "r"}},
    /*41*/ {kEqu, "r .equ $1?", "r"},
    /*42*/ {kLabel, "r:", "r"},
    /*43*/ {kEqu, "r .equ m::p", "r", false, 0, {"m", "p"}},
    /*44*/ {kOrg, ".org $03800?"},
    /*45*/ {kHalt, ".halt"},
    /*46*/ {kCode, "jsr p", nullptr, false, 3, {nullptr, "p"}, 0x20},
    /*47*/ {kCode, "jsl @p", nullptr, false, 4, {nullptr, "p"}, 0x22},
    /*48*/ {kCode, "jmp @m::p", nullptr, false, 4, {"m", "p"}, 0x5c, true},
    /*49*/ {kCode, "brl p", nullptr, false, 3, {nullptr, "p"}, 0x82, true, true},
    /*50*/ {kCode, "per p", nullptr, false, 3, {nullptr, "p"}, 0x62, false, true},
    /*51*/ {kCode, "rti", nullptr, false, 1, {}, 0x40, true},
    /*52*/ {kCode, "stp", nullptr, false, 1, {}, 0xdb, true},
    /*53*/ {kCode, "jsr p noreturn", nullptr, false, 3, {nullptr, "p"}, 0x20, true},
    /*54*/ {kCode, "lda @p,x", nullptr, false, 4, {nullptr, "p"}, 0xbf},
    /*55*/ {kCode, "rtl", nullptr, false, 1, {}, 0x6b, true},
    /*56*/ {kCode, "sta p", nullptr, false, 3, {nullptr, "p"}, 0x8d},
};
// Families of programs: what comes first, what the rest is picked from, what comes last.
struct Family { std::vector<int> first, menu, last; };
Family Pick(int f) {
  switch (f) {
    case 0: return {{}, {0, 1, 2, 3, 4, 5}};            // layout
    case 1: return {{1}, {2, 4, 5, 6, 7, 8}};           // scopes
    case 2: return {{34}, {4, 9, 10, 11, 5, 12}};       // constants
    case 3: return {{0}, {13, 4, 6, 15, 16, 5, 2}};     // names of modules
    case 4: return {{0, 19}, {20, 4, 23, 24, 21, 2}};   // code
    case 5: return {{1, 19}, {4, 7, 8, 23, 24, 21, 32}};
    case 6: return {{}, {25, 26, 27, 28, 2, 4, 33}};    // numbers that are no address
    case 7: return {{31, 19}, {20, 22, 21, 4, 9, 23}};
    case 8: return {{0, 13}, {17, 30, 4, 5, 15}};       // constants across modules
    case 9: return {{29, 14}, {18, 4, 6, 5, 15}};
    case 10: return {{29}, {4, 5, 16, 2}};
    case 12: return {{0, 13, 7}, {4, 6, 15, 16, 5, 2}, {8}};     // a module's names seen from inside a scope
    case 13: return {{0, 13, 7}, {9, 36, 35, 12, 37, 8}, {}};    // its constants
    case 14: return {{0, 13, 7}, {36, 9, 35, 38, 15, 12}, {8}};
    case 15: return {{0, 13, 6, 2, 7}, {7, 8, 4, 6, 15, 5}, {8}};
    case 16: return {{0, 13}, {17, 12, 4}, {}};                  // three modules in a row
    case 17: return {{29, 14}, {40, 4, 5}, {}};
    case 18: return {{44, 39}, {41, 42, 43, 2}, {}};
    case 19: return {{31, 13, 19}, {46, 47, 48, 53, 4, 45, 21}, {}};  // other code
    case 20: return {{31, 13, 19}, {49, 50, 4, 20, 51, 52}, {}};
    case 21: return {{0, 13, 19}, {54, 55, 56, 4, 27, 45, 2}, {}};
    default: return {{0, 14}, {4, 2, 5}};
  }
}
// ---- what it means ----
struct Stmt {
  Line l;
  std::vector<int> scopes;  // innermost last; scope 0 is the module
  int size = 0;
  bool has_value = false;
  int64_t value = 0;
  int64_t literal = 0;
  bool reached = false;
};
struct Def { std::string name; int scope, stmt; };
struct Unit {
  std::string name;
  std::vector<Stmt> s;
  std::vector<Def> defs;
  int scope_count = 1;
};
struct Written { int64_t at; int size; int64_t value; int opcode; };
struct Meaning {
  std::vector<Unit> units;
  std::vector<Written> out;
  bool ok = true;      // may depend on symbolic values
  bool fatal = false;  // wrong whatever the values

  bool Load(Unit* u, const std::vector<Line>& lines, const std::vector<int64_t>& literals) {
    std::vector<int> open = {0};
    std::vector<const Line*> pending;
    for (size_t i = 0; i < lines.size(); i++) {
      const Line& l = lines[i];
      if (l.op == kLabel || l.op == kEqu) pending.push_back(&l);
      if (l.op == kLabel) continue;
      Stmt st;
      st.l = l;
      st.scopes = open;
      st.literal = literals[i];
      st.size = l.op == kData || l.op == kJump || l.op == kBranch || l.op == kMaybe || l.op == kCode ? l.width : l.op == kNop || l.op == kRts ? 1 : 0;
      for (auto* p : pending) {
        int scope = p->exported ? 0 : open.back();
        for (auto& d : u->defs)
          if (d.scope == scope && d.name == p->label) return false;
        u->defs.push_back({p->label, scope, (int)u->s.size()});
      }
      pending.clear();
      if (l.op == kModule) {
        if (!u->name.empty()) return false;
        u->name = l.label;
      }
      if (l.op == kOpen) open.push_back(u->scope_count++);
      if (l.op == kClose) {
        if (open.size() == 1) return false;
        open.pop_back();
      }
      u->s.push_back(st);
    }
    return open.size() == 1 && pending.empty();
  }
  static int Find(const Unit& u, const std::vector<int>& scopes, const char* name) {
    for (size_t i = scopes.size(); i-- > 0;)
      for (auto& d : u.defs)
        if (d.scope == scopes[i] && d.name == name) return d.stmt;
    return -1;
  }
  // Where a name leads: a unit and statement, or nothing.
  bool Resolve(int unit, const Stmt& st, int* to_unit, int* to) {
    const Ref& r = st.l.ref;
    const Unit& u = units[unit];
    std::string module;
    if (r.module) {
      module = r.module;
    } else {
      *to_unit = unit;
      *to = Find(u, st.scopes, r.name);
      if (*to >= 0) return true;
    }
    for (size_t k = 0; k < units.size(); k++) {
      if (units[k].name != module) continue;
      int s = Find(units[k], {0}, r.name);
      if (s >= 0) {
        *to_unit = (int)k;
        *to = s;
        return true;
      }
    }
    return false;
  }
  bool Flow(Unit* u) {
    std::vector<size_t> todo;
    for (size_t i = 0; i < u->s.size(); i++)
      if (u->s[i].l.op == kEntry) todo.push_back(i + 1);
    while (!todo.empty()) {
      size_t i = todo.back();
      todo.pop_back();
      if (i >= u->s.size()) return false;
      Stmt& st = u->s[i];
      if (st.reached) continue;
      st.reached = true;
      Op op = st.l.op;
      if (op == kData || op == kOrg) return false;
      if (op == kBranch || op == kMaybe || st.l.opcode == 0x82) {
        int to = Find(*u, st.scopes, st.l.ref.name);
        if (to < 0 || u->s[to].l.op == kEqu) return false;
        todo.push_back(to);
      }
      if (op != kRts && op != kJump && op != kBranch && op != kHalt && !st.l.exit) todo.push_back(i + 1);
    }
    for (auto& st : u->s) {
      Op op = st.l.op;
      bool code = op == kNop || op == kRts || op == kJump || op == kBranch || op == kMaybe || op == kCode;
      if (code && !st.reached) return false;
    }
    return true;
  }
  void Need(bool c) { ok &= c; }
  bool Layout(Unit* u) {
    bool placed = false;
    int64_t pc = 0;
    for (auto& st : u->s) {
      if (st.l.op == kOrg) {
        Need((st.literal >= 0) & (st.literal <= 0xffffff));
        pc = st.literal & 0xffffff;
        placed = true;
      }
      if (!placed && (st.size > 0 || st.l.op == kEntry)) return false;
      if (st.l.op != kEqu && placed) {
        st.has_value = true;
        st.value = pc;
      }
      pc = (pc & 0xff0000) | ((pc + st.size) & 0xffff);
    }
    return true;
  }
  // Modules in an order in which constants only need earlier ones.
  bool Order(std::vector<int>* order) {
    std::vector<bool> done(units.size());
    while (order->size() < units.size()) {
      bool more = false;
      for (size_t k = 0; k < units.size(); k++) {
        if (done[k]) continue;
        bool ready = true;
        for (auto& st : units[k].s) {
          if (st.l.op != kEqu || !st.l.ref.name) continue;
          int tu, t;
          ready &= Resolve((int)k, st, &tu, &t) && (tu == (int)k || done[tu]);
        }
        if (!ready) continue;
        done[k] = more = true;
        order->push_back((int)k);
      }
      if (!more) return false;
    }
    return true;
  }
  bool Value(int unit, const Stmt& st, int64_t* v) {
    if (!st.l.ref.name) { *v = st.literal; return true; }
    int tu, t;
    if (!Resolve(unit, st, &tu, &t)) return false;
    if (!units[tu].s[t].has_value) return false;
    *v = units[tu].s[t].value + st.l.ref.plus;
    return true;
  }
  bool Run() {
    // No name of a module may be defined twice.
    for (size_t k = 0; k < units.size(); k++)
      for (size_t j = 0; j < k; j++)
        for (auto& d : units[k].defs)
          for (auto& e : units[j].defs)
            if (d.scope == 0 && e.scope == 0 && d.name == e.name && units[k].name == units[j].name) return false;
    std::vector<int> order;
    if (!Order(&order)) return false;
    for (auto& u : units)
      if (!Flow(&u) || !Layout(&u)) return false;
    for (int k : order)
      for (auto& st : units[k].s)
        if (st.l.op == kEqu) {
          if (!Value(k, st, &st.value)) return false;
          st.has_value = true;
        }
    for (int k : order) {
      for (auto& d : units[k].defs)
        if (d.scope == 0 && !units[k].s[d.stmt].has_value) return false;
      for (auto& st : units[k].s) {
        int64_t v = 0;
        if (st.l.op == kRemote) {
          if (!Value(k, st, &v)) return false;
          Need((v >= 0) & (v <= 0xffffff));
        }
        if (st.size == 0) continue;
        Written w = {st.value, st.size, 0, -1};
        if (st.l.op == kNop) w.opcode = 0xea;
        else if (st.l.op == kRts) w.opcode = 0x60;
        else if (st.l.op == kCode) {
          w.opcode = st.l.opcode;
          if (st.size > 1 && !Value(k, st, &v)) return false;
          w.value = v;
          if (st.l.relative) {
            int64_t from = (st.value & 0xff0000) | ((st.value + 3) & 0xffff);
            Need(((v ^ from) >> 16 == 0));
            w.value = (v - from) & 0xffff;
          }
        } else {
          if (!Value(k, st, &v)) return false;
          w.value = v;
        }
        if (st.l.op == kJump) w.opcode = 0x4c;
        if (st.l.op == kBranch || st.l.op == kMaybe) {
          w.opcode = st.l.op == kBranch ? 0x80 : 0xd0;
          int64_t from = (st.value & 0xff0000) | ((st.value + 2) & 0xffff);
          int d = (int16_t)(v - from);
          Need(((v ^ from) >> 16 == 0) & (d >= -128) & (d <= 127));
          w.value = d & 0xff;
        }
        out.push_back(w);
      }
    }
    for (size_t i = 0; i < out.size(); i++)
      for (size_t j = 0; j < i; j++) {
        auto& a = out[i];
        auto& b = out[j];
        bool bank = (a.at ^ b.at) >> 16 == 0;
        Need(!bank | ((((a.at - b.at) & 0xffff) >= b.size) & (((b.at - a.at) & 0xffff) >= a.size)));
      }
    return true;
  }
};
int ByteOf(const Written& w, int i) {
  if (w.opcode >= 0) return i == 0 ? w.opcode : (int)(w.value >> (8 * (i - 1)) & 0xff);
  return (int)(w.value >> (8 * i) & 0xff);
}
// ---- what the assembler does ----
struct Sink : OutputSink {
  struct W { uint32_t at; int size; uint8_t b[4]; };
  std::vector<W> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    W x = {(uint32_t)a.Bank() << 16 | a.BankAddress(), (int)d.size(), {}};
    CHECK(d.size() <= 4, "write-size");
    for (size_t i = 0; i < d.size(); i++) x.b[i] = d[i];
    w.push_back(x);
    return {};
  }
};
int counter = 0;
std::string Spell(const Line& l, int64_t* literal) {
  std::string s = l.text;
  size_t d = s.find_first_of("$0123456789");
  *literal = 0;
  if (d == std::string::npos || (l.ref.name && l.op != kEqu) || l.ref.name) return s;
  int base = 10;
  if (s[d] == '$') { base = 16; d++; }
  bool minus = s.compare(d, 2, "0-") == 0;
  if (minus) d += 2;
  int64_t v = 0;
  for (; d < s.size(); d++) {
    if (s[d] == '?' || s[d] == '!') {
      char lo = s[d] == '?' ? '0' : 'a';
      int span = s[d] == '?' ? 9 : 5;
      static const char* names[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11"};
      int x = sx_range(0, span, names[counter++ % 12]);
      s[d] = (char)(lo + x);
      v = v * base + x + (lo == 'a' ? 10 : 0);
    } else {
      v = v * base + (s[d] >= 'a' ? s[d] - 'a' + 10 : s[d] - '0');
    }
  }
  *literal = minus ? -v : v;
  return s;
}
}  // namespace
extern "C" void harness() {
  counter = 0;
  int files = (int)sx_param("files");
  {  // tables are built once, before the programs part ways
    Sink none;
    CHECK(Assemble({MakeFakeFile("warm", ".org $8000\n.entry m8x8\np: lda.b #1\nbne p\njmp p\n")}, &none).ok(), "warm");
  }
  static const char* fn[] = {"f0", "f1", "f2"};
  static const char* nn[] = {"n0", "n1", "n2"};
  static const char* kn[3][8] = {{"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"}, {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"}, {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"}};
  Meaning m;
  std::vector<File> real;
  bool loads = true;
  for (int f = 0; f < files; f++) {
    Family fam = Pick((int)sx_param(fn[f]));
    int n = (int)sx_param(nn[f]);
    std::vector<Line> lines;
    std::vector<int64_t> literals;
    std::string text;
    for (size_t i = 0; i < fam.first.size() + n + fam.last.size(); i++) {
      int k = i < fam.first.size() ? fam.first[i]
                                   : i >= fam.first.size() + n ? fam.last[i - fam.first.size() - n]
                                   : fam.menu[sx_concretize((uint64_t)sx_range(0, (int)fam.menu.size() - 1, kn[f][i - fam.first.size()]))];
      lines.push_back(kMenu[k]);
      int64_t v;
      text += Spell(kMenu[k], &v) + "\n";
      literals.push_back(v);
    }
    m.units.emplace_back();
    loads = loads && m.Load(&m.units.back(), lines, literals);
    real.push_back(MakeFakeFile(f == 2 ? "third" : f ? "second" : "first", text));
  }
  Sink sink;
  auto got = Assemble(real, &sink);
  if (!loads || !m.Run()) {
    CHECK(!got.ok(), "wrong-program");
    sx_reach("refused");
    return;
  }
  CHECK(got.ok() == m.ok, "accepted");
  if (!got.ok()) {
    sx_reach("conflict");
    return;
  }
  CHECK(sink.w.size() == m.out.size(), "count");
  for (auto& w : m.out) {
    bool found = false;
    for (auto& x : sink.w) {
      if (x.size != w.size) continue;
      bool same = x.at == (uint32_t)w.at;
      for (int i = 0; i < w.size; i++) same &= x.b[i] == ByteOf(w, i);
      found |= same;
    }
    CHECK(found, "bytes");
  }
  // What is where.
  uint32_t probe = sx_u32("probe") & 0xffffff;
  bool inside = false;
  for (auto& w : m.out) inside |= ((w.at ^ probe) >> 16 == 0) & (((probe - w.at) & 0xffff) < w.size);
  CHECK(got->Contains(Address(probe)) == inside, "contains");
  // What is called by a name.
  auto named = got->NameForAddress(Address(probe));
  bool any = false, right = false;
  for (auto& u : m.units)
    for (auto& d : u.defs) {
      if (d.scope != 0 || u.name.empty()) continue;
      bool here = u.s[d.stmt].value == probe;
      any |= here;
      if (named.has_value() && named->Module() == u.name && named->Identifier() == d.name) right |= here;
    }
  CHECK(named.has_value() == any, "named");
  CHECK(!named.has_value() || right, "name");
  sx_observe("writes", sink.w.size());
  sx_reach(m.out.empty() ? "empty" : "assembled");
}
