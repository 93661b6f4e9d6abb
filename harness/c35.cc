// C35: what the assembler reports of calls and jumps out of the program.
#include "nsasm/assembler.h"
#include "spec_machine.h"
using namespace nsasm;
using namespace spec;
namespace {
struct Sink : OutputSink {
  std::vector<W> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    W x = {(int)(a.Bank() << 16 | a.BankAddress()), (int)d.size(), {}};
    CHECK(d.size() <= 4, "write-size");
    for (size_t i = 0; i < d.size(); i++) x.b[i] = d[i];
    w.push_back(x);
    return {};
  }
};
// A line, where it leads, and what is declared of the place.
struct L {
  const char* text;
  int target = -1;      // of a call or jump; in the bank of the line below $10000
  bool call = false;
  int mode = -1;        // declared: index in kEntries
  int returns = 0;      // 1 noreturn, 2 yields m16x8
  bool remote = false;  // declares `target`, otherwise the next line
};
const L kLeave[] = {{"jsr $9000", 0x9000, true}, {"jsl $019000", 0x19000, true}, {"jmp $9000", 0x9000}, {"jmp $7e9001", 0x7e9001},
                    {"jsr $9000+1", 0x9001, true}, {"jsl far", -1, true}, {"jsr $9001 noreturn", 0x9001, true, -1, 1},
                    {"jsr $9001 yields m16x8", 0x9001, true, -1, 2}, {"jmp ($9000)"}, {"jsl $828001-2", 0x827fff, true}};
const L kModes[] = {{"rep #$30"}, {"sep #$20"}, {"sec"}, {"clc"}, {"xce"}, {"php"}, {"plp"}, {"bne p"}, {"bra q"}, {"rts"}, {"bcc p"}};
const L kDeclare[] = {{".remote $9000 m8x8", 0x9000, false, 0, 0, true}, {".remote $9000 m16x16 yields m16x8", 0x9000, false, 1, 2, true},
                      {".remote $019000 m8x8 noreturn", 0x19000, false, 0, 1, true}, {".entry m16x16 yields m16x8", -1, false, 1, 2},
                      {".entry m8x8", -1, false, 0, 0}, {".entry m8x8 noreturn", -1, false, 0, 1}, {".remote far m8x8", 0x348000, false, 0, 0, true}};
std::vector<const L*> Menu(int f) {
  std::vector<const L*> m;
  auto add = [&](const L* l, std::initializer_list<int> which) { for (int k : which) m.push_back(l + k); };
  switch (f) {
    case 0: add(kLeave, {0, 1, 2, 3, 4}); add(kModes, {0, 1}); break;
    case 1: add(kLeave, {0, 1}); add(kModes, {0, 1, 7, 8, 9}); break;
    case 2: add(kLeave, {0, 4}); add(kModes, {2, 3, 4, 0, 10}); break;
    case 3: add(kLeave, {0, 7}); add(kModes, {0, 1, 5, 6, 7}); break;
    case 4: add(kLeave, {0, 1, 6, 7}); add(kModes, {0, 1, 9}); break;
    case 5: add(kLeave, {0, 1, 2}); add(kDeclare, {0, 1, 2}); add(kModes, {0}); break;
    case 6: add(kLeave, {0}); add(kDeclare, {0, 3, 4, 5}); add(kModes, {0, 9}); break;
    case 7: add(kLeave, {5, 8, 9, 3}); add(kDeclare, {6}); add(kModes, {0, 1}); break;
    default: add(kDeclare, {0, 1, 2, 3, 4, 5, 6}); add(kModes, {9}); break;
  }
  return m;
}
// What it is known to be, if it describes every one of these.
bool Describes(const StatusFlags& f, int e, int m, int x) {
  auto is = [](BitState b, int v) { return b >= B_original || (v != 2 && (b == B_on) == (v == 1)); };
  return is(f.EBit(), e) && is(f.MBit(), m) && is(f.XBit(), x);
}
}  // namespace
extern "C" void harness() {
  Sink sink;
  CHECK(Assemble({MakeFakeFile("warm", ".org $8000\n.entry m8x8\np: lda.b #1\nbne p\njsr p yields m8x8\njmp p\n")}, &sink).ok(), "warm");
  sink.w.clear();
  auto menu = Menu((int)sx_param("menu"));
  int n = (int)sx_param("n"), base = (int)sx_param("base"), second = (int)sx_param("second");
  const Entry& en = kEntries[sx_param("entry")];
  static const char* names[] = {"l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7"};
  const L kRts = {"rts"};
  std::vector<const L*> lines;
  for (int i = 0; i < n; i++) lines.push_back(menu[sx_concretize((uint64_t)sx_range(0, (int)menu.size() - 1, names[i]))]);
  lines.push_back(&kRts);
  bool uses[2] = {};
  for (auto* l : lines)
    if (l->text[0] == 'b') uses[l->text[4] == 'q'] = true;
  int p = uses[0] ? (int)sx_concretize((uint64_t)sx_range(0, n, "p")) : -1, q = uses[1] ? (int)sx_concretize((uint64_t)sx_range(n > 1 ? n - 1 : 0, n, "q")) : -1;
  char head[16] = ".org $000000\n";
  for (int i = 0; i < 6; i++) head[6 + i] = "0123456789abcdef"[base >> 4 * (5 - i) & 15];
  std::string text = std::string("far .equ $348000\n") + head + ".entry " + en.text + "\n";
  for (int i = 0; i <= n; i++) {
    if (i == p) text += "p: ";
    if (i == q) text += "q: ";
    text += lines[i]->text;
    text += "\n";
  }
  // Either module may have a name.
  int named = (int)sx_param("named");
  if (named & 1) text = ".module first\n" + text;
  std::vector<File> files = {MakeFakeFile("f", text)};
  // Another module, which may lie where the first one jumps or jump there too.
  static const char* others[] = {"", ".org $9000\n.entry m8x8\nrts\n", ".org $018100\n.entry m16x16 yields m8x8\nclc\njsl $019000\nrts\n",
                                 ".remote $9000 m8x16 noreturn\n", ".org $8100\n.entry m8x16\njsr $9000\njsl $019000\nrts\n"};
  if (second) files.insert(named & 4 ? files.begin() : files.end(), MakeFakeFile("g", std::string(named & 2 ? ".module second\n" : "") + others[second]));
  // A third that jumps nowhere, in front or behind.
  if (named & 8) files.insert(named & 4 ? files.end() : files.begin(), MakeFakeFile("h", ".module third\n.org $7f8000\n.entry m8x8\nrts\n"));
  auto got = Assemble(files, &sink);
  if (!got.ok()) {
    sx_reach("refused");
    return;
  }
  std::set<int> bytes;
  for (auto& w : sink.w)
    for (int k = 0; k < w.size; k++) bytes.insert((w.at & 0xff0000) | ((w.at + k) & 0xffff));
  auto targets = got->JumpTargets();
  auto returns = got->JumpTargetReturnConventions();
  auto full = [&](int t) { return t < 0x10000 ? t | (base & 0xff0000) : t; };
  // Each thing said of a place outside is in the report, and nothing else.
  std::map<int, std::vector<int>> said;  // -1: a call or jump, else a mode
  std::map<int, std::set<int>> yields;
  int at = base;
  std::vector<int> where;
  for (auto* l : lines) {
    where.push_back(at);
    if (l->mode >= 0) {
      int t = l->remote ? l->target : at;  // a number in .remote is the address itself
      if (l->remote) said[t].push_back(l->mode);
      if (l->returns) yields[t].insert(l->returns);
      continue;
    }
    if (l->target >= 0) said[full(l->target)].push_back(-1);
    const W* w = nullptr;
    for (auto& x : sink.w)
      if (x.at == at) w = &x;
    CHECK(w, "layout");
    if (!w) return;
    at = (at & 0xff0000) | ((at + w->size) & 0xffff);
  }
  if (second == 2) { said[0x19000].push_back(1); yields[0x18100].insert(3); }
  if (second == 4) { said[0x9000].push_back(5); said[0x19000].push_back(5); }
  if (second == 3) { said[0x9000].push_back(5); yields[0x9000].insert(1); }
  for (auto& s : said) {
    bool inside = bytes.count(s.first);
    CHECK(got->Contains(Address((uint32_t)s.first)) == inside, "contains");
    auto it = targets.find(Address((uint32_t)s.first));
    CHECK((it == targets.end()) == inside, inside ? "inside-reported" : "missing");
    if (inside) { sx_reach("inside"); continue; }
    for (int m : s.second)
      if (m >= 0) CHECK(Describes(it->second, kEntries[m].e, kEntries[m].m, kEntries[m].x), "declared-state");
    bool all_same = true;
    for (int m : s.second) all_same &= m >= 0 && m == s.second[0];
    if (all_same) {  // and not less than declared
      const Entry& d = kEntries[s.second[0]];
      CHECK((it->second.EBit() == B_on) == (d.e == 1) && (it->second.MBit() == B_on) == (d.m == 1) && (it->second.XBit() == B_on) == (d.x == 1) &&
            it->second.EBit() < B_original && it->second.MBit() < B_original && it->second.XBit() < B_original, "declared-exactly");
    }
    sx_reach(s.second.size() > 1 ? "several" : "one");
  }
  CHECK(targets.size() <= said.size(), "reported-too-much");
  for (auto& t : targets) CHECK(said.count((int)(t.first.Bank() << 16 | t.first.BankAddress())), "reported-unsaid");
  CHECK(returns.size() == yields.size(), "conventions");
  for (auto& y : yields) {
    auto it = returns.find(Address((uint32_t)y.first));
    CHECK(it != returns.end(), "convention-missing");
    bool match = false;
    for (int k : y.second) {
      auto f = it->second.YieldFlags();
      if (k == 1) match |= it->second.IsExitCall();
      if (k == 2) match |= f && *f == *StatusFlags::FromName("m16x8");
      if (k == 3) match |= f && *f == *StatusFlags::FromName("m8x8");
    }
    CHECK(match, "convention");
    sx_reach("convention");
  }
  // The report is true of every execution, from any of the entry points.
  Machine s;
  s.e = sx_bool("e"); s.m = sx_bool("m"); s.x = sx_bool("x"); s.c = sx_bool("c");
  int count = 1, start = 0, pc = base;
  for (auto* l : lines) count += l->mode >= 0 && !l->remote;
  int pick = count > 1 ? (int)sx_concretize((uint64_t)sx_range(0, count - 1, "entry_point")) : 0;
  const Entry* begin = &en;
  for (size_t i = 0; i < lines.size() && start < pick; i++)
    if (lines[i]->mode >= 0 && !lines[i]->remote) {
      start++;
      begin = &kEntries[lines[i]->mode];
      pc = where[i];
    }
  sx_assume((begin->e == 2) | (s.e == (begin->e == 1)));
  sx_assume((begin->m == 2) | (s.m == (begin->m == 1)));
  sx_assume((begin->x == 2) | (s.x == (begin->x == 1)));
  sx_assume(!s.e | (s.m & s.x));
  bool em = s.m, ex = s.x, ee = s.e;
  (void)em; (void)ex; (void)ee;
  int steps = (int)sx_param("steps");
  std::vector<std::pair<int, Machine>> been;
  for (int i = 0; i < steps; i++) {
    for (auto& b : been) {
      if (b.first != pc || b.second.st.size() != s.st.size()) continue;
      bool same = (b.second.e == s.e) & (b.second.m == s.m) & (b.second.x == s.x) & (b.second.c == s.c);
      for (size_t k = 0; k < s.st.size(); k++) same &= b.second.st[k] == s.st[k];
      sx_assume(!same);
    }
    been.push_back({pc, s});
    const W* here = nullptr;
    for (auto& w : sink.w)
      if (w.at == pc) here = &w;
    const L* line = nullptr;
    for (size_t k = 0; k < lines.size(); k++)
      if (where[k] == pc && lines[k]->mode < 0) line = lines[k];
    CHECK(here && line, "boundary");
    if (!here || !line) return;
    if (line->target >= 0) {
      auto it = targets.find(Address((uint32_t)full(line->target)));
      if (it != targets.end()) {
        auto is = [](BitState b, bool v) { return b >= B_original || (b == B_on) == v; };
        const StatusFlags& f = it->second;
        CHECK(is(f.EBit(), s.e) & is(f.MBit(), s.m) & is(f.XBit(), s.x) & is(f.CBit(), s.c), "flags-untrue");
        sx_reach("called");
      }
    }
    pc = Step(s, *here);
    if (line->call) {
      s.c = sx_bool("carry");
      if (line->returns == 1) pc = -1;
      if (line->returns == 2) { s.e = false; s.m = false; s.x = true; }
    }
    if (pc < 0) return;
  }
  sx_reach("cut");
}
