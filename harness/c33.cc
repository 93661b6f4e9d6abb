// C33: the widths assembled are those the processor uses, on every path.
#include "nsasm/assembler.h"
#include "spec_machine.h"
using namespace nsasm;
using namespace spec;
namespace {
struct Sink : OutputSink {
  std::vector<W> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    W x = {(int)(a.Bank() << 16 | a.BankAddress()), (int)d.size(), {}};
    CHECK(d.size() <= 4, "write-size");
    for (size_t i = 0; i < d.size(); i++) x.b[i] = d[i];
    w.push_back(x);
    return {};
  }
};
// Lines to pick from. 'p' and 'q' are the two labels.
std::vector<const char*> Menu(int f) {
  switch (f) {
    case 0: return {"rep #$30", "sep #$20", "lda #1", "ldx #1", "bne p", "bra q", "rts"};
    case 1: return {"clc", "sec", "xce", "rep #$30", "lda #1", "bcc p", "bne q"};
    case 2: return {"php", "plp", "rep #$20", "sep #$20", "lda #1", "bne p"};
    case 3: return {"pha", "pla", "php", "plp", "sep #$30", "lda #1", "bne p"};
    case 4: return {"php", "plp", "rep #$30", "phx", "plx", "ldy #1", "beq p"};
    case 5: return {"jsr $9000 yields m16x8", "jsr $9000", "jsr $9000 noreturn", "lda #1", "sep #$20", "bne p", "php", "plp"};
    case 6: return {"phb", "plb", "php", "plp", "sep #$20", "lda #1", "sta 1,s", "sta 2,s"};
    case 7: return {"rep #$31", "sep #$31", "xce", "cpx #1", "lda #1", "bcs q", "adc #1"};
    case 8: return {".entry m16x16", ".entry m8x8", "lda #1", "rep #$20", "sep #$20", "rts", "bra p"};
    default: return {"rep #$20", "sep #$20", "php", "plp", "lda #1", "lda.b #1", "lda.w #1", "bne p", "bra p", "rts"};
  }
}
}  // namespace
extern "C" void harness() {
  Sink sink;
  CHECK(Assemble({MakeFakeFile("warm", ".org $8000\n.entry m8x8\np: lda.b #1\nbne p\njsr p yields m8x8\njmp p\n")}, &sink).ok(), "warm");
  sink.w.clear();
  auto menu = Menu((int)sx_param("menu"));
  int n = (int)sx_param("n");
  const Entry& en = kEntries[sx_param("entry")];
  static const char* names[] = {"l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7"};
  std::vector<int> entries = {0};
  std::vector<const char*> lines;
  for (int i = 0; i < n; i++) {
    int k = (int)sx_concretize((uint64_t)sx_range(0, (int)menu.size() - 1, names[i]));
    lines.push_back(menu[k]);
  }
  lines.push_back("rts");
  bool uses[2] = {};
  for (auto* l : lines)
    if (l[0] == 'b' && (l[4] == 'p' || l[4] == 'q')) uses[l[4] == 'q'] = true;
  // Labels: q near the end, p anywhere.
  int p = uses[0] ? (int)sx_concretize((uint64_t)sx_range(0, n, "p")) : -1, q = uses[1] ? (int)sx_concretize((uint64_t)sx_range(n > 1 ? n - 1 : 0, n, "q")) : -1;
  std::string text = std::string(".org $8000\n.entry ") + en.text + "\n";
  for (int i = 0; i <= n; i++) {
    if (i == p) text += "p: ";
    if (i == q) text += "q: ";
    text += lines[i];
    text += "\n";
  }
  auto got = Assemble({MakeFakeFile("f", text)}, &sink);
  if (!got.ok()) {
    sx_reach("refused");
    return;
  }
  Machine s;
  s.e = sx_bool("e"); s.m = sx_bool("m"); s.x = sx_bool("x"); s.c = sx_bool("c");
  int pc = 0x8000;
  int start = 0;
  // Any of the entry points.
  int count = 1;
  for (auto* l : lines) count += l[0] == '.';
  int pick = count > 1 ? (int)sx_concretize((uint64_t)sx_range(0, count - 1, "entry_point")) : 0;
  const Entry* at = &en;
  size_t wrote = 0;
  for (int i = 0; i <= n && start < pick; i++) {
    if (lines[i][0] == '.') {
      start++;
      at = &kEntries[lines[i][8] == '1'];
      pc = wrote < sink.w.size() ? sink.w[wrote].at : 0;
    } else {
      wrote++;
    }
  }
  sx_assume((at->e == 2) | (s.e == (at->e == 1)));
  sx_assume((at->m == 2) | (s.m == (at->m == 1)));
  sx_assume((at->x == 2) | (s.x == (at->x == 1)));
  sx_assume(!s.e | (s.m & s.x));
  int steps = (int)sx_param("steps");
  std::vector<std::pair<int, Machine>> been;
  for (int i = 0; i < steps; i++) {
    // What follows a machine state seen before was seen before.
    for (auto& b : been) {
      if (b.first != pc || b.second.st.size() != s.st.size()) continue;
      bool same = (b.second.e == s.e) & (b.second.m == s.m) & (b.second.x == s.x) & (b.second.c == s.c);
      for (size_t k = 0; k < s.st.size(); k++) same &= b.second.st[k] == s.st[k];
      sx_assume(!same);
    }
    been.push_back({pc, s});
    const W* here = nullptr;
    size_t index = 0;
    for (size_t k = 0; k < sink.w.size(); k++)
      if (sink.w[k].at == pc) { here = &sink.w[k]; index = k; }
    CHECK(here, "boundary");
    if (!here) return;
    // What a routine called may do: its declared convention.
    const char* line = nullptr;
    size_t code = 0;
    for (auto* l : lines)
      if (l[0] != '.' && code++ == index) line = l;
    pc = Step(s, *here);
    if (here->b[0] == 0x20) {
      s.c = sx_bool("carry");
      if (line[9] == ' ' && line[10] == 'n') pc = -1;
      if (line[9] == ' ' && line[10] == 'y') { s.e = false; s.m = false; s.x = true; }
    }
    if (pc < 0) {
      sx_reach("returned");
      return;
    }
  }
  sx_reach("cut");
}
