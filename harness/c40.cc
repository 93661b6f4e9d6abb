// C40: the straight-line disassembly tool's main(), against what the machine runs.
#include "nsasm/decode.h"
#include "nsasm/rom.h"
#include "filemock.h"
#include "spec_machine.h"
#include "sx.h"
using namespace nsasm;
using namespace spec;
extern "C" int tool_main(int argc, char** argv) FM_NAME("main");
static std::string gText;
extern "C" void sx_stdout(const char* p, size_t n) { gText.append(p, n); }
namespace {
constexpr int kAny = 0x100;
using Piece = std::vector<int>;
std::vector<Piece> Menu(int f) {
  switch (f) {
    case 0: return {{0xc2, 0x30}, {0xe2, 0x20}, {0xa9, kAny, 0xea}, {0xa2, 0x05, 0x06}, {0xd0, 0x01}, {0x60}, {0xf0, 0x03}};
    case 1: return {{0x38}, {0x18}, {0xfb}, {0x90, 0x01}, {0xb0, 0x02}, {0x60}, {0xa9, kAny, 0xea}};
    case 2: return {{0x08}, {0x28}, {0xe2, 0x30}, {0x80, 0x00}, {0xd0, 0x02}, {0x6b}, {0x22, 0x00, 0x80, 0x01}, {0xa0, kAny, 0xea}};
    default: return {{0xad, 0x34, 0x12}, {0xaf, kAny, 0xea, 0xea}, {0x82, 0x01, 0x00}, {0x4c, 0x00, 0x90}, {0x20, 0x00, 0x90}, {0xd0, 0xfe}, {0x10, 0x00}, {0x54, 1, 2}};
  }
}
int Hex(const std::string& s, size_t at) {
  int v = 0;
  for (size_t i = at; i < at + 6; i++) v = v * 16 + (s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10);
  return v;
}
// "m8x16, c=1": what a line says is known.
struct Said {
  int e = 2, m = 2, x = 2, c = 2;
  explicit Said(const std::string& s) {
    auto has = [&](const char* t) { return s.find(t) != std::string::npos; };
    if (has("emu")) e = m = x = 1;
    else if (!has("unk")) e = 0;
    if (has("m8")) m = 1;
    if (has("m16")) m = 0;
    if (has("x8")) x = 1;
    if (has("x16")) x = 0;
    if (has("c=1")) c = 1;
    if (has("c=0")) c = 0;
  }
};
struct Line { int at; std::string text, flags; int to = -1; };
}  // namespace
extern "C" void harness() {
  int n = (int)sx_param("n"), at_end = (int)sx_param("end"), arg = (int)sx_param("arg");
  fm::may_fail = sx_param("faults");
  fm::one_fault = true;
  fm::in.assign(0x10000, 0x60);
  fm::in_size = 0x10000;
  const uint8_t sums[] = {0xff, 0xff, 0, 0};
  for (int i = 0; i < 4; i++) fm::in[0x7fdc + i] = sums[i];
  static const char* names[] = {"l0", "l1", "l2", "l3", "l4"};
  auto menu = Menu((int)sx_param("menu"));
  Piece code;
  // A branch over an exit between two pieces: one, or two to one place with a piece between, or one over a piece too.
  int mid = (int)sx_param("mid");
  uint8_t bcc = sx_param("menu") == 1 ? 0x90 : 0xd0;
  for (int i = 0; i < n; i++) {
    auto& piece = menu[sx_concretize((uint64_t)sx_range(0, (int)menu.size() - 1, names[i]))];
    if (mid >= 2 && i == 0) code.insert(code.end(), {bcc, (int)piece.size() + (mid == 2 ? 3 : 1)});
    if (mid == 1 && i == 1) code.insert(code.end(), {bcc, 1, 0x60});
    code.insert(code.end(), piece.begin(), piece.end());
  }
  if (mid == 2) code.insert(code.end(), {bcc, 1});
  if (mid >= 2) code.insert(code.end(), {0x60, 0xa9, 0x80, 0xea});
  code.push_back(0x60);
  // At the beginning of a bank, or up to its last byte.
  int start = at_end ? 0x20000 - (int)code.size() : 0x8000;
  int base = start < 0x10000 ? start - 0x8000 : start - 0x10000;
  for (size_t i = 0; i < code.size(); i++) fm::in[base + i] = code[i] == kAny ? (uint8_t)(0x80 + sx_range(0, 9, "digit")) : (uint8_t)code[i];
  int mode = arg ? 0 : (int)sx_concretize((uint64_t)sx_range(0, fm::may_fail ? 0 : 5, "mode"));
  const Entry& en = kEntries[mode];
  std::string a[5] = {"tool", "rom.sfc", "", en.text};
  for (int i = 5; i >= 0; i--) a[2] += "0123456789abcdef"[start >> 4 * i & 15];
  int argc = 4;
  bool named = true;
  if (arg == 32) argc = (int)sx_concretize((uint64_t)sx_range(1, 3, "argc"));
  else if (arg) {
    a[2] = sx_string((size_t)arg & 15, "address");
    for (char& c : a[2]) sx_assume(c != 0);
    if (arg & 16) a[3] = sx_string(2, "modetext");
    named = false;
  }
  char* argv[6];
  for (int i = 0; i < 5; i++) argv[i] = &a[i][0];
  argv[argc] = nullptr;
  int status = tool_main(argc, argv);
  CHECK(fm::opened == fm::closed, "file-left-open");
  sx_observe("code", (uint32_t)status);
  CHECK(!gText.empty() && gText.back() == '\n', "nothing-printed");
#ifdef SX_NATIVE
  if (getenv("SX_SHOW")) fprintf(stderr, "%s", gText.c_str());
#endif
  if (argc < 4) {
    CHECK(gText.find(" - ") == std::string::npos, "usage");
    sx_reach("usage");
    return;
  }
  // The lines.
  std::vector<Line> lines;
  int error_at = -1;
  bool more = false;  // something else was said
  for (size_t pos = 0; pos < gText.size();) {
    size_t end = gText.find('\n', pos);
    std::string l = gText.substr(pos, end - pos);
    pos = end + 1;
    if (l.size() < 10 || l[0] != '$' || l.compare(7, 3, " - ") != 0) { more = true; continue; }
    CHECK(error_at < 0 && !more, "line-after-the-end");
    if (l.find("ERROR") != std::string::npos) { error_at = Hex(l, 1); continue; }
    size_t semi = l.find(" ; "), to = l.find(" to $");
    CHECK(semi != std::string::npos, "line-form");
    if (semi == std::string::npos) return;
    size_t from = 10;
    while (from < semi && l[from] == ' ') from++;
    lines.push_back({Hex(l, 1), l.substr(from, semi - from), l.substr(semi + 3, to == std::string::npos ? to : to - semi - 3), to == std::string::npos ? -1 : Hex(l, to + 5)});
  }
  if (fm::failed || !named) {
    if (fm::failed) CHECK(lines.empty() && status != 0, "io-error-hidden");
    sx_reach(fm::failed ? "fault" : "any");
    return;
  }
  CHECK((status == 0) == (error_at < 0), "status");
  // Where they are, and where they end.
  auto byte = [&](int a) { return fm::in[(size_t)((a >> 16) * 0x8000 + (a & 0x7fff))]; };
  int pc = start;
  auto readable = [&](int a) { return (a & 0x8000) && (a >> 16) < 2; };
  bool ended = false;
  std::vector<W> w;
  for (size_t i = 0; i < lines.size(); i++) {
    auto& l = lines[i];
    CHECK(!ended, "goes-on");
    CHECK(l.at == pc, "address");
    CHECK(readable(pc), "unreadable");
    if (l.at != pc || !readable(pc)) return;
    auto op = kTable.op[byte(pc)];
    int size = 1 + kSizes.n[op.a];
    if (op.a == A_imm_fm || op.a == A_imm_fx) {
      // As long as it says; an execution to it is judged below.
      size = l.text.find('$') != std::string::npos && l.text.size() - l.text.find('$') == 3 ? 2 : 3;
    }
    W x = {pc, size, {}};
    for (int k = 0; k < size; k++) {
      CHECK(readable(pc + k), "unreadable");
      if (!readable(pc + k)) return;
      x.b[k] = byte(pc + k);
    }
    w.push_back(x);
    int next = (pc & 0xff0000) | ((pc + size) & 0xffff);
    int to = -1;
    if (op.a == A_rel8) to = (pc & 0xff0000) | ((next + (int8_t)x.b[1]) & 0xffff);
    if (op.a == A_rel16) to = (pc & 0xff0000) | ((next + (x.b[1] | x.b[2] << 8)) & 0xffff);
    CHECK(l.to == to, "branch-target");
    pc = next;
    bool exit = op.m == M_rts || op.m == M_rtl || op.m == M_jmp || op.m == M_bra || op.m == M_brl;
    if (exit) {
      ended = true;
      for (auto& b : lines) {
        if (b.to == pc && b.at <= l.at) ended = false;
      }
    }
  }
  if (error_at >= 0) {
    CHECK(!ended && error_at == pc, "error-place");
    auto op = readable(pc) ? kTable.op[byte(pc)] : kTable.op[0];
    bool fits = readable(pc);
    if (fits && op.a != A_imm_fm && op.a != A_imm_fx)
      for (int k = 0; k < 1 + kSizes.n[op.a]; k++) fits &= readable((pc & 0xff0000) | ((pc + k) & 0xffff));
    CHECK(!fits || op.a == A_imm_fm || op.a == A_imm_fx || op.m == M_xce || op.m == M_plp, "refused-needlessly");
    if (fits && (op.a == A_imm_fm || op.a == A_imm_fx) && lines.size() && !at_end) {
      bool after_exit = false;
      auto last = kTable.op[byte(lines.back().at)].m;
      after_exit = last == M_rts || last == M_rtl || last == M_jmp || last == M_bra || last == M_brl;
      Said s(lines.back().flags);
      if (!after_exit) CHECK((op.a == A_imm_fm ? s.m : s.x) == 2, "refused-needlessly");
    }
    sx_reach("error");
  } else {
    CHECK(ended && !lines.empty(), "stops-early");
    sx_reach("listed");
  }
  // An execution along the lines, which may take the last branch to a place that only branches lead to.
  Machine s;
  s.e = sx_concretize(sx_bool("e")); s.m = sx_concretize(sx_bool("m")); s.x = sx_concretize(sx_bool("x")); s.c = sx_bool("c");
  sx_assume((en.e == 2) | (s.e == (en.e == 1)));
  sx_assume((en.m == 2) | (s.m == (en.m == 1)));
  sx_assume((en.x == 2) | (s.x == (en.x == 1)));
  sx_assume(!s.e | (s.m & s.x));
  for (size_t i = 0; i < lines.size();) {
    // What it runs is what is shown.
    StatusFlags now(s.e ? B_on : B_off, s.m ? B_on : B_off, s.x ? B_on : B_off);
    std::vector<uint8_t> bytes;
    for (int k = 0; k < 4 && readable(lines[i].at + k); k++) bytes.push_back(byte(lines[i].at + k));
    auto real = Decode(bytes, now);
    CHECK(real.ok(), "decodes");
    if (!real.ok()) return;
    CHECK(real->ToString() == lines[i].text, "text");
    // The last branch to the place after an exit is what leads on there.
    size_t on = 0;
    if (lines[i].to > lines[i].at) {
      for (size_t k = i + 1; k < lines.size(); k++) {
        auto m = kTable.op[byte(lines[k - 1].at)].m;
        bool exit = m == M_rts || m == M_rtl || m == M_jmp || m == M_bra || m == M_brl;
        if (exit && lines[k].at == lines[i].to) on = k;
      }
      for (size_t k = i + 1; k < on; k++)
        if (lines[k].to == lines[i].to) on = 0;
    }
    int next = Step(s, w[i]);
    Said said(lines[i].flags);
    auto check = [&] {
      CHECK((said.e == 2) | ((said.e == 1) == s.e), "flags-untrue");
      CHECK((said.m == 2) | ((said.m == 1) == s.m), "flags-untrue");
      CHECK((said.x == 2) | ((said.x == 1) == s.x), "flags-untrue");
    };
    if (kTable.op[w[i].b[0]].m == M_jsr || kTable.op[w[i].b[0]].m == M_jsl) s.c = sx_bool("carry");
    s.e = sx_concretize(s.e); s.m = sx_concretize(s.m); s.x = sx_concretize(s.x);
    check();
    if (on && next == lines[on].at) {
      i = on;
      sx_reach("branched");
      continue;
    }
    if (next < 0 || i + 1 == lines.size() || next != lines[i + 1].at) break;
    auto m = kTable.op[w[i].b[0]].m;
    if (m == M_bra || m == M_brl) break;  // not the way the tool reads on
    CHECK((said.c == 2) | ((said.c == 1) == s.c), "carry-untrue");
    i++;
  }
}
