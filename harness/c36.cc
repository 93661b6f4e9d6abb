// C36, C37: the disassembly tools' main(), on a small program in a ROM file; what
// they print is assembled again.
#include <map>
#include "nsasm/assembler.h"
#include "nsasm/rom.h"
#include "filemock.h"
#include "spec_machine.h"
#include "sx.h"
using namespace nsasm;
using namespace spec;
extern "C" int tool_main(int argc, char** argv) FM_NAME("main");
static std::string gText;
extern "C" void sx_stdout(const char* p, size_t n) { gText.append(p, n); }
static std::map<std::string, std::string> gFiles;
namespace nsasm {
ErrorOr<File> HarnessFile(const std::string& path) {
  auto it = gFiles.find(path);
  if (it == gFiles.end()) return Error("Unable to open file %s", path);
  return MakeFakeFile(path, it->second);
}
}  // namespace nsasm
namespace {
struct Sink : OutputSink {
  std::vector<W> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    W x = {(int)(a.Bank() << 16 | a.BankAddress()), (int)d.size(), {}};
    CHECK(d.size() <= 5, "write-size");
    for (size_t i = 0; i < d.size() && i < 5; i++) x.b[i] = d[i];
    w.push_back(x);
    return {};
  }
};
constexpr int kAny = 0x100;
using Piece = std::vector<int>;
std::vector<Piece> Menu(int f) {
  switch (f) {
    case 0: return {{0xc2, 0x30}, {0xe2, 0x20}, {0xa2, 0x05, 0x06}, {0x20, 0x00, 0x90}, {0x20, 0x10, 0x90}, {0x38}, {0x60}};
    case 1: return {{0x38}, {0x18}, {0xfb}, {0x20, 0x10, 0x90}, {0x4c, 0x10, 0x90}, {0x22, 0x00, 0x80, 0x01}, {0xd0, 0x00}};
    case 2: return {{0xf0, 0xfe}, {0x80, 0x00}, {0x20, 0x00, 0x90}, {0x4c, 0x00, 0x80}, {0xad, 0x34, 0x12}, {0x5c, 0x00, 0x80, 0x01}, {0x62, 0x00, 0x00}};
    default: return {{0x20, 0x00, 0xf0}, {0xe9, kAny, 0xea}, {0x18}, {0x69, kAny, 0xea}, {0x20, 0x00, 0x10}, {0x82, 0x00, 0x00}, {0x00, kAny}, {0x20, 0x00, 0x91}};
  }
}
void Code(int at, const std::vector<int>& b) {
  for (size_t i = 0; i < b.size(); i++) fm::in[(size_t)at + i] = b[i] == kAny ? (uint8_t)(0x80 + sx_range(0, 9, "digit")) : (uint8_t)b[i];
}
}  // namespace
extern "C" void harness() {
  Sink none;
  CHECK(Assemble({MakeFakeFile("warm", ".org $8000\n.entry m8x8\np: lda.b #1\nbne p\njsr p yields m8x8\njmp p\n")}, &none).ok(), "warm");
  const int tool = TOOL, more = (int)sx_param("more"); int n = (int)sx_param("n");
  fm::may_fail = sx_param("faults");
  fm::one_fault = true;
  fm::in.assign(0x10000, 0x60);
  fm::in_size = 0x10000;
  const uint8_t sums[] = {0xff, 0xff, 0, 0};
  for (int i = 0; i < 4; i++) fm::in[0x7fdc + i] = sums[i];
  // The program at $008000, and routines at $009000, $009010 and $018000.
  static const char* names[] = {"l0", "l1", "l2", "l3", "l4"};
  auto menu = Menu((int)sx_param("menu"));
  int at = 0;
  for (int i = 0; i < n; i++) {
    auto& piece = menu[sx_concretize((uint64_t)sx_range(0, (int)menu.size() - 1, names[i]))];
    Code(at, piece);
    at += (int)piece.size();
  }
  if (int chain = (int)sx_param("chain")) {  // routines that call each other
    if (chain < 10) chain = (int)sx_concretize((uint64_t)sx_range(1, chain, "chain"));
    Code(at, {0x20, 0x00, 0x92});
    at += 3;
    for (int i = 0; i < chain; i++) {
      int next = 0x9200 + 4 * (i + 1);
      Code(0x1200 + 4 * i, {i % 3 ? 0x20 : 0x4c, next & 255, next >> 8, 0x60});
    }
    Code(0x1200 + 4 * chain, {0xa9, kAny, 0x60});
  }
  Code(0x1000, {0xa9, kAny, 0x60, 0x60});          // lda #; rts
  Code(0x1010, {0x90, 0x01, 0x60, 0xea, 0x60});    // bcc
  Code(0x8000, {0xe8, 0x20, 0x00, 0x80, 0x6b});    // inx, jsr itself, rtl
  std::string a[6] = {"tool", "rom.sfc"};
  int argc = 0;
  bool named = true;
  if (tool == 0) {
    int mode = (int)sx_concretize((uint64_t)sx_range(0, fm::may_fail ? 0 : 4, "mode"));
    a[2] = "8000";
    a[3] = kEntries[mode].text;
    argc = 4;
    if (sx_param("two")) {
      a[4] = (int)sx_param("two") == 2 ? "@8100" : sx_param("two") == 3 ? "ffff" : "18000";
      a[5] = "m16x16";
      fm::in[0x100] = 0x00;
      fm::in[0x101] = 0x90;
      if ((int)sx_param("two") == 4) {  // the place after the program, one bank on
        int v = 0x8001 + at;
        a[4] = "1";
        for (int i = 3; i >= 0; i--) a[4] += "0123456789abcdef"[v >> 4 * i & 15];
      }
      argc = 6;
    }
    if (sx_param("arg")) {  // anything for an address or a mode
      a[2] = sx_string((size_t)sx_param("arg") & 15, "address");
      for (char& c : a[2]) sx_assume(c != 0);
      if (sx_param("arg") & 16) a[3] = sx_string(2, "modetext");
      named = false;
    }
  } else {
    // Sources that are in the ROM, and jump to the program.
    static const char* sources[] = {".org $009100\n.entry m8x8\njsr $8000\nrts\n", ".org $009100\n.entry m16x16\nrts\n.remote $8000 m8x16\n",
                                    ".org $009100\n.entry m8x8\nsec\njmp $8000\n", ".org $009100\n.entry m8x8\njsr $8000\n.db 5\n",
                                    ".org $009100\n.entry m8x8\njsr $8000\nrts\n.remote $9000 m8x8 yields m16x16\n.remote $9010 m8x8 noreturn\n"};
    int which = (int)sx_concretize((uint64_t)sx_range(0, fm::may_fail ? 0 : 5, "source"));
    gFiles["a.asm"] = which < 5 ? sources[which] : "nop nop nop (";
    Code(0x1100, which == 1 ? Piece{0x60} : which == 2 ? Piece{0x38, 0x4c, 0x00, 0x80} : Piece{0x20, 0x00, 0x80, 0x60});
    a[2] = sx_concretize((uint64_t)sx_range(0, 1, "present")) ? "a.asm" : "b.asm";
    argc = 3;
    // More sources, each leading to another routine.
    static const struct { const char *name, *text; Piece code; } kMore[] = {
        {"c.asm", ".org $009300\n.entry m8x8\njsr $9010\nrts\n", {0x20, 0x10, 0x90}}, {"d.asm", ".module d\n.org $009310\n.entry m8x8\njsl $018000\nrts\n", {0x22, 0, 0x80, 1}},
        {"e.asm", ".org $009320\n.entry m8x8\njmp $9000\n", {0x4c, 0, 0x90}}};
    for (int i = 0; i < more; i++) {
      gFiles[kMore[i].name] = kMore[i].text;
      Code(0x1300 + 16 * i, kMore[i].code);
      a[argc++] = kMore[i].name;
    }
    // In any order.
    if (more) std::swap(a[2], a[2 + sx_concretize((uint64_t)sx_range(0, more, "first"))]);
  }
  if (sx_param("arg") == 32) argc = (int)sx_concretize((uint64_t)sx_range(1, 3 - (tool == 1), "argc"));
  char* argv[7];
  for (int i = 0; i < 6; i++) argv[i] = &a[i][0];
  argv[argc] = nullptr;
  int code = tool_main(argc, argv);
  CHECK(fm::opened == fm::closed, "file-left-open");
  sx_observe("code", (uint32_t)code);
  CHECK(!gText.empty() && gText.back() == '\n', "nothing-printed");
  bool listing = gText.find("; Disassembled ") != std::string::npos;
  if (argc < 4 - tool) {
    CHECK(!listing, "usage");
    sx_reach("usage");
    return;
  }
  if (!listing) {
    CHECK(code != 0, "error-reported-as-success");
    bool expected = fm::failed || !named || (tool == 1 && (a[2] == "b.asm" || (more > 0 && a[3] == "b.asm") || (more > 1 && a[4] == "b.asm") || (more > 2 && a[5] == "b.asm") || gFiles["a.asm"][0] == 'n' || gFiles["a.asm"].find(".db") != std::string::npos));
    CHECK(expected, "refused-needlessly");
    sx_reach("error");
    return;
  }
#ifdef SX_NATIVE
  if (getenv("SX_SHOW")) fprintf(stderr, "%s", gText.c_str());
#endif
  CHECK(code == 0, "success-reported-as-error");
  CHECK(!fm::failed, "io-error-hidden");
  if (!named) { sx_reach("listed-any"); return; }
  if ((int)sx_param("chain") > 99) {  // however deep they go
    int v = 0x9200 + 4 * (int)sx_param("chain");
    std::string at = " $00";  // in a comment or an error
    for (int i = 3; i >= 0; i--) at += "0123456789abcdef"[v >> 4 * i & 15];
    CHECK(gText.find(at) != std::string::npos, "routine-missing");
    sx_reach("deep");
    return;
  }
  // Assembled again it is what the ROM has, and what was asked for is listed.
  Sink sink;
  auto again = Assemble({MakeFakeFile("listing", gText)}, &sink);
  bool empty = gText.find("Disassembled no instructions") != std::string::npos;
#ifdef SX_NATIVE
  if (getenv("SX_SHOW")) fprintf(stderr, "%s\n", again.ok() ? "" : again.error().ToString().c_str());
#endif
  // No name says "either mode, 8-bit registers".
  if (!again.ok() && gText.find(".entry unk") != std::string::npos) {
    sx_reach("unnamed-state");
    return;
  }
  CHECK(again.ok(), "assembles");
  std::set<int> starts;
  for (auto& w : sink.w) {
    starts.insert(w.at);
    for (int i = 0; i < w.size; i++) {
      int x = w.at + i;
      CHECK((x & 0x8000) && (x >> 16) < 2, "outside-the-rom");
      CHECK(w.b[i] == fm::in[(size_t)((x >> 16) * 0x8000 + (x & 0x7fff))], "bytes");
    }
  }
  CHECK(empty == sink.w.empty(), "emptiness");
  if (tool == 1) CHECK(!starts.count(0x9100), "listed-what-the-sources-contain");
  for (int i = 0; i < more; i++) CHECK(!starts.count(0x9300 + 16 * i), "listed-what-the-sources-contain");
  bool failed = gText.find("; ERROR") != std::string::npos;
  CHECK(gText.find("; ERROR branching to $00ffff") == std::string::npos, "last-byte");
  if (!failed) {
    // The starts, and every routine within the ROM that a call or jump leads to.
    if (tool == 0) {
      CHECK(starts.count(0x8000), "start");
      if (argc == 6) CHECK(starts.count(sx_param("two") == 2 ? 0x9000 : sx_param("two") == 3 ? 0xffff : sx_param("two") == 4 ? 0x18001 + at : 0x18000), "second-start");
    }
    if (tool == 1 && gFiles["a.asm"].find("8000") != std::string::npos) CHECK(starts.count(0x8000), "jumped-to");
    static const int kLed[] = {0x9010, 0x18000, 0x9000};
    for (int i = 0; i < more; i++) CHECK(starts.count(kLed[i]), "jumped-to");
    for (auto& w : sink.w) {
      int to = -1;
      if (w.b[0] == 0x20 || w.b[0] == 0x4c) to = (w.at & 0xff0000) | w.b[1] | w.b[2] << 8;
      if (w.b[0] == 0x22 || w.b[0] == 0x5c) to = w.b[1] | w.b[2] << 8 | w.b[3] << 16;
      if (to >= 0) CHECK(starts.count(to) || (tool == 1 && to == 0x9100), "routine-missing");
    }
    sx_reach("complete");
  } else {
    sx_reach("partly");
  }
  // The comments: where each instruction lies.
  size_t pos = 0, k = 0;
  while (pos < gText.size()) {
    size_t end = gText.find('\n', pos);
    std::string line = gText.substr(pos, end - pos);
    pos = end + 1;
    size_t semi = line.find("; $");
    if (semi == std::string::npos || semi < 10) continue;
    int v = 0;
    for (size_t i = semi + 3; i < semi + 9; i++) v = v * 16 + (line[i] <= '9' ? line[i] - '0' : line[i] - 'a' + 10);
    CHECK(k < sink.w.size() && sink.w[k].at == v, "comment-address");
    k++;
  }
  CHECK(k == sink.w.size(), "comments");
}
