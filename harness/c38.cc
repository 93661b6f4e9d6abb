// C38: the assembly tool's main(), on small programs, any I/O failure and ROM.
#include <map>
#include "nsasm/assembler.h"
#include "nsasm/rom.h"
#include "filemock.h"
#include "spec_machine.h"
#include "spec_rom.h"
#include "sx.h"
using namespace nsasm;
using namespace spec;
extern "C" int tool_main(int argc, char** argv) FM_NAME("main");
static std::string gText;
extern "C" void sx_stdout(const char* p, size_t n) { gText.append(p, n); }
static std::map<std::string, std::string> gFiles;
namespace nsasm {
ErrorOr<File> HarnessFile(const std::string& path) {
  auto it = gFiles.find(path);
  if (it == gFiles.end()) return Error("Unable to open file %s", path);
  return MakeFakeFile(path, it->second);
}
}  // namespace nsasm
namespace {
struct Sink : OutputSink {
  std::vector<W> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    W x = {(int)(a.Bank() << 16 | a.BankAddress()), (int)d.size(), {}};
    CHECK(d.size() <= 5, "write-size");
    for (size_t i = 0; i < d.size() && i < 5; i++) x.b[i] = d[i];
    w.push_back(x);
    return {};
  }
};
const char* kLines[] = {".db $12", ".dw $3456, $0060", "lda #$60", "nop", "rts", "jsr $9000", ".org $00fffe", ".org $018001", ".org $7e0000", "lda (", ".org $c08003",
                        ".remote $8123 m8x16", "jsl far", ".org $028000"};
}  // namespace
extern "C" void harness() {
  Sink none;
  CHECK(Assemble({MakeFakeFile("warm", ".org $8000\n.entry m8x8\np: lda.b #1\nbne p\njsr p yields m8x8\njmp p\n")}, &none).ok(), "warm");
  int what = (int)sx_param("what"), n = (int)sx_param("n");
  fm::may_fail = sx_param("faults");
  fm::one_fault = true;
  int lo = (int)sx_param("lorom"), header = (int)sx_param("header");
  fm::in.assign(0x10000 + header, 0x60);
  fm::in_size = fm::in.size();
  const uint8_t sums[] = {0xff, 0xff, 0, 0};
  for (int i = 0; i < 4; i++) fm::in[header + (lo ? 0x7fdc : 0xffdc) + i] = sums[i];
  // What may be in the ROM already.
  auto at = [&](int a) { return Translate(a, lo ? 0 : 1); };
  auto put = [&](int a, int v) { auto t = at(a); if (t.ok && t.off < 0x10000) fm::in[header + t.off] = (uint8_t)v; };
  if (sx_param("rom")) {
    static const uint8_t have[] = {0x12, 0xa9, 0x60, 0x56, 0x34, 0x60, 0x00, 0x60};
    int from = (int)sx_concretize((uint64_t)sx_range(0, 3, "have"));
    for (int i = 0; i < 3; i++) put(0x8000 + i, have[from + i]);
    put(0x8000, (int)sx_u8("changed"));
  }
  for (int i : {0, 0x100, 0x1ff})
    if (header) fm::in[i] = sx_u8("header");
  fm::in[header + 0x1234] = sx_u8("elsewhere");
  fm::in.back() = sx_u8("last");
  std::string text = sx_param("flow") ? ".org $008000\n.entry m8x8\n" : ".org $008000\n";
  static const char* names[] = {"l0", "l1", "l2", "l3", "l4"};
  for (int i = 0; i < n; i++) {
    int k = (int)sx_concretize((uint64_t)sx_range(0, (int)std::size(kLines) - 1, names[i]));
    text += kLines[k];
    text += "\n";
  }
  if (sx_param("flow")) text += "rts\n";
  gFiles["a.asm"] = text;
  gFiles["b.asm"] = ".module other\n.org $018100\n.entry m8x8\nexport far nop\nrtl\n";
  bool both = sx_param("both");
  std::string a[5] = {"quick_assemble", "rom.sfc", what == 0 ? "out.sfc" : what == 1 ? "-" : what == 2 ? "out.asm" : ".asm", "a.asm", "b.asm"};
  int argc = both ? 5 : 4;
  if (what == 4) {
    a[2] = "out.sfc";
    argc = (int)sx_concretize((uint64_t)sx_range(1, 4, "argc"));
    if (argc == 4) a[3] = "missing";
  }
  if (what == 5) {  // any name
    size_t len = (size_t)sx_param("len");
    a[2] = sx_string(len, "name");
    for (char c : a[2]) sx_assume(c != 0);
    bool dash = len == 1 && a[2][0] == '-';
    bool source = len >= 4 && ((a[2][len - 4] == '.') & (a[2][len - 3] == 'a') & (a[2][len - 2] == 's') & (a[2][len - 1] == 'm'));
    what = dash ? 1 : source ? 2 : 0;
    sx_reach(dash ? "dash" : source ? "source" : "name");
  }
  std::string name = a[2];
  char* argv[6];
  for (int i = 0; i < 5; i++) argv[i] = &a[i][0];
  argv[argc] = nullptr;
  int code = tool_main(argc, argv);
  std::string said = gText;
  CHECK(fm::opened == fm::closed, "file-left-open");
  sx_observe("code", (uint32_t)code);
  CHECK(argc < 4 || said.empty() || said.back() == '\n', "unfinished-line");
  bool wrote = false;
  for (int i = 0; i < fm::nfiles; i++) {
    wrote |= fm::files[i].write;
    CHECK(fm::files[i].path == (fm::files[i].write ? name : "rom.sfc"), "path");
  }
  if (what >= 2) {
    CHECK(!wrote, "written");
    CHECK(!said.empty(), "silent");
    if (argc >= 4) CHECK(code != 0, "misuse-reported-as-success");
    sx_reach("misuse");
    return;
  }
  // The program's bytes, as the assembler emits them into any memory (C30).
  bool faulty = fm::failed;
  fm::may_fail = false;
  Sink sink;
  std::vector<File> files = {MakeFakeFile("a.asm", text)};
  if (both) files.push_back(MakeFakeFile("b.asm", gFiles["b.asm"]));
  auto good = Assemble(files, &sink);
  bool fits = true, same = true;
  std::map<uint32_t, uint8_t> want;
  for (auto& w : sink.w)
    for (int i = 0; i < w.size; i++) {
      auto t = at((int)((w.at & 0xff0000) | ((w.at + i) & 0xffff)));
      if (!(t.ok && t.off < 0x10000)) { fits = false; continue; }
      want[t.off] = w.b[i];
      same &= fm::in[header + t.off] == w.b[i];
    }
  if (what == 1) {
    CHECK(!wrote, "written");
    bool ok = !faulty & good.ok() & fits & same;
    CHECK((code == 0) == ok, "identity");
    bool report = said.find("jump targets found") != std::string::npos;
    CHECK(report == ok, "identity-report");
    if (ok) {
      auto targets = good->JumpTargets();
      size_t lines = 0;
      for (char c : said) lines += c == '\n';
      CHECK(lines == targets.size() + 1, "targets-listed");
      for (auto& t : targets) CHECK(said.find("  " + t.first.ToString() + " " + t.second.ToString() + "\n") != std::string::npos, "target");
      sx_reach("identical");
    } else {
      sx_reach("different");
    }
    return;
  }
  bool ok = !faulty && good.ok() && fits;
  CHECK((code == 0) == ok, ok ? "success-reported-as-error" : "error-reported-as-success");
  if (!ok) {
    CHECK(said.compare(0, 5, "Error") == 0, "error-not-shown");
    if (!good.ok() || !fits) CHECK(!wrote, "file-from-a-refused-program");
    sx_reach(faulty ? "fault" : !fits ? "outside" : "refused");
    return;
  }
  CHECK(fm::out.size() == fm::in.size(), "file-size");
  for (auto& v : want) fm::in[header + v.first] = v.second;
  CHECK(memcmp(&fm::out[0], &fm::in[0], fm::in.size()) == 0, "bytes");
  sx_reach(want.empty() ? "nothing" : "assembled");
}
