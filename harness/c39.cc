// C39: the place an assembly error names is where the program is wrong.
#include "nsasm/assembler.h"
#include "sx.h"
using namespace nsasm;
namespace {
const char* kA[] = {"; a comment", ".module ma", ".org $008000", "", ".entry m8x8", "start: lda #1", "jsr mb::far", ".begin", "in: sta $1234,x", "bne in", ".end", "jmp start", ".dw $1234, 5", "k .equ mb::j+1", ".db k, 2"};
const char* kB[] = {".module mb", "", ".org $009000", ".entry m8x8", "far: ldx #k", "nop", "bne on", "txa", "on rtl", "; end", "k .equ 5", ".org $01ffff", "j: .db 1"};
// A line that is wrong wherever it stands. `twin`: lines that may be blamed instead.
struct Bad {
  const char* text;
  const char* twin = nullptr;
  bool maybe = false;  // right in some places
};
const Bad kLexical[] = {{"?"}, {"lda ("}, {".nosuch"}, {"nop nop"}, {"lda #$1000000"}, {".entry m9"}, {"x .equ"}, {"beq"}, {"lda.q #1"}, {"sta #1"}, {"1 nop"}};
const Bad kNames[] = {{"lda #nowhere"}, {"jsr mb::none"}, {"bne nowhere"}, {"x .equ x"}, {".db mb::none"}, {".dl k - nowhere"}, {"brl +++"}};
const Bad kValues[] = {{".org $100000?*16"}, {".remote 0-1? m8x8"}, {"lda #1/0"}, {".dw 2147483647+?1"}, {"z .equ -2147483647-?2"}, {"lda.w #1?"}, {".org nowhere"}, {"ldx.w #?"}, {"bra"}};
const Bad kPairs[] = {{"start: .equ 1?", "start: lda #1", true}, {"far nop", "far: ldx #k", true}, {".module c", ".module m", false}, {".end", ".end"}, {".begin", ".begin", true}, {"in nop", "in: sta $1234,x", true}, {"k .equ ?", "k .equ ", true}};
struct Sink : OutputSink {
  int left = -1;
  int at = -1;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t>) override {
    if (left-- != 0) return {};
    at = a.Bank() << 16 | a.BankAddress();
    return Error("full");
  }
};
bool Starts(const std::string& line, const char* start) {
  return line.compare(0, strlen(start), start) == 0;
}
}  // namespace
extern "C" void harness() {
  int what = (int)sx_param("what");
  std::vector<std::string> lines[2];
  for (auto l : kA) lines[0].push_back(l);
  for (auto l : kB) lines[1].push_back(l);
  Sink sink;
  int file = (int)sx_param("file");
  bool first_b = sx_concretize((uint64_t)sx_range(0, 1, "order"));
  std::vector<std::pair<int, int>> blamed;  // any of these
  bool must = true;
  if (what < 4) {
    const Bad* menu = what == 0 ? kLexical : what == 1 ? kNames : what == 2 ? kValues : kPairs;
    int n = (int)(what == 0 ? std::size(kLexical) : what == 1 ? std::size(kNames) : what == 2 ? std::size(kValues) : std::size(kPairs));
    const Bad& bad = menu[sx_concretize((uint64_t)sx_range(0, n - 1, "bad"))];
    int at = (int)sx_concretize((uint64_t)sx_range(0, (int)lines[file].size(), "at"));
    std::string text = bad.text;
    if (text != "?")
      for (char& c : text) if (c == '?') c = (char)('0' + sx_range(0, 9, "digit"));
    lines[file].insert(lines[file].begin() + at, text);
    blamed.push_back({file, at + 1});
    if (bad.twin) {
      must = !bad.maybe;
      for (size_t i = 0; i < lines[file].size(); i++)
        if (Starts(lines[file][i], bad.twin)) blamed.push_back({file, (int)i + 1});
    }
  } else if (what == 4) {
    // A write that fails.
    static const int kWrites[][3] = {{0, 6, 0x8000}, {0, 7, 0x8002}, {0, 9, 0x8005}, {0, 10, 0x8008}, {0, 12, 0x800a}, {0, 13, 0x800d}, {0, 15, 0x8011},
                                     {1, 5, 0x9000}, {1, 6, 0x9002}, {1, 7, 0x9003}, {1, 8, 0x9005}, {1, 9, 0x9006}, {1, 13, 0x1ffff}};
    sink.left = (int)sx_concretize((uint64_t)sx_range(0, (int)std::size(kWrites) - 1, "write"));
    for (auto& w : kWrites) blamed.push_back({w[0] | w[2] << 8, w[1]});
  } else if (what == 6) {
    // A line is missing: which one, and where that is noticed.
    static const struct { int f; const char* gone; int where; const char* noticed; } kGone[] = {
        {0, "jmp start", 0, ".dw"}, {0, ".org", 0, "start"}, {0, ".entry", 0, "start"}, {0, "in:", 0, "bne in"}, {0, ".end", 0, ".begin"}, {0, ".begin", 0, ".end"},
        {0, "start", 0, "jmp start"}, {0, "k .equ", 0, ".db k"}, {1, "on rtl", 1, "bne on"}, {1, "far", 0, "jsr"}, {1, "k .equ", 1, "far"}, {1, ".entry", 1, "far"}, {1, ".org $009000", 1, "far"}};
    auto& g = kGone[sx_concretize((uint64_t)sx_range(0, (int)std::size(kGone) - 1, "gone"))];
    auto& from = lines[g.f];
    for (size_t i = 0; i < from.size(); i++)
      if (Starts(from[i], g.gone)) { from.erase(from.begin() + i); break; }
    int blank = (int)sx_concretize((uint64_t)sx_range(0, 2, "blank"));
    lines[g.where].insert(lines[g.where].begin() + 1, (size_t)blank, "");
    for (size_t i = 0; i < lines[g.where].size(); i++)
      if (Starts(lines[g.where][i], g.noticed)) blamed.push_back({g.where, (int)i + 1});
  } else if (what == 7) {
    // A byte put where another line of the file has put one.
    static const int kStarts[][3] = {{0, 6, 0x8000}, {0, 7, 0x8002}, {0, 9, 0x8005}, {0, 10, 0x8008}, {0, 12, 0x800a}, {0, 13, 0x800d}, {0, 15, 0x8011}, {0, 0, 0x8013},
                                     {1, 5, 0x9000}, {1, 6, 0x9002}, {1, 7, 0x9003}, {1, 8, 0x9005}, {1, 9, 0x9006}, {1, 0, 0x9007}};
    int first = file ? 0x9000 : 0x8000, size = file ? 7 : 0x13, owner = 0;
    int byte = first + (int)sx_concretize((uint64_t)sx_range(0, size - 1, "byte"));
    for (auto& k : kStarts)
      if (k[0] == file && k[1] && k[2] <= byte) owner = k[1];
    bool end = sx_concretize((uint64_t)sx_range(0, 1, "end")), alone = sx_concretize((uint64_t)sx_range(0, 1, "alone"));
    char org[] = ".org $000000";
    for (int i = 0; i < 6; i++) org[6 + i] = "0123456789abcdef"[byte >> 4 * (5 - i) & 15];
    std::vector<std::string> more = {org, ".db 1"};
    if (!alone) more = {".org $7f8000", ".db 9", "", org, "", ".db 1"};
    lines[file].insert(end ? lines[file].end() : lines[file].begin() + 1, more.begin(), more.end());
    int there = end ? (int)lines[file].size() : 1 + (int)more.size();
    blamed = {{file, there}, {file, end ? owner : owner + (int)more.size()}};
  } else {
    // Two modules of one name define one name.
    lines[1][0] = ".module ma";
    lines[1][10] = "start: .equ 7";
    lines[1][4] = "far: ldx #7";
    lines[0][13] = "k .equ 6";
    int blank = (int)sx_concretize((uint64_t)sx_range(0, 3, "blank"));
    lines[0].insert(lines[0].begin(), (size_t)blank, "");
    lines[0][6 + blank] = "nop";
    blamed = {{0, 6 + blank}, {1, 11}};
  }
  if (sx_param("pad")) {
    for (int f = 0; f < 2; f++) {
      int n = (int)sx_concretize((uint64_t)sx_range(0, 2, f ? "pad_b" : "pad_a"));
      lines[f].insert(lines[f].begin(), (size_t)n, " ; more");
      for (auto& b : blamed) if ((b.first & 255) == f) b.second += n;
    }
  }
  std::string text[2];
  for (int f = 0; f < 2; f++)
    for (auto& l : lines[f]) text[f] += l + "\n";
  std::vector<File> files = {MakeFakeFile("dir/a.asm", text[0]), MakeFakeFile("b.asm", text[1])};
  if (first_b) std::swap(files[0], files[1]);
  auto got = Assemble(files, &sink);
  CHECK(!got.ok() || !must, "accepted");
  if (got.ok()) {
    sx_reach("accepted");
    return;
  }
  std::string said = got.error().ToString();
#ifdef SX_NATIVE
  if (getenv("SX_SHOW")) fprintf(stderr, "%s%s%s\n", text[0].c_str(), text[1].c_str(), said.c_str());
#endif
  auto names = [&](int f, int line) {
    std::string place = std::string(f ? "b.asm" : "dir/a.asm") + ":" + std::to_string(line) + ": ";
    return said.compare(0, place.size(), place) == 0;
  };
  bool right = false;
  for (auto& b : blamed)
    if (what != 4 || (b.first >> 8) == sink.at) right |= names(b.first & 255, b.second);
  CHECK(right, "line");
  if (what == 5) {
    // Both places are shown.
    for (auto& b : blamed) CHECK(said.find(std::string(b.first ? "b.asm" : "dir/a.asm") + ":" + std::to_string(b.second)) != std::string::npos, "both-places");
  }
  sx_reach(what == 4 ? "write" : what == 5 ? "two-modules" : what == 6 ? "missing" : what == 7 ? "overlap" : "named");
}
