// C42: the interactive parser's main().
#include "streammock.h"
#include "nsasm/parse.h"
#include "nsasm/token.h"
#include "sx.h"
#include <sstream>
using namespace nsasm;
extern "C" int tool_main(int argc, char** argv)
#ifndef SX_NATIVE
    __asm__("main")
#endif
        ;
static std::string gIn, gOut;
extern "C" void sx_stdout(const char* p, size_t n) { gOut.append(p, n); }
int sx_stream_open(const char*) { return 1; }
int sx_stream_get(int where, size_t pos) {
  if (where != 0) sx_fail("another-stream");
  return pos < gIn.size() ? (unsigned char)gIn[pos] : -1;
}
namespace {
const char* const kMenu[] = {"lda #$12", "one: two: sta $1234,x ; c", "", "rep #$30 yields m16x8", "lda (", ".db 1, 2", "@x jsr y noreturn", "foo", "+: adc.b #1 + 2", "$12345678", "name equ 3"};
void Expect(std::string* want, const std::string& line) {
  auto t = Tokenize(line, Location());
  if (!t.ok()) { *want += t.error().ToString() + "\n"; sx_reach("unread"); return; }
  auto p = Parse(*t);
  if (!p.ok()) { *want += p.error().ToString() + "\n"; sx_reach("refused"); return; }
  for (auto& i : *p) {
    if (auto* l = absl::get_if<ParsedLabel>(&i)) *want += l->ToString() + ":\n";
    if (auto* s = absl::get_if<Statement>(&i)) *want += "    " + s->ToString() + "\n";
  }
  sx_reach("shown");
}
}  // namespace
extern "C" void harness() {
  int n = (int)sx_param("n"), any = (int)sx_param("any");
  std::vector<std::string> lines;
  for (int i = 0; i < n; i++) lines.push_back(kMenu[sx_concretize((uint64_t)sx_range(0, sizeof kMenu / sizeof *kMenu - 1, "line"))]);
  if (any) {
    std::string s = sx_string((size_t)any, "text");
    for (char c : s) sx_assume(c != '\n');
    lines.insert(lines.begin() + (int)sx_concretize((uint64_t)sx_range(0, n, "place")), s);
  }
  for (size_t i = 0; i < lines.size(); i++) gIn += (i ? "\n" : "") + lines[i];
  bool ended = sx_concretize(sx_bool("newline"));
  if (ended && !lines.empty()) gIn += "\n";
  std::string want;
  for (auto& l : lines) Expect(&want, l);
  char name[] = "tool";
  char* argv[] = {name, nullptr};
#ifdef SX_NATIVE
  std::istringstream in(gIn);
  std::ostringstream out;
  auto* i = std::cin.rdbuf(in.rdbuf());
  auto* o = std::cout.rdbuf(out.rdbuf());
  int status = tool_main(1, argv);
  std::cin.rdbuf(i);
  std::cout.rdbuf(o);
  gOut = out.str();
#else
  int status = tool_main(1, argv);
#endif
  CHECK(status == 0, "status");
  // Without the prompts.
  std::string got;
  for (size_t p = 0; p < gOut.size();) {
    if (gOut.compare(p, 2, "> ") == 0 && (p == 0 || got.empty() || got.back() == '\n')) { p += 2; continue; }
    got.push_back(gOut[p++]);
  }
  CHECK(got == want, "output");
}
