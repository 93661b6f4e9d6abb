// C16: the dump tool's main(), run on an arbitrary small ROM file and arguments;
// what it prints is read back and compared with the ROM.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include "nsasm/rom.h"
#include "filemock.h"
#include "spec_rom.h"
#include "sx.h"
int quick_dump_main(int argc, char** argv);
static std::string gText;
extern "C" void sx_stdout(const char* p, size_t n) { gText.append(p, n); }
static int Run(int argc, char** argv) {
#ifdef SX_NATIVE
  int fd = memfd_create("out", 0);
  dup2(fd, 1);
  int r = quick_dump_main(argc, argv);
  fflush(stdout);
  char b[4096];
  ssize_t k;
  lseek(fd, 0, SEEK_SET);
  while ((k = read(fd, b, sizeof b)) > 0) gText.append(b, k);
  return r;
#else
  return quick_dump_main(argc, argv);
#endif
}
// reading the output
static size_t gPos;
static bool Sep(char c) { return (c == ' ') | (c == ',') | (c == '\t'); }
static bool Eol() {  // at the end of a line
  while (gPos < gText.size() && Sep(gText[gPos])) gPos++;
  return gPos >= gText.size() || gText[gPos] == '\n';
}
static std::string Word() {
  std::string w;
  while (gPos < gText.size() && !(Sep(gText[gPos]) | (gText[gPos] == '\n'))) w += gText[gPos++];
  return w;
}
static bool Hex(const std::string& w, uint32_t* v) {  // "$" and hex digits
  if (w.size() < 2 || w[0] != '$') return false;
  bool ok = true;
  uint32_t r = 0;
  for (size_t i = 1; i < w.size(); i++) {
    unsigned c = (unsigned char)w[i], l = c | 32;
    bool d = (c >= '0') & (c <= '9'), a = (l >= 'a') & (l <= 'f');
    ok &= d | a;
    r = r << 4 | (uint32_t)sx_ite(d, c - '0', l - 'a' + 10);
  }
  *v = r;
  return ok;
}
static std::string HexArg(unsigned digits, uint32_t* v) {
  std::string s = sx_string(digits, "start");
  *v = 0;
  for (char& ch : s) {
    unsigned d = (unsigned char)ch & 15;  // any digit
    ch = (char)sx_ite(d < 10, '0' + d, 'a' + d - 10);
    *v = *v << 4 | d;
  }
  return s;
}
extern "C" void harness() {
  unsigned mode = sx_param("mode"), argc = sx_param("argc");
  fm::may_fail = sx_param("faults");
  uint32_t size = 0x10000 + (sx_u32("pages") & 1) * 0x8000;
  fm::in = sx_vector(0x18000, size, "rom");
  fm::in_size = size;
  bool lo = sx_param("lorom");
  if (!sx_param("anyfile")) {
    for (uint32_t at : {0x7fdcu, 0xffdcu}) {
      uint32_t x = fm::in[at] ^ fm::in[at + 2], y = fm::in[at + 1] ^ fm::in[at + 3];
      if ((at == 0x7fdc) == lo) sx_assume((x == 0xff) & (y == 0xff));
      else sx_assume((x != 0xff) & (y != 0xff));
    }
  }
  uint32_t start = 0;
  std::string a[6] = {"quick_dump", "rom.sfc", "", "", "", ""};
  if (mode == 0) a[2] = HexArg(6, &start);
  else if (mode == 1) a[2] = HexArg(sx_param("digits"), &start);
  else a[2] = sx_string(sx_param("digits"), "arg");
  int count = 0, stride = 1, per = 8;
  if (mode == 2) {
    for (int i = 3; i < 6; i++) a[i] = sx_string((size_t)sx_concretize(sx_range(0, 1, "arglen")), "arg");
    if (a[3].size()) sx_assume((a[3][0] < '4') | (a[3][0] > '9'));  // at most three entries
  } else {
    count = (int)sx_concretize(sx_range(1, (int)sx_param("count"), "count"));
    stride = (int)sx_concretize(sx_range(1, 3, "stride"));
    per = (int)sx_concretize(sx_range(1, (int)sx_param("count"), "per"));
    a[3] = std::string(1, (char)('0' + count));
    a[4] = std::string(1, (char)('0' + stride));
    a[5] = std::string(1, (char)('0' + per));
    if (argc < 5) stride = 1;
    if (argc < 6) per = 8;
  }
  char* argv[7];
  for (unsigned i = 0; i < 6; i++) argv[i] = &a[i][0];
  argv[argc] = nullptr;
  int code = Run((int)argc, argv);
  CHECK(fm::opened == fm::closed, "file-left-open");
  sx_observe("code", (uint32_t)code);
  CHECK(!gText.empty() && gText.back() == '\n', "nothing-printed");
  if (mode != 0 || sx_param("anyfile") || argc < 4) {  // any of usage, error or a dump; only form matters
    sx_reach("other-arguments");
    if (mode == 1 && start >= 0x1000000u) {
      gPos = 0;
      CHECK(Eol() || Word() != ".org", "dump-outside-address-space");
      sx_reach("start-too-large");
    }
    return;
  }
  // the values that the dump must list
  bool readable = !fm::failed;
  std::vector<uint32_t> want;
  for (int i = 0; i < count; i++) {
    uint32_t v = 0;
    for (int k = 0; k < stride; k++) {
      spec::Off t = spec::Translate(spec::Adv(start, (unsigned)(i * stride + k)), lo ? 0 : 1);
      bool in = t.ok & (t.off < size);
      readable &= in;
      v |= (uint32_t)fm::in[sx_ite(in, t.off, 0)] << (8 * k);
    }
    want.push_back(v);
  }
  gPos = 0;
  Eol();
  std::string w = Word();
  if (w != ".org") {
    CHECK(!readable, "readable-data-not-dumped");
    CHECK(code != 0 || argc < 4, "error-reported-as-success");
    sx_reach("error");
    return;
  }
  CHECK(readable, "unreadable-data-dumped");
  CHECK(code == 0, "success-reported-as-error");
  uint32_t v = 0;
  CHECK(!Eol(), "origin-missing");
  CHECK(Hex(Word(), &v) && v == start, "wrong-origin");
  CHECK(Eol(), "text-after-origin");
  gPos++;
  const char* dir = stride == 1 ? ".db" : stride == 2 ? ".dw" : ".dl";
  size_t n = 0;
  while (gPos < gText.size()) {
    if (Eol()) { gPos++; continue; }
    CHECK(Word() == dir, "wrong-directive");
    int here = 0;
    while (!Eol()) {
      CHECK(n < want.size(), "too-many-values");
      CHECK(Hex(Word(), &v) && v == want[n], "wrong-value");
      n++;
      here++;
    }
    CHECK(here > 0, "empty-line");
    CHECK(here <= per, "too-many-per-line");
    gPos++;
  }
  CHECK(n == want.size(), "values-missing");
  sx_reach("dumped");
  if (stride == 3) sx_reach("long");
}
