// C41: source files are read line by line, completely.
#include "streammock.h"
#include "nsasm/file.h"
#include "sx.h"
#ifdef SX_NATIVE
#include <stdlib.h>
#include <unistd.h>
#endif
using namespace nsasm;
static std::string gPath, gText;
static int gOpens, gCanOpen;
static size_t gFailAt;
int sx_stream_open(const char* path) {
  gOpens++;
  if (gPath != path) sx_fail("another-file");
  return gCanOpen ? 0 : 1;
}
int sx_stream_get(int where, size_t pos) {
  if (where != 1) sx_fail("another-stream");
  if (pos >= gFailAt) return -2;
  return pos < gText.size() ? (unsigned char)gText[pos] : -1;
}
extern "C" void harness() {
  // Whole lines first, then any bytes.
  int before = (int)sx_param("before"), n = (int)sx_param("n");
  gPath = "dir/some file.asm";
  for (int i = 0; i < before; i++) gText += i % 3 == 0 ? "\tlda #$12 ; x\n" : i % 3 == 1 ? "\n" : "a b\r\n";
  gText += sx_string((size_t)n, "text");
  int fault = (int)sx_param("fault");  // 1: cannot be opened, 2: a read fails
  gCanOpen = fault != 1;
  gFailAt = fault == 2 ? (size_t)sx_concretize((uint64_t)sx_range(0, (int)gText.size(), "at")) : (size_t)-1;
#ifdef SX_NATIVE
  char dir[] = "/tmp/c41.XXXXXX";
  if (!mkdtemp(dir)) sx_fail("no-scratch");
  std::string file = std::string(dir) + "/f";
  if (fault == 0) {
    std::ofstream o(file, std::ios::binary);
    o.write(gText.data(), (long)gText.size());
  }
  gPath = fault == 2 ? std::string(dir) : file;
#endif
  auto f = OpenFile(gPath);
#ifdef SX_NATIVE
  unlink(file.c_str());
  rmdir(dir);
#endif
  sx_observe("ok", f.ok());
  CHECK(f.ok() == (fault == 0), fault ? "failure-hidden" : "refused");
  if (!f.ok()) {
    CHECK(f.error().ToString().find(gPath) != std::string::npos, "unnamed");
    sx_reach("failed");
    return;
  }
  if (fault) return;
  std::vector<std::string> want;
  bool open = false;
  for (char c : gText) {
    if (!open) want.emplace_back();
    open = c != '\n';
    if (open) want.back().push_back(c);
  }
  CHECK(f->path() == gPath, "path");
  size_t i = 0;
  for (auto& line : *f) {
    CHECK(i < want.size(), "line-invented");
    if (i >= want.size()) return;
    CHECK(line == want[i], "line");
    CHECK((*f)[i] == want[i], "line");
    i++;
  }
  CHECK(i == want.size(), "line-dropped");
  sx_reach("read");
}
