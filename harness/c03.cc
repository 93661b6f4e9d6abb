// C03: ReadByte/ReadWord/ReadLong over an arbitrary input source.
#include "nsasm/memory.h"
#include "sx.h"
#include "spec_rom.h"
using nsasm::Address;
using nsasm::Error;
using nsasm::ErrorOr;
static uint32_t Raw(Address a) { return (uint32_t)a.Bank() << 16 | a.BankAddress(); }
// Any memory contents; any set of unreadable addresses.
struct Src : nsasm::InputSource {
  std::vector<uint8_t> mem, bad;
  std::string Path() const override { return "src"; }
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    std::vector<uint8_t> v;
    bool fail = n < 0;
    for (int i = 0; i < n; i++) {
      uint32_t x = spec::Adv(Raw(a), i);
      fail |= bad[x] & 1;
      v.push_back(mem[x]);
    }
    if (fail) return Error("source failed").SetLocation(std::string("src"));
    return v;
  }
};
extern "C" void harness() {
  int k = sx_range(1, 3, "width");
  uint32_t a = sx_u32("addr");
  sx_assume(a < 0x1000000u);
  Src s;
  s.mem = sx_vector(1 << 24, 1 << 24, "mem");
  s.bad = sx_vector(1 << 24, 1 << 24, "bad");
  ErrorOr<int> r = 0;
  if (k == 1) r = s.ReadByte(Address(a));
  if (k == 2) r = s.ReadWord(Address(a));
  if (k == 3) r = s.ReadLong(Address(a));
  uint32_t want = 0;
  bool fail = false;
  for (int i = 0; i < k; i++) {
    fail |= s.bad[spec::Adv(a, i)] & 1;
    want |= (uint32_t)s.mem[spec::Adv(a, i)] << (8 * i);
  }
  if (r.ok()) {
    CHECK(!fail, "read-error-ignored");
    CHECK((uint32_t)*r == want, "wrong-value");
    sx_observe("value", *r);
    if (k == 1) sx_reach("byte");
    if (k == 2) sx_reach("word");
    if (k == 3) sx_reach("long");
  } else {
    CHECK(fail, "fails-on-readable-bytes");
    CHECK(r.error().ToString() == "src: source failed", "source-error-lost");
    sx_reach("error");
  }
}
