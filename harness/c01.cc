// C01: SNES address -> cartridge offset, all 2^24 addresses, all mappings.
#include "nsasm/rom.h"
#include "sx.h"
#include "spec_rom.h"
extern "C" void harness() {
  uint32_t a = sx_u32("addr");
  sx_assume(a < 0x1000000u);
  int m = sx_range(0, 2, "mapping");
  auto r = nsasm::SnesToROMAddress(nsasm::Address(a), (nsasm::Mapping)m);
  spec::Off want = spec::Translate(a, m);
  if (r.ok()) {
    CHECK(want.ok, "translates-unmapped-address");
    CHECK(*r == want.off, "wrong-offset");
    sx_observe("off", *r);
    if (m == 0) sx_reach("lorom");
    if (m == 1) sx_reach("hirom");
    if (m == 2) sx_reach("exhirom");
  } else {
    CHECK(!want.ok, "rejects-mapped-address");
    sx_reach("error");
  }
}
