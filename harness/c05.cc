// C05: RomIdentityTest accepts exactly what the ROM contains.
#include "nsasm/rom.h"
#include "sx.h"
#include "spec_rom.h"
extern "C" void harness() {
  int m = sx_range(sx_param("mlo"), sx_param("mhi"), "mapping");
  unsigned n = sx_param("n");
  uint32_t a = sx_u32("addr");
  sx_assume(a < 0x1000000u);
  uint32_t size = sx_u32("romsize");
  sx_assume(size <= 0x800000u);
  auto data = sx_vector(0x800000, size, "rom");
  std::vector<uint8_t> w(n);
  if (n) sx_sym_bytes(w.data(), n, "w");
  bool good = true;
  for (unsigned i = 0; i < n; i++) {
    auto o = spec::Translate(spec::Adv(a, i), m);
    bool in = o.ok & (o.off < size);
    good &= in;
    if (in) good &= data[o.off] == w[i];
  }
  nsasm::RomIdentityTest t(std::make_unique<nsasm::Rom>((nsasm::Mapping)m, "p", std::vector<uint8_t>(), std::move(data)));
  nsasm::OutputSink& sink = t;
  auto r = sink.Write(nsasm::Address(a), w);
  if (r.ok()) {
    CHECK(good, "accepts-different-bytes");
    sx_reach("accept");
  } else {
    CHECK(!good, "rejects-identical-bytes");
    sx_reach("reject");
  }
  if (n > 1 && (a & 0xffff) + n > 0x10000) sx_reach("wrap");
}
