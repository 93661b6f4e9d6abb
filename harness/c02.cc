// C02: Rom::Read. case 0: short reads (any wrap); case 1: long reads inside a
// bank; case 2: reads longer than a bank.
#include "nsasm/rom.h"
#include "sx.h"
#include "spec_rom.h"
extern "C" void harness() {
  unsigned kind = sx_param("case"), maxlen = sx_param("maxlen");
  uint32_t a = sx_u32("addr");
  sx_assume(a < 0x1000000u);
  int m = sx_range(sx_param("mlo"), sx_param("mhi"), "mapping");
  uint32_t size = sx_u32("romsize");
  sx_assume(size <= 0x800000u);
  if (kind == 2) size = sx_param("size");
  int n = sx_int("len");
  if (kind == 0) {
    sx_assume(n <= (int)maxlen);
  } else if (kind == 1) {
    sx_assume((n > 0) & (n <= 0x10000) & ((a & 0xffff) + (uint32_t)n <= 0x10000u));
  } else {
    a = sx_param("a");
    n = sx_param("n");
  }
  auto data = sx_vector(0x800000, size, "rom");
  const uint8_t* base = data.data();
  nsasm::Rom rom((nsasm::Mapping)m, "p", {}, std::move(data));
  auto r = rom.Read(nsasm::Address(a), n);
  // The read must fail iff some address is bad.
  bool bad = n < 0;
  if (kind == 0) {
    for (unsigned i = 0; i < maxlen; i++) {
      auto o = spec::Translate(spec::Adv(a, i), m);
      bad |= ((int)i < n) & (!o.ok | (o.off >= size));
    }
  } else if (kind == 1) {
    // inside one bank the first address decides translation, the last the end
    auto f = spec::Translate(a, m), l = spec::Translate(spec::Adv(a, n - 1), m);
    bad = !f.ok | !l.ok | (l.off >= size);
  } else {
    auto f = spec::Translate(a & 0xff0000, m), l = spec::Translate(a | 0xffff, m);
    bad = !f.ok | !l.ok | (l.off >= size);  // the whole bank is covered
  }
  if (!r.ok()) {
    CHECK(bad, "read-fails-on-mapped-bytes");
    sx_reach("error");
    return;
  }
  CHECK(!bad, "read-succeeds-on-unmapped-bytes");
  CHECK((*r).size() == (size_t)n, "wrong-number-of-bytes");
  if (n == 0) { sx_reach("empty"); return; }
  uint32_t i = sx_u32("probe");
  sx_assume(i < (uint32_t)n);
  auto o = spec::Translate(spec::Adv(a, i), m);
  if (kind == 2) { i = sx_param("probe"); o = spec::Translate(spec::Adv(a, i), m); }
  uint8_t got = (*r)[i];
  CHECK(got == base[o.off], "wrong-byte");
  sx_observe("byte", got);
  sx_reach("ok");
  if (kind == 0 && (a & 0xffff) + n > 0x10000) sx_reach("wrap");
}
