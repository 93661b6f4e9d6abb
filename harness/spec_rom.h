// Reference: what the cartridge hardware decodes. Branch-free so that one
// solver query covers every address.
#pragma once
#include <cstdint>
#include "sx.h"
namespace spec {
struct Off { bool ok; uint64_t off; };
inline Off Translate(uint32_t a, int m) {
  uint32_t bank = (a >> 16) & 0xff, lo = a & 0xffff;
  bool half = lo >= 0x8000;
  bool wram = (bank == 0x7e) | (bank == 0x7f);
  bool sys = ((bank & 0x7f) < 0x40) & !half;  // banks $00-$3f, $80-$bf
  bool bad = wram | sys | ((m == 0) & !half);
  uint64_t lorom = (uint64_t)(bank & 0x7f) * 0x8000 + (lo & 0x7fff);
  uint64_t hirom = a & 0x3fffff;
  uint64_t exhirom = hirom | ((uint64_t)(~(a >> 23) & 1) << 22);
  uint64_t r = sx_ite(m == 0, lorom, sx_ite(m == 1, hirom, exhirom));
  return {!bad, r};
}
// In-bank advance.
inline uint32_t Adv(uint32_t a, uint32_t n) { return (a & 0xff0000u) | ((a + n) & 0xffffu); }
}  // namespace spec
