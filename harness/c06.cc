// C06: LoadRomFile over an arbitrary file and arbitrary I/O faults.
#include "nsasm/rom.h"
#include "filemock.h"
#include "sx.h"
extern "C" void harness() {
  const uint64_t kMax = sx_param("max");
  fm::may_fail = sx_param("faults");
  uint32_t size = sx_u32("filesize");
  sx_assume(size <= kMax);
  fm::in_size = size;
  fm::in = sx_vector(kMax, size, "file");
  fm::exists = true;
  auto r = nsasm::LoadRomFile("rom.sfc");
  CHECK(fm::opened == fm::closed, "file-left-open");
  uint32_t rem = size & 0xfff, h = rem == 0x200 ? 0x200 : 0, payload = size - h;
  bool sized = (rem == 0) | (rem == 0x200);
  bool want = sized & (size >= 0x10000u + h) & !fm::failed;
  if (want) {
    const uint8_t* d = fm::in.data() + h;
    auto pair = [&](uint32_t at) { return ((d[at] ^ d[at + 2]) == 0xff) & ((d[at + 1] ^ d[at + 3]) == 0xff); };
    bool lo = pair(0x7fdc), hi = pair(0xffdc);
    want = lo != hi;
    if (r.ok()) {
      CHECK(want, "loads-undetectable-rom");
      CHECK((*r)->Path() == "rom.sfc", "wrong-path");
      // the mapping, observed through reads: compare one arbitrary address
      uint32_t a = sx_u32("addr");
      sx_assume(a < 0x1000000u);
      uint32_t bank = a >> 16, low = a & 0xffff;
      bool half = low >= 0x8000;
      bool wram = (bank == 0x7e) | (bank == 0x7f);
      bool sys = ((bank & 0x7f) < 0x40) & !half;
      bool mapped = !wram & !sys & !(lo & !half);
      uint64_t off = sx_ite(lo, (uint64_t)(bank & 0x7f) * 0x8000 + (low & 0x7fff),
                            (a & 0x3fffff) | sx_ite((payload > 0x400000) & !(a >> 23), 0x400000, 0));
      mapped &= off < payload;
      auto b = (*r)->ReadByte(nsasm::Address(a));
      if (b.ok()) {
        CHECK(mapped, "mapping-reads-unmapped");
        CHECK((uint8_t)*b == d[off], "loaded-byte-differs");
        sx_observe("byte", *b);
        if (lo) sx_reach("lorom");
        else if (payload > 0x400000) sx_reach("exhirom");
        else if (payload == 0x400000) sx_reach("hirom-4M");
        else sx_reach("hirom");
        if (h) sx_reach("headered");
      } else {
        CHECK(!mapped, "mapping-rejects-mapped");
      }
      return;
    }
    sx_reach("undetected");
  }
  if (r.ok()) CHECK(want, "bad-rom-loaded");
  else CHECK(!want, "good-rom-rejected");
  if (fm::failed) sx_reach("io-fault");
  if (!sized) sx_reach("bad-size");
}
