// C04: RomOverwriter: writes, then the saved file, over an arbitrary ROM.
#include "nsasm/rom.h"
#include "filemock.h"
#include "sx.h"
#include "spec_rom.h"
extern "C" void harness() {
  int m = sx_range(sx_param("mlo"), sx_param("mhi"), "mapping");
  unsigned writes = sx_param("writes"), maxn = sx_param("n");
  bool headered = sx_param("header"), faults = sx_param("faults");
  uint32_t size = sx_u32("romsize");
  sx_assume((size <= 0x800000u) & (size >= 0x10000u));
  auto data = sx_vector(0x800000, size, "rom");
  std::vector<uint8_t> header;
  if (headered) header = sx_vector(0x200, 0x200, "header");
  // the byte of the saved image that is compared
  uint32_t p = sx_u32("probe");
  sx_assume(p < size);
  uint8_t want = data[p];
  uint8_t alt[4] = {want, want, want, want};
  uint8_t hb = 0;
  uint32_t hp = sx_u32("hprobe");
  sx_assume(hp < 0x200);
  if (headered) hb = header[hp];

  nsasm::RomOverwriter ow(std::make_unique<nsasm::Rom>((nsasm::Mapping)m, "p", header, std::move(data)));
  nsasm::OutputSink& sink = ow;
  for (unsigned k = 0; k < writes; k++) {
    uint32_t a = sx_u32("addr");
    sx_assume(a < 0x1000000u);
    unsigned n = sx_concretize(sx_range(0, maxn, "n"));
    std::vector<uint8_t> w(n);
    if (n) sx_sym_bytes(w.data(), n, "w");
    auto r = sink.Write(nsasm::Address(a), w);
    bool bad = false;
    for (unsigned i = 0; i < n; i++) {
      auto o = spec::Translate(spec::Adv(a, i), m);
      bad |= !o.ok | (o.off >= size);
    }
    if (r.ok()) {
      CHECK(!bad, "write-outside-image-accepted");
      for (unsigned i = 0; i < n; i++) {
        auto o = spec::Translate(spec::Adv(a, i), m);
        bool hit = o.off == p;
        want = (uint8_t)sx_ite(hit, w[i], want);
        for (auto& x : alt) x = (uint8_t)sx_ite(hit, want, x);
      }
      if (n) sx_reach("written");
    } else {
      CHECK(bad, "write-inside-image-rejected");
      // bytes of a failed write that do have a place may or may not be there
      for (unsigned i = 0; i < n; i++) {
        auto o = spec::Translate(spec::Adv(a, i), m);
        alt[i & 3] = (uint8_t)sx_ite(o.ok & (o.off == p), w[i], alt[i & 3]);
      }
      sx_reach("rejected");
    }
  }
  fm::may_fail = faults;
  auto r = ow.CreateFile("out");
  if (faults) {
    CHECK(r.ok() == !fm::failed, "save-result-wrong");
    CHECK(fm::opened == fm::closed, "output-file-left-open");
    if (!r.ok()) { sx_reach("save-error"); return; }
  } else {
    CHECK(r.ok(), "save-fails");
    CHECK(fm::opened == fm::closed, "output-file-left-open");
  }
  uint32_t h = headered ? 0x200 : 0;
  CHECK(fm::out.size() == h + size, "saved-size-changed");
  if (headered) {
    CHECK(fm::out[hp] == hb, "header-changed");
    sx_reach("header");
  }
  uint8_t got = fm::out[h + p];
  bool ok = got == want;
  for (uint8_t x : alt) ok |= got == x;
  CHECK(ok, "wrong-saved-byte");
  sx_observe("byte", got);
  sx_reach("saved");
}
