// C15: the expectation-checking sink: `writes` writes of up to `wlen` bytes and
// `entries` expected runs of up to `elen` bytes at arbitrary addresses.
#include "test/test_sink.h"
#include "sx.h"
using nsasm::Address;
struct Cell { uint32_t a; uint8_t b; };
static uint32_t At(uint32_t a, unsigned i) { return (a & 0xff0000) | ((a + i) & 0xffff); }
extern "C" void harness() {
  unsigned writes = sx_param("writes"), wlen = sx_param("wlen"), entries = sx_param("entries"), elen = sx_param("elen");
  std::vector<nsasm::ExpectedBytes> exp;
  std::vector<Cell> want, got;
  for (unsigned i = 0; i < entries; i++) {
    uint32_t a = sx_u32("expected");
    sx_assume(a < 0x1000000u);
    unsigned n = (unsigned)sx_concretize(sx_range(0, (int)elen, "elen"));
    nsasm::ExpectedBytes e;
    e.location = (int)a;
    e.bytes.resize(n);
    if (n) sx_sym_bytes(e.bytes.data(), n, "ebyte");
    for (unsigned k = 0; k < n; k++) {
      Cell c{At(a, k), e.bytes[k]};
      for (auto& o : want) sx_assume(o.a != c.a);  // each address expected once
      want.push_back(c);
    }
    exp.push_back(e);
  }
  nsasm::TestSink sink(exp);
  for (unsigned i = 0; i < writes; i++) {
    uint32_t a = sx_u32("address");
    sx_assume(a < 0x1000000u);
    unsigned n = (unsigned)sx_concretize(sx_range(0, (int)wlen, "wlen"));
    uint8_t buf[8];
    if (n) sx_sym_bytes(buf, n, "byte");
    bool dup = false;
    for (unsigned k = 0; k < n; k++) for (auto& o : got) dup |= o.a == At(a, k);
    auto r = sink.Write(Address(a), absl::Span<const uint8_t>(buf, n));
    if (!r.ok()) {
      CHECK(dup, "fresh-write-rejected");
      sx_reach("duplicate");
      return;
    }
    CHECK(!dup, "duplicate-write-accepted");
    for (unsigned k = 0; k < n; k++) got.push_back({At(a, k), buf[k]});
    if (n > 1 && (a & 0xffff) + n > 0x10000) sx_reach("wrap");
  }
  bool same = want.size() == got.size();
  for (auto& w : want) { bool f = false; for (auto& g : got) f |= (g.a == w.a) & (g.b == w.b); same &= f; }
  auto r = sink.Check();
  if (r.ok()) { CHECK(same, "difference-not-reported"); sx_reach("match"); }
  else { CHECK(!same, "match-rejected"); sx_reach("mismatch"); }
  auto again = sink.Check();
  CHECK(again.ok() == r.ok(), "check-changes-state");
}
