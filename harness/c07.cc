// C07/C08: DataRange as a set of addresses.
//   pre:   `sorted` claims of disjoint chunks in increasing order: with sorted
//          claims every set of at most that many chunks is reached
//   then:  `free` arbitrary claims, by chunk or by length
//   after every arbitrary claim: result, membership of an arbitrary address, chunk list
#include "nsasm/ranges.h"
#include "sx.h"
#include "spec_ranges.h"
using nsasm::Address;
using nsasm::Chunk;
static uint32_t Raw(Address a) { return (uint32_t)a.Bank() << 16 | a.BankAddress(); }
extern "C" void harness() {
  unsigned sorted = sx_param("sorted"), free_ = sx_param("free"), kinds = sx_param("kinds");
  uint32_t maxlen = sx_param("maxlen");
  nsasm::DataRange d;
  std::vector<spec::Claim> claims;
  uint32_t p = sx_u32("probe");
  sx_assume(p < 0x1000000u);
  uint32_t prev = 0;
  for (unsigned i = 0; i < sorted; i++) {
    uint32_t a = sx_u32("a"), b = sx_u32("b");
    sx_assume((a < b) & (b <= 0x1000000u) & ((i == 0) | (a > prev)));
    prev = b;
    bool r = d.ClaimBytes(Chunk(Address(a), Address(b)));
#ifdef C08
    CHECK(r, "disjoint-claim-conflicts");
#else
    (void)r;
#endif
    claims.push_back(spec::ChunkClaim(a, b));
  }
  for (unsigned i = 0; i < free_; i++) {
    bool r;
    spec::Claim c;
    if ((kinds >> i) & 1) {
      uint32_t loc = sx_u32("loc");
      sx_assume(loc < 0x1000000u);
      int len = sx_range(-1, maxlen, "len");
      c = spec::LengthClaim(loc, len);
      r = d.ClaimBytes(Address(loc), len);
      if (len > 1 && (loc & 0xffff) + len > 0x10000) sx_reach("wrap");
    } else {
      uint32_t a = sx_u32("a"), b = sx_u32("b");
      sx_assume((a <= b) & (b <= 0x1000000u));
      c = spec::ChunkClaim(a, b);
      r = d.ClaimBytes(Chunk(Address(a), Address(b)));
    }
    bool meets = c.twice, covered = c.Covers(p);
    for (auto& o : claims) meets |= c.Meets(o);
    claims.push_back(c);
    for (auto& o : claims) covered |= o.Covers(p);
#ifdef C08
    if (r) CHECK(!meets, "conflict-not-reported");
    else CHECK(meets, "conflict-reported-without-overlap");
    if (r) sx_reach("free"); else sx_reach("conflict");
    if (c.Covers(p)) CHECK(d.Contains(Address(p)), "claimed-byte-missing");
#else
    (void)meets;
    bool in = d.Contains(Address(p));
    if (in) CHECK(covered, "contains-unclaimed-address");
    else CHECK(!covered, "claimed-address-missing");
    if (in) sx_reach("inside"); else sx_reach("outside");
    bool inchunk = false, first = true;
    uint32_t last = 0;
    for (const Chunk& k : d.Chunks()) {
      uint32_t a = Raw(k.first), b = Raw(k.second);
      CHECK(a < b, "empty-chunk");
      CHECK(first || a > last, "chunks-not-increasing-or-adjacent");
      first = false;
      last = b;
      inchunk |= spec::In({a, b}, p);
    }
    CHECK(inchunk == covered, "chunks-differ-from-claims");
    if (d.Chunks().size() == sorted + 1) sx_reach("inserted");
    if (d.Chunks().size() < sorted) sx_reach("merged");
#endif
  }
}
