// C09: RangeMap. `pre` single-chunk insertions of disjoint increasing chunks (any
// ownership: the values are arbitrary and may repeat), then `ins` arbitrary
// insertions of `chunks` chunks each; results, lookup and containment of one
// arbitrary address are compared with the list of successful insertions.
#include "nsasm/ranges.h"
#include "sx.h"
#include "spec_ranges.h"
using nsasm::Address;
using nsasm::Chunk;
using nsasm::DataRange;
extern "C" void harness() {
  unsigned pre = sx_param("pre"), ins = sx_param("ins"), chunks = sx_param("chunks");
  nsasm::RangeMap<int> m;
  uint32_t p = sx_u32("probe"), prev = 0;
  sx_assume(p < 0x1000000u);
  CHECK(!m.Contains(Address(p)), "fresh-map-contains");
  CHECK(!m.Lookup(Address(p)).has_value(), "fresh-map-owner");
  std::vector<spec::Iv> used;
  bool covered = false;
  int owner = 0;
  for (unsigned i = 0; i < pre; i++) {
    uint32_t a = sx_u32("a"), b = sx_u32("b");
    sx_assume((a < b) & (b <= 0x1000000u) & (a >= prev));
    prev = b;
    int v = sx_int("v");
    DataRange r;
    r.ClaimBytes(Chunk(Address(a), Address(b)));
    CHECK(m.Insert(r, v), "disjoint-insert-failed");
    used.push_back({a, b});
    bool in = spec::In({a, b}, p);
    covered |= in;
    owner = (int)sx_ite(in, (uint32_t)v, (uint32_t)owner);
  }
  for (unsigned i = 0; i < ins; i++) {
    DataRange r;
    std::vector<spec::Iv> mine;
    uint32_t last = 0;
    for (unsigned k = 0; k < chunks; k++) {
      uint32_t a = sx_u32("c"), b = sx_u32("d");
      sx_assume((a < b) & (b <= 0x1000000u) & ((k == 0) | (a > last)));
      last = b;
      r.ClaimBytes(Chunk(Address(a), Address(b)));
      mine.push_back({a, b});
    }
    int v = sx_int("w");
    bool hit = false, in = false;
    for (auto& x : mine) {
      in |= spec::In(x, p);
      for (auto& y : used) hit |= spec::Hit(x, y);
    }
    bool ok = m.Insert(r, v);
    if (ok) {
      CHECK(!hit, "overlapping-insert-accepted");
      sx_reach("inserted");
      for (auto& x : mine) used.push_back(x);
      covered |= in;
      owner = (int)sx_ite(in, (uint32_t)v, (uint32_t)owner);
    } else {
      CHECK(hit, "disjoint-insert-refused");
      sx_reach("refused");
    }
  }
  auto got = m.Lookup(Address(p));
  if (got.has_value()) {
    CHECK(covered, "owner-of-unclaimed-address");
    CHECK(*got == owner, "wrong-owner");
    sx_observe("owner", (uint32_t)*got);
    sx_reach("owned");
  } else {
    CHECK(!covered, "owner-lost");
    sx_reach("free");
  }
  CHECK(m.Contains(Address(p)) == covered, "contains-differs-from-lookup");
}
