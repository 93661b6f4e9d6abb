#pragma once
#include "sx.h"
namespace spec {
struct Iv { uint32_t a, b; };  // [a, b), empty when a >= b
inline bool In(Iv i, uint32_t p) { return (i.a <= p) & (p < i.b); }
inline bool Hit(Iv x, Iv y) { return (x.a < y.b) & (y.a < x.b) & (x.a < x.b) & (y.a < y.b); }
// A claim as the documentation describes it: at most two intervals.
struct Claim {
  Iv one, two;
  bool twice = false;  // covers an address more than once
  bool Covers(uint32_t p) const { return In(one, p) | In(two, p); }
  bool Meets(const Claim& o) const { return Hit(one, o.one) | Hit(one, o.two) | Hit(two, o.one) | Hit(two, o.two); }
};
inline Claim ChunkClaim(uint32_t a, uint32_t b) { return {{a, b}, {0, 0}}; }
inline Claim LengthClaim(uint32_t loc, int len) {
  uint32_t bank = loc & 0xff0000u, lo = loc & 0xffffu;
  uint32_t n = (uint32_t)sx_ite(len < 0, 0, (uint32_t)len);
  uint32_t first = (uint32_t)sx_ite(n < 0x10000u - lo, n, 0x10000u - lo), rest = n - first;
  return {{loc, loc + first}, {bank, bank + (uint32_t)sx_ite(rest > 0x10000u, 0x10000u, rest)}, n > 0x10000u};
}
}  // namespace spec
