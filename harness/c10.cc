// C10: Address arithmetic, comparison and printing over all 24-bit addresses.
#include "nsasm/address.h"
#include "sx.h"
using nsasm::Address;
static uint32_t Raw(Address a) { return (uint32_t)a.Bank() << 16 | a.BankAddress(); }
static void Compare(Address x, Address y, uint32_t a, uint32_t b) {
  CHECK((x == y) == (a == b), "equal");
  CHECK((x != y) == (a != b), "not-equal");
  CHECK((x < y) == (a < b), "less");
  CHECK((x <= y) == (a <= b), "less-equal");
  CHECK((x > y) == (a > b), "greater");
  CHECK((x >= y) == (a >= b), "greater-equal");
}
extern "C" void harness() {
  unsigned part = sx_param("part");
  uint32_t a = sx_u32("a"), b = sx_u32("b");
  if (part == 0) {
    sx_assume((a < 0x1000000u) & (b < 0x1000000u));
    int off = sx_int("offset");
    Address x(a), y(b);
    CHECK(x.Bank() == (int)(a >> 16), "bank");
    CHECK(x.BankAddress() == (a & 0xffff), "bank-address");
    CHECK(Raw(Address((uint8_t)(a >> 16), (uint16_t)a)) == a, "recompose");
    CHECK(Address((uint8_t)(a >> 16), (uint16_t)a) == x, "recompose-equal");
    CHECK(Raw(Address()) == 0, "default");
    Address w = x.AddWrapped(off);
    CHECK(Raw(w) == ((a & 0xff0000) | ((a + (uint32_t)off) & 0xffff)), "add-wrapped");
    sx_observe("wrapped", Raw(w));
    auto d = x.SubtractWrapped(y);
    if (d.ok()) {
      CHECK((a >> 16) == (b >> 16), "difference-across-banks");
      CHECK((*d >= -32768) & (*d <= 32767), "difference-range");
      CHECK(y.AddWrapped(*d) == x, "difference-leads-back");
      CHECK((((uint32_t)*d ^ (a - b)) & 0xffff) == 0, "difference-value");
      sx_reach("same-bank");
    } else {
      CHECK((a >> 16) != (b >> 16), "no-difference-in-bank");
      sx_reach("other-bank");
    }
    nsasm::LabelValue l(x);
    CHECK(l.ToInt() == (int)a, "label-of-address");
    CHECK(l.ToAddress() == x, "label-to-address");
  } else if (part == 1) {
    sx_assume((a <= 0x1000000u) & (b <= 0x1000000u));
    Compare(Address(a), Address(b), a, b);
    CHECK(Raw(Address(a).AddUnwrapped((int)(b - a))) == b, "add-unwrapped");
    sx_reach("compared");
  } else {
    sx_assume(a < 0x1000000u);
    std::string s = Address(a).ToString();
    CHECK(s.size() == 7, "text-length");
    CHECK(s[0] == '$', "text-prefix");
    for (unsigned i = 0; i < 6; i++) {
      uint32_t d = a >> (20 - 4 * i) & 15;
      CHECK((unsigned char)s[1 + i] == sx_ite(d < 10, '0' + d, 'a' + d - 10), "text-digit");
    }
    sx_reach("printed");
  }
}
