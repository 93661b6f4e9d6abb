// C26: names of flag states.
#include "nsasm/execution_state.h"
#include "sx.h"
using namespace nsasm;
namespace {
struct Name { const char* text; BitState e, m, x; };
constexpr Name kNames[] = {
    {"unk", B_unknown, B_unknown, B_unknown}, {"emu", B_on, B_on, B_on}, {"native", B_off, B_unknown, B_unknown},
    {"m8", B_off, B_on, B_unknown}, {"m16", B_off, B_off, B_unknown}, {"x8", B_off, B_unknown, B_on}, {"x16", B_off, B_unknown, B_off},
    {"m8x8", B_off, B_on, B_on}, {"m8x16", B_off, B_on, B_off}, {"m16x8", B_off, B_off, B_on}, {"m16x16", B_off, B_off, B_off}};
}
extern "C" void harness() {
  if (sx_param("part") == 0) {  // any text
    int n = (int)sx_param("n");
    std::string s = sx_string(n, "text");
    bool want = false;
    uint64_t e = 0, m = 0, x = 0;
    for (auto& k : kNames) {
      if ((int)strlen(k.text) != n) continue;
      bool hit = true;
      for (int i = 0; i < n; i++) {
        uint8_t c = (uint8_t)s[i];
        hit &= (c == k.text[i]) | ((k.text[i] >= 'a') & (c == k.text[i] - 32));
      }
      want |= hit;
      e = sx_ite(hit, k.e, e); m = sx_ite(hit, k.m, m); x = sx_ite(hit, k.x, x);
    }
    auto got = StatusFlags::FromName(s);
    CHECK(got.has_value() == want, "accepts");
    if (!got.has_value()) { sx_reach("refused"); return; }
    CHECK((got->EBit() == e) & (got->MBit() == m) & (got->XBit() == x) & (got->CBit() == B_unknown), "meaning");
    sx_observe("e", got->EBit());
    auto again = StatusFlags::FromName(got->ToName());
    CHECK(again.has_value() && *again == *got, "round-trip");
    sx_reach("accepted");
  } else {  // any state
    StatusFlags f((BitState)sx_range(0, 3, "e"), (BitState)sx_range(0, 3, "m"), (BitState)sx_range(0, 3, "x"), (BitState)sx_range(0, 3, "c"));
    std::string name = f.ToName();
    bool listed = false;
    for (auto& k : kNames) listed |= name == k.text;
    CHECK(listed, "documented");
    auto back = StatusFlags::FromName(name);
    CHECK(back.has_value(), "parses");
    auto keep = [](BitState b) { return b >= B_original ? B_unknown : b; };
    bool e = back->EBit() == keep(f.EBit());
    // Widths are named in native mode only; emulation implies them.
    BitState wm = f.EBit() >= B_original ? B_unknown : keep(f.MBit()), wx = f.EBit() >= B_original ? B_unknown : keep(f.XBit());
    CHECK(e & (back->MBit() == wm) & (back->XBit() == wx), "same-state");
    std::string full = f.ToString();
    std::string want = name + (f.CBit() == B_on ? ", c=1" : f.CBit() == B_off ? ", c=0" : "");
    CHECK(full == want, "shown");
    sx_reach("state");
  }
}
