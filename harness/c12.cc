// C12: names of mnemonics, suffixes and directives.
#include "nsasm/mnemonic.h"
#include "sx.h"
#include "spec_names.h"
using namespace nsasm;
using spec::Name; using spec::Low; using spec::Spells; using spec::kMnemonics; using spec::kSuffixes; using spec::kDirectives;
template <size_t N, class F, class G>
static void Kind(const Name (&names)[N], F print, G parse) {
  std::string text = sx_string(sx_param("len"), "text");
  if (sx_param("part") == 0) {  // an arbitrary text
    auto r = parse(text);
    bool any = false;
    if (r.has_value()) {
      for (auto& n : names) if (n.value == (int)*r) { any = true; CHECK(Spells(text, n.text), "wrong-value"); }
      CHECK(any, "unknown-value");
      sx_observe("value", *r);
      sx_reach("accepted");
    } else {
      for (auto& n : names) any |= Spells(text, n.text);
      CHECK(!any, "name-rejected");
      sx_reach("rejected");
    }
    return;
  }
  for (auto& n : names) {  // every value
    std::string_view p = print(n.value);
    CHECK(!p.empty(), "no-name");
    CHECK(Spells(p, n.text), "wrong-name");
    auto r = parse(std::string(p));
    CHECK(r.has_value(), "printed-name-rejected");
    CHECK((int)*r == n.value, "round-trip");
    for (auto& o : names) if (o.value != n.value) CHECK(print(o.value) != p, "duplicate-name");
    // every spelling by letter case
    std::string s(n.text);
    sx_sym_bytes(&text[0], s.size(), "mask");
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] != '.') s[i] = (char)(s[i] - ((text[i] & 1) << 5));
    r = parse(s);
    CHECK(r.has_value() && (int)*r == n.value, "letter-case");
  }
  sx_reach("names");
}
extern "C" void harness() {
  switch (sx_param("kind")) {
    case 0: {
      if (sx_param("part") == 1) {
        auto& all = AllMnemonics();
        CHECK(all.size() == sizeof kMnemonics / sizeof *kMnemonics, "all-mnemonics-size");
        for (auto& n : kMnemonics) { int k = 0; for (Mnemonic m : all) k += (int)m == n.value; CHECK(k == 1, "all-mnemonics"); }
      }
      Kind(kMnemonics, [](int v) { return ToString((Mnemonic)v); }, [](const std::string& s) { return ToMnemonic(s); });
      break;
    }
    case 1: {
      if (sx_param("part") == 1) {
        auto& all = AllSuffixes();
        CHECK(all.size() == 2, "all-suffixes-size");
        for (auto& n : kSuffixes) { int k = 0; for (Suffix m : all) k += (int)m == n.value; CHECK(k == 1, "all-suffixes"); }
      }
      Kind(kSuffixes, [](int v) { return ToString((Suffix)v); }, [](const std::string& s) { return ToSuffix(s); });
      break;
    }
    default:
      Kind(kDirectives, [](int v) { return ToString((DirectiveName)v); }, [](const std::string& s) { return ToDirectiveName(s); });
  }
}
