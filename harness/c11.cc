// C11: CastTo and the type lattice; LabelValue coercion and order.
#include <algorithm>
#include "nsasm/address.h"
#include "nsasm/numeric_type.h"
#include "sx.h"
using namespace nsasm;
static unsigned Width(NumericType t) {
  return (t == T_byte || t == T_signed_byte) ? 8 : (t == T_word || t == T_signed_word) ? 16 : (t == T_long || t == T_signed_long) ? 24 : 0;
}
static bool Sgn(NumericType t) { return t == T_signed_byte || t == T_signed_word || t == T_signed_long; }
static NumericType Make(unsigned w, bool s) {
  return w == 8 ? (s ? T_signed_byte : T_byte) : w == 16 ? (s ? T_signed_word : T_word) : w == 24 ? (s ? T_signed_long : T_long) : T_unknown;
}
extern "C" void harness() {
  int v = sx_int("v"), u = sx_int("u");
  int ti = sx_range(0, 6, "type"), ui = sx_range(0, 6, "type"), wi = sx_range(0, 6, "type");
  NumericType t = (NumericType)sx_concretize(ti);
  unsigned part = sx_param("part");
  if (part == 0) {
    unsigned w = Width(t);
    LabelValue l = LabelValue::FromInt(v);
    CHECK(l.ToInt() == v, "label-int");
    int r = CastTo(t, v);
    CHECK(l.ToNumber(t) == r, "label-number");
    if (!w) {
      CHECK(r == v, "untyped-changed");
      sx_reach("untyped");
    } else {
      int64_t lo = Sgn(t) ? -(1ll << (w - 1)) : 0, hi = lo + (1ll << w) - 1;
      CHECK(((int64_t)r >= lo) & ((int64_t)r <= hi), "out-of-range");
      CHECK((((uint32_t)r ^ (uint32_t)v) & ((1u << w) - 1)) == 0, "not-congruent");
      if ((v >= lo) & (v <= hi)) CHECK(r == v, "in-range-changed");
      CHECK(CastTo(t, r) == r, "not-idempotent");
      sx_reach("typed");
    }
    LabelValue m = LabelValue::FromInt(u);
    CHECK((l == m) == (v == u), "label-equal");
    CHECK((l != m) == (v != u), "label-not-equal");
    CHECK((l < m) == (v < u), "label-less");
    CHECK((l <= m) == (v <= u), "label-less-equal");
    CHECK((l > m) == (v > u), "label-greater");
    CHECK((l >= m) == (v >= u), "label-greater-equal");
    sx_observe("cast", (uint32_t)r);
  } else {
    NumericType q = (NumericType)sx_concretize(ui);
    CHECK(IsSigned(t) == Sgn(t), "is-signed");
    CHECK(Unsigned(t) == Make(Width(t), false), "unsigned");
    CHECK(Signed(t) == Make(Width(t), true), "signed");
    NumericType c = ArtihmeticConversion(t, q);
    CHECK(c == ArtihmeticConversion(q, t), "not-commutative");
    CHECK(Width(c) == std::max(Width(t), Width(q)), "not-the-wider");
    CHECK(Sgn(c) == (Sgn(t) || Sgn(q)), "wrong-sign");
    if (t == q) CHECK(c == t, "not-idempotent-type");
    if (t == T_unknown) CHECK(c == q, "untyped-not-neutral");
    NumericType x = (NumericType)sx_concretize(wi);
    CHECK(ArtihmeticConversion(c, x) == ArtihmeticConversion(t, ArtihmeticConversion(q, x)), "not-associative");
    std::string n = ToString(t);
    CHECK(!n.empty() && n != "???" && (t == q) == (n == ToString(q)), "type-name");
    sx_reach("lattice");
  }
}
