// C22: from an operand as written to the bytes in memory.
#include "nsasm/instruction.h"
#include "nsasm/opcode_map.h"
#include "asmenv.h"
#include "spec_opcodes.h"
using namespace nsasm;
namespace {
struct Form { int by_width[4]; };  // addressing mode for an operand of 0..3 bytes, -1 if none
constexpr Form kForms[14] = {
    {{A_imp, -1, -1, -1}},                 // SA_imp (or A_acc)
    {{A_acc, -1, -1, -1}},                 // SA_acc
    {{-1, A_imm_b, A_imm_w, -1}},          // SA_imm (or the two variable ones)
    {{-1, A_dir_b, A_dir_w, A_dir_l}},     // SA_dir
    {{-1, A_dir_bx, A_dir_wx, A_dir_lx}},  // SA_dir_x
    {{-1, A_dir_by, A_dir_wy, -1}},        // SA_dir_y
    {{-1, A_ind_b, A_ind_w, -1}},          // SA_ind
    {{-1, A_ind_bx, A_ind_wx, -1}},        // SA_ind_x
    {{-1, A_ind_by, -1, -1}},              // SA_ind_y
    {{-1, A_lng_b, A_lng_w, -1}},          // SA_lng
    {{-1, A_lng_by, -1, -1}},              // SA_lng_y
    {{-1, A_stk, -1, -1}},                 // SA_stk
    {{-1, A_stk_y, -1, -1}},               // SA_stk_y
    {{-1, A_mov, -1, -1}}};                // SA_mov
// The addressing mode the processor offers for an operand, or -1.
int Choose(int m, SyntacticAddressingMode s, NumericType t, bool constant, int v, NumericType t2, bool constant2, int v2) {
  auto width = [](NumericType t) { return (int)sx_ite(t == T_unknown, 0, sx_ite(t > T_long, t - T_long, t)); };
  auto is_byte = [&](NumericType t, bool c, int v) { return (width(t) == 1) | ((t == T_unknown) & c & (v >= -128) & (v < 256)); };
  auto is_word = [&](NumericType t, bool c, int v) { return (width(t) == 2) | ((t == T_unknown) & c & (v >= -32768) & (v < 65536)); };
  auto has = [&](int a) { return spec::Encode(m, a) >= 0; };
  int base = (int)sx_ite(m == PM_add, M_adc, sx_ite(m == PM_sub, M_sbc, m));
  m = base;
  if (s == SA_imp) return (int)sx_ite(has(A_acc), A_acc, sx_ite(has(A_imp), A_imp, (uint64_t)-1));
  if (s == SA_acc) return (int)sx_ite(has(A_acc), A_acc, (uint64_t)-1);
  if (s == SA_imm) {
    bool fm = has(A_imm_fm), fx = has(A_imm_fx);
    bool b = has(A_imm_b) & is_byte(t, constant, v), w = has(A_imm_w) & is_word(t, constant, v);
    return (int)sx_ite(fm, A_imm_fm, sx_ite(fx, A_imm_fx, sx_ite(b, A_imm_b, sx_ite(w, A_imm_w, (uint64_t)-1))));
  }
  if (s == SA_mov)
    return (int)sx_ite(has(A_mov) & is_byte(t, constant, v) & is_byte(t2, constant2, v2), A_mov, (uint64_t)-1);
  if (s == SA_stk || s == SA_stk_y) {
    int a = s == SA_stk ? A_stk : A_stk_y;
    return (int)sx_ite(has(a) & is_byte(t, constant, v), a, (uint64_t)-1);
  }
  int w = width(t);
  int r = -1;
  for (int i = 1; i <= 3; i++)
    if (kForms[s].by_width[i] >= 0) r = (int)sx_ite((w == i) & has(kForms[s].by_width[i]), kForms[s].by_width[i], (uint64_t)(int64_t)r);
  return r;
}
struct Operand {
  ExpressionOrNull e;
  NumericType type = T_unknown;
  bool constant = false, name = false;
  int value = 0;
};
// 0 none, 1 literal, 2 plain name, 3 qualified name, 4 name + literal, 5 >name
Operand Make(int kind, const env::Names& names, const char* tn, const char* vn) {
  Operand o;
  if (kind == 1) {
    o.type = (NumericType)sx_range(T_unknown, T_signed_long, tn);
    int raw = sx_int(vn);
    Literal l(raw, o.type);
    o.value = *l.Evaluate(NullLookupContext());
    o.constant = true;
    o.e = absl::make_unique<Literal>(raw, o.type);
  } else if (kind == 2 || kind == 3) {
    bool far = sx_bool(tn);
    o.type = (NumericType)sx_ite(far, T_long, T_word);
    o.name = kind == 2;
    o.value = names.value;
    o.e = absl::make_unique<IdentifierExpression>(kind == 2 ? FullIdentifier("name") : FullIdentifier("module", "name"), o.type);
  } else if (kind == 4) {
    int add = sx_int(vn);
    ExpressionOrNull l(absl::make_unique<IdentifierExpression>(FullIdentifier("name"), T_word)), r(absl::make_unique<Literal>(add, T_unknown));
    o.type = T_word;
    o.value = (int)((unsigned)names.value + (unsigned)add);
    sx_assume((long)names.value + add == (long)o.value);
    o.e = absl::make_unique<BinaryExpression>(std::move(l), std::move(r), MakePlusOp());
  } else if (kind == 5) {
    ExpressionOrNull l(absl::make_unique<IdentifierExpression>(FullIdentifier("name"), T_word));
    o.type = T_byte;
    o.value = (names.value >> 8) & 0xff;
    o.e = absl::make_unique<UnaryExpression>(std::move(l), MakeHighbyteOp());
  }
  return o;
}
}  // namespace
extern "C" void harness() {
  auto s = (SyntacticAddressingMode)sx_param("form");
  int kind = (int)sx_param("kind");
  int m = sx_range(M_adc, PM_sub, "mnemonic");
  env::Names names;
  names.value = sx_int("name");
  names.known = sx_bool("defined");
  Operand o1 = Make(kind, names, "type1", "value1"), o2;
  if (s == SA_mov) o2 = Make(kind == 2 ? 1 : kind, names, "type2", "value2");
  bool branch = (spec::Encode(m, A_rel8) >= 0) | (spec::Encode(m, A_rel16) >= 0);
  int plain = Choose(m, s, o1.type, o1.constant, o1.value, o2.type, o2.constant, o2.value);
  // A branch takes a name, PER any address.
  int rel = s == SA_dir ? (int)sx_ite(o1.name | (m == M_per), sx_ite(spec::Encode(m, A_rel16) >= 0, A_rel16, A_rel8), (uint64_t)-1) : -1;
  int want = (int)sx_ite(branch, (uint64_t)(int64_t)rel, (uint64_t)(int64_t)plain);
  auto mode = DeduceMode((Mnemonic)m, s, o1.e, o2.e);
  CHECK(mode.ok() == (want >= 0), "accepts");
  if (!mode.ok()) { sx_reach("refused"); return; }
  CHECK((int)*mode == want, "mode");
  // Suffix and flags.
  Instruction ins;
  ins.mnemonic = (Mnemonic)m;
  ins.suffix = (Suffix)sx_range(S_none, S_w, "suffix");
  int w = spec::kWidths.w[m];
  sx_assume((ins.suffix == S_none) | (w != spec::kFixed));  // the parser's rule (C28)
  ins.addressing_mode = *mode;
  ins.arg1 = o1.e;
  ins.arg2 = o2.e;
  BitState bm = (BitState)sx_range(B_off, B_unknown, "m"), bx = (BitState)sx_range(B_off, B_unknown, "x");
  StatusFlags flags(B_off, bm, bx);
  BitState bit = (BitState)sx_ite(w == spec::kWidthM, bm, bx);
  bool clash = ((ins.suffix == S_w) & (bit == B_on)) | ((ins.suffix == S_b) & (bit == B_off));
  bool vague = ((want == A_imm_fm) & (bm >= B_original)) | ((want == A_imm_fx) & (bx >= B_original));
  bool ok = ins.CheckConsistency(flags).ok();
  CHECK(ok == (!clash & !vague), "consistent");
  if (!ok) { sx_reach("inconsistent"); return; }
  CHECK(ins.FixAddressingMode(flags).ok(), "fix");
  int final = spec::Settled(want, bm == B_on, bx == B_on);
  CHECK((int)ins.addressing_mode == final, "settled");
  CHECK(ins.CheckConsistency(flags).ok(), "consistent-again");
  bool pseudo = (m == PM_add) | (m == PM_sub);
  int len = 1 + spec::kSizes.n[final] + pseudo;
  CHECK(ins.SerializedSize() == len, "size");
  uint32_t at = sx_u32("address") & 0xffffff;
  env::RecordingSink sink;
  sink.fail = sx_bool("sink_fails");
  bool done = ins.Assemble(Address(at), names, &sink).ok();
  bool is_rel = (final == A_rel8) | (final == A_rel16);
  bool defined = names.known | !o1.e.RequiresLookup();
  if (is_rel) {  // the distance is C23's
    sx_assume(names.known & !sink.fail);
    if (!done) { sx_reach("far"); return; }
  } else {
    CHECK(done == (defined & !sink.fail), "assembles");
    if (!done) { CHECK(sink.calls == 0, "wrote-on-error"); sx_reach("undefined"); return; }
  }
  CHECK(sink.calls == 1, "writes");
  CHECK((sink.at == at) & (sink.size == len), "where");
  int base = (int)sx_ite(m == PM_add, M_adc, sx_ite(m == PM_sub, M_sbc, m));
  CHECK(!pseudo | (sink.bytes[0] == sx_ite(m == PM_add, 0x18, 0x38)), "prefix");
  CHECK(sx_ite(pseudo, sink.bytes[1], sink.bytes[0]) == (uint64_t)spec::Encode(base, final), "opcode");
  if (!is_rel) {
    uint64_t field = final == A_mov ? (uint64_t)((o2.value & 0xff) | (o1.value & 0xff) << 8) : (uint64_t)(uint32_t)o1.value;
    bool same = true;
    for (int i = 0; i < 3; i++)
      same &= (i >= spec::kSizes.n[final]) | (sx_ite(pseudo, sink.bytes[2 + i], sink.bytes[1 + i]) == ((field >> (8 * i)) & 0xff));
    CHECK(same, "operand");
  }
  sx_reach("assembled");
}
