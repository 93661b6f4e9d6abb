// C21: decoding any bytes and assembling the result.
#include "nsasm/decode.h"
#include "nsasm/opcode_map.h"
#include "asmenv.h"
#include "spec_opcodes.h"
using namespace nsasm;
extern "C" void harness() {
  int n = (int)sx_param("n");
  uint8_t buf[4] = {0, 0, 0, 0};
  static const char* names[4] = {"b0", "b1", "b2", "b3"};
  for (int i = 0; i < n; i++) buf[i] = sx_u8(names[i]);
  BitState m = (BitState)sx_range(B_off, B_unknown, "m"), x = (BitState)sx_range(B_off, B_unknown, "x");
  BitState e = sx_param("emulation") ? (BitState)sx_range(B_off, B_unknown, "e") : B_off;
  StatusFlags flags(e, m, x);
  if (sx_param("emulation")) {  // a register can only be wide in native mode
    sx_assume((e != B_off));
    m = (BitState)sx_ite(e == B_on || m == B_on, B_on, B_unknown);
    x = (BitState)sx_ite(e == B_on || x == B_on, B_on, B_unknown);
  }
  auto decoded = Decode(absl::Span<const uint8_t>(buf, n), flags);
  auto op = spec::kTable.op[buf[0]];
  bool unknown = ((op.a == A_imm_fm) & (m >= B_original)) | ((op.a == A_imm_fx) & (x >= B_original));
  int mode = spec::Settled(op.a, m == B_on, x == B_on);
  int len = 1 + spec::kSizes.n[mode];
  bool ok = n == 0 ? false : !unknown & (len <= n);
  CHECK(decoded.ok() == ok, "accepts");
  if (!decoded.ok()) { sx_reach("refused"); return; }
  Instruction& ins = *decoded;
  CHECK((ins.mnemonic == op.m) & (ins.addressing_mode == mode) & (ins.suffix == S_none), "instruction");
  CHECK(ins.SerializedSize() == len, "size");
  CHECK(ins.CheckConsistency(flags).ok(), "inconsistent");
  uint32_t at = sx_u32("address") & 0xffffff;
  bool rel = (mode == A_rel8) | (mode == A_rel16);
  if (rel) {
    CHECK((bool)ins.arg1, "no-distance");
    auto d = ins.arg1.Evaluate(NullLookupContext());
    CHECK(d.ok(), "no-distance");
    int want = mode == A_rel8 ? (int)(int8_t)buf[1] : (int)(int16_t)(buf[1] | buf[2] << 8);
    CHECK(*d == want, "distance");
    ins.arg1 = absl::make_unique<Literal>((int)((at & 0xff0000) | ((at + len + want) & 0xffff)), T_long);
    sx_reach("branch");
  }
  env::RecordingSink sink;
  CHECK(ins.Assemble(Address(at), NullLookupContext(), &sink).ok(), "assemble");
  CHECK(sink.calls == 1, "writes");
  CHECK((sink.at == at) & (sink.size == len), "where");
  bool same = true;
  for (int i = 0; i < n; i++) same &= (i >= len) | (sink.bytes[i] == buf[i]);
  CHECK(same, "bytes");
  sx_observe("mode", mode);
  sx_reach("reproduced");
}
