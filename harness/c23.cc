// C23: relative branches.
#include "nsasm/instruction.h"
#include "asmenv.h"
#include "spec_opcodes.h"
using namespace nsasm;
extern "C" void harness() {
  static const Mnemonic kBranches[11] = {M_bcc, M_bcs, M_beq, M_bmi, M_bne, M_bpl, M_bra, M_bvc, M_bvs, M_brl, M_per};
  bool wide = sx_param("wide");
  int pick = wide ? sx_range(9, 10, "which") : sx_range(0, 8, "which");
  Mnemonic m = kBranches[pick];
  uint32_t at = sx_u32("address") & 0xffffff;
  env::Names names;
  names.value = sx_int("target");
  names.known = sx_bool("known");
  Instruction ins;
  ins.mnemonic = m;
  ins.suffix = S_none;
  ExpressionOrNull target(absl::make_unique<IdentifierExpression>(FullIdentifier("target")));
  ins.arg1 = target;
  auto mode = DeduceMode(m, SA_dir, ins.arg1, ins.arg2);
  CHECK(mode.ok() && *mode == (wide ? A_rel16 : A_rel8), "mode");
  ins.addressing_mode = *mode;
  int len = wide ? 3 : 2;
  CHECK(ins.SerializedSize() == len, "size");
  env::RecordingSink sink;
  bool ok = ins.Assemble(Address(at), names, &sink).ok();
  uint32_t t = (uint32_t)names.value;
  // The processor adds the distance to the address of the next instruction.
  int distance = (int)(int16_t)(uint16_t)(t - (at + len));
  bool reachable = (t <= 0xffffff) & ((t >> 16) == (at >> 16)) & (wide | ((distance >= -128) & (distance <= 127)));
  CHECK(ok == (names.known & reachable), "accepts");
  if (!ok) {
    CHECK(sink.calls == 0, "wrote-on-error");
    sx_reach("refused");
    return;
  }
  CHECK(sink.calls == 1, "writes");
  CHECK((sink.at == at) & (sink.size == len), "where");
  CHECK(sink.bytes[0] == spec::Encode(m, *mode), "opcode");
  uint32_t moved = wide ? (uint32_t)(int32_t)(int16_t)(sink.bytes[1] | sink.bytes[2] << 8) : (uint32_t)(int32_t)(int8_t)sink.bytes[1];
  uint32_t lands = (at & 0xff0000) | ((at + len + moved) & 0xffff);
  CHECK(lands == t, "lands");
  sx_observe("distance", (uint32_t)distance);
  sx_reach("assembled");
}
