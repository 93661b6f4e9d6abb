// C20: the opcode table against the 65816 instruction set.
#include "nsasm/opcode_map.h"
#include "sx.h"
#include "spec_opcodes.h"
using namespace nsasm;
extern "C" void harness() {
  switch (sx_param("part")) {
    case 0: {  // any opcode byte
      uint8_t op = sx_u8("opcode");
      auto [m, a] = DecodeOpcode(op);
      auto want = spec::kTable.op[op];
      CHECK(((int)m == want.m) & ((int)a == want.a), "decode");
      auto back = EncodeOpcode(m, a);
      CHECK(back.has_value(), "encode-missing");
      CHECK(*back == op, "encode-other");
      CHECK(IsLegalCombination(m, a), "not-legal");
      bool m8 = sx_bool("m8"), x8 = sx_bool("x8");
      int mode = spec::Settled(want.a, m8, x8);
      CHECK(InstructionLength((AddressingMode)mode) == 1 + spec::kSizes.n[mode], "length");
      back = EncodeOpcode(m, (AddressingMode)mode);
      CHECK(back.has_value() && *back == op, "encode-settled");
      sx_observe("mnemonic", m);
      sx_observe("mode", a);
      sx_reach("opcode");
      break;
    }
    case 1: {  // any mnemonic and mode
      int m = sx_range(M_adc, PM_sub, "mnemonic"), a = sx_range(A_imp, A_imm_fx, "mode");
      int want = spec::Encode(m, a);
      auto got = EncodeOpcode((Mnemonic)m, (AddressingMode)a);
      CHECK(got.has_value() == (want >= 0), "has-opcode");
      CHECK(IsLegalCombination((Mnemonic)m, (AddressingMode)a) == (want >= 0), "legal");
      if (got.has_value()) { CHECK(*got == want, "encode"); sx_reach("legal"); } else sx_reach("illegal");
      break;
    }
    case 2: {  // what depends on the mnemonic
      int m = sx_range(M_adc, PM_sub, "mnemonic");
      int w = spec::kWidths.w[m];
      int base = (int)sx_ite(m == PM_add, M_adc, sx_ite(m == PM_sub, M_sbc, m));
      bool usesm = spec::Encode(base, A_imm_fm) >= 0, usesx = spec::Encode(base, A_imm_fx) >= 0;
      CHECK(ImmediateArgumentUsesMBit((Mnemonic)m) == usesm, "immediate-m");
      CHECK(ImmediateArgumentUsesXBit((Mnemonic)m) == usesx, "immediate-x");
      bool r8 = spec::Encode(m, A_rel8) >= 0, r16 = spec::Encode(m, A_rel16) >= 0;
      CHECK(TakesOffsetArgument((Mnemonic)m) == (r8 | r16), "offset");
      CHECK(TakesLongOffsetArgument((Mnemonic)m) == r16, "long-offset");
      auto f = FlagControllingInstructionSize((Mnemonic)m);
      CHECK((int)f == (w == spec::kWidthM ? kUsesMFlag : w == spec::kWidthX ? kUsesXFlag : kNotVariable), "width-flag");
      sx_reach("mnemonic");
      break;
    }
  }
}
