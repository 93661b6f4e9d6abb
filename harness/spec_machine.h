// What a 65816 does, as far as its flags, stack and program counter go.
#pragma once
#include "sx.h"
#include "spec_opcodes.h"
namespace spec {
struct W { int at, size; uint8_t b[5]; };
struct Entry { const char* text; int e, m, x; };  // 2: either
inline const Entry kEntries[] = {{"m8x8", 0, 1, 1}, {"m16x16", 0, 0, 0}, {"native", 0, 2, 2}, {"emu", 1, 1, 1}, {"unk", 2, 2, 2}, {"m8x16", 0, 1, 0}};
struct Machine {
  bool e, m, x, c;
  std::vector<uint8_t> st;
  void Push(uint8_t v) { st.push_back(v); }
  uint8_t Pull() {
    if (st.empty()) return sx_u8("deep");  // the caller's
    uint8_t v = st.back();
    st.pop_back();
    return v;
  }
};
// Runs one instruction; the next address, or -1 at the end of this routine.
inline int Step(Machine& s, const W& w) {
  auto op = spec::kTable.op[w.b[0]];
  auto ahead = [&](int n) { return (w.at & 0xff0000) | ((w.at + n) & 0xffff); };
  int next = ahead(w.size);
  int size = 1 + spec::kSizes.n[op.a];
  if (op.a == A_imm_fm || op.a == A_imm_fx) {
    bool narrow = op.a == A_imm_fm ? s.m : s.x;
    CHECK(w.size == (narrow ? 2 : 3), "width");
  } else {
    CHECK(w.size == size, "size");
  }
  auto reg = [&](bool narrow, bool push) {
    for (int i = 0, n = narrow ? 1 : 2; i < n; i++) {
      if (push) s.Push(sx_u8("reg"));
      else s.Pull();
    }
  };
  bool taken = false;
  switch (op.m) {
    case M_clc: s.c = false; break;
    case M_sec: s.c = true; break;
    case M_adc: case M_cpx: s.c = sx_bool("carry"); break;
    case M_xce: {
      bool t = s.c;
      s.c = s.e;
      s.e = t;
      s.m |= t;
      s.x |= t;
      break;
    }
    case M_rep: case M_sep: {
      bool to = op.m == M_sep;
      if (w.b[1] & 1) s.c = to;
      if (w.b[1] & 0x10) s.x = s.e | to;
      if (w.b[1] & 0x20) s.m = s.e | to;
      break;
    }
    case M_php: s.Push((sx_u8("pushed") & 0xce) | (s.c ? 1 : 0) | (s.x ? 0x10 : 0) | (s.m ? 0x20 : 0)); break;
    case M_plp: {
      uint8_t p = s.Pull();
      s.c = p & 1;
      s.x = s.e | (p >> 4 & 1);
      s.m = s.e | (p >> 5 & 1);
      break;
    }
    case M_pha: reg(s.m, true); break;
    case M_pla: reg(s.m, false); break;
    case M_phx: reg(s.x, true); break;
    case M_plx: reg(s.x, false); break;
    case M_phb: reg(true, true); break;
    case M_plb: reg(true, false); break;
    case M_sta:
      for (int i = 0; i < (s.m ? 1 : 2); i++) {
        int k = w.b[1] + i;
        if (k >= 1 && k <= (int)s.st.size()) s.st[s.st.size() - k] = sx_u8("stored");
      }
      break;
    case M_jsr: case M_jsl: break;  // the caller knows what it yields
    case M_bne: case M_beq: taken = sx_bool("taken"); break;
    case M_bcc: taken = !s.c; break;
    case M_bcs: taken = s.c; break;
    case M_bra: return ahead(w.size + (int8_t)w.b[1]);
    case M_brl: return ahead(w.size + (w.b[1] | w.b[2] << 8));
    case M_rts: case M_rtl: case M_rti: case M_jmp: case M_stp: return -1;
    case M_pea: case M_per: case M_pei: case M_phd: reg(false, true); break;
    case M_pld: reg(false, false); break;
    case M_phk: reg(true, true); break;
    case M_phy: reg(s.x, true); break;
    case M_ply: reg(s.x, false); break;
    case M_asl: case M_lsr: case M_rol: case M_ror: case M_cmp: case M_cpy: case M_sbc: s.c = sx_bool("carry"); break;
    case M_bpl: case M_bmi: case M_bvc: case M_bvs: taken = sx_bool("taken"); break;
    case M_brk: case M_cop: s.c = sx_bool("carry"); break;
    case M_tcs: case M_txs: s.st.clear(); break;  // the stack is somewhere else now
    default: break;
  }
  return taken ? ahead(w.size + (int8_t)w.b[1]) : next;
}
}  // namespace spec
