// The 65816 instruction set, written from the processor's documentation and
// independently of nsasm/opcode_map.cc.
#pragma once
#include "nsasm/addressing_mode.h"
#include "nsasm/mnemonic.h"
namespace spec {
using namespace nsasm;
struct Op { uint8_t m, a; };
struct Table {
  Op op[256];
  constexpr Table() : op() {
    for (auto& o : op) o = {255, 255};
    // The eight accumulator operations share their addressing modes.
    Mnemonic alu[8] = {M_ora, M_and, M_eor, M_adc, M_sta, M_lda, M_cmp, M_sbc};
    struct { uint8_t low; AddressingMode a; } alumodes[] = {
        {0x01, A_ind_bx}, {0x03, A_stk}, {0x05, A_dir_b}, {0x07, A_lng_b}, {0x09, A_imm_fm}, {0x0d, A_dir_w}, {0x0f, A_dir_l}, {0x11, A_ind_by},
        {0x12, A_ind_b}, {0x13, A_stk_y}, {0x15, A_dir_bx}, {0x17, A_lng_by}, {0x19, A_dir_wy}, {0x1d, A_dir_wx}, {0x1f, A_dir_lx}};
    for (int i = 0; i < 8; i++)
      for (auto& e : alumodes) Set(i * 0x20 + e.low, alu[i], e.a);
    op[0x89] = {255, 255};  // no STA #
    Set(0x89, M_bit, A_imm_fm);
    // Shifts and increments.
    Mnemonic rmw[6] = {M_asl, M_rol, M_lsr, M_ror, M_dec, M_inc};
    int rmwbase[6] = {0x00, 0x20, 0x40, 0x60, 0xc0, 0xe0};
    for (int i = 0; i < 6; i++) {
      Set(rmwbase[i] + 0x06, rmw[i], A_dir_b);
      Set(rmwbase[i] + 0x0e, rmw[i], A_dir_w);
      Set(rmwbase[i] + 0x16, rmw[i], A_dir_bx);
      Set(rmwbase[i] + 0x1e, rmw[i], A_dir_wx);
      if (i < 4) Set(rmwbase[i] + 0x0a, rmw[i], A_acc);
    }
    Set(0x1a, M_inc, A_acc); Set(0x3a, M_dec, A_acc);
    Set(0x04, M_tsb, A_dir_b); Set(0x0c, M_tsb, A_dir_w); Set(0x14, M_trb, A_dir_b); Set(0x1c, M_trb, A_dir_w);
    Set(0x24, M_bit, A_dir_b); Set(0x2c, M_bit, A_dir_w); Set(0x34, M_bit, A_dir_bx); Set(0x3c, M_bit, A_dir_wx);
    Set(0x64, M_stz, A_dir_b); Set(0x9c, M_stz, A_dir_w); Set(0x74, M_stz, A_dir_bx); Set(0x9e, M_stz, A_dir_wx);
    Set(0x84, M_sty, A_dir_b); Set(0x8c, M_sty, A_dir_w); Set(0x94, M_sty, A_dir_bx);
    Set(0x86, M_stx, A_dir_b); Set(0x8e, M_stx, A_dir_w); Set(0x96, M_stx, A_dir_by);
    Set(0xa0, M_ldy, A_imm_fx); Set(0xa4, M_ldy, A_dir_b); Set(0xac, M_ldy, A_dir_w); Set(0xb4, M_ldy, A_dir_bx); Set(0xbc, M_ldy, A_dir_wx);
    Set(0xa2, M_ldx, A_imm_fx); Set(0xa6, M_ldx, A_dir_b); Set(0xae, M_ldx, A_dir_w); Set(0xb6, M_ldx, A_dir_by); Set(0xbe, M_ldx, A_dir_wy);
    Set(0xc0, M_cpy, A_imm_fx); Set(0xc4, M_cpy, A_dir_b); Set(0xcc, M_cpy, A_dir_w);
    Set(0xe0, M_cpx, A_imm_fx); Set(0xe4, M_cpx, A_dir_b); Set(0xec, M_cpx, A_dir_w);
    // Branches, jumps, calls and returns.
    Mnemonic br[8] = {M_bpl, M_bmi, M_bvc, M_bvs, M_bcc, M_bcs, M_bne, M_beq};
    for (int i = 0; i < 8; i++) Set(i * 0x20 + 0x10, br[i], A_rel8);
    Set(0x80, M_bra, A_rel8); Set(0x82, M_brl, A_rel16); Set(0x62, M_per, A_rel16);
    Set(0x20, M_jsr, A_dir_w); Set(0xfc, M_jsr, A_ind_wx); Set(0x22, M_jsl, A_dir_l);
    Set(0x4c, M_jmp, A_dir_w); Set(0x5c, M_jmp, A_dir_l); Set(0x6c, M_jmp, A_ind_w); Set(0x7c, M_jmp, A_ind_wx); Set(0xdc, M_jmp, A_lng_w);
    Set(0x40, M_rti, A_imp); Set(0x60, M_rts, A_imp); Set(0x6b, M_rtl, A_imp);
    Set(0x00, M_brk, A_imm_b); Set(0x02, M_cop, A_imm_b); Set(0x42, M_wdm, A_imm_b); Set(0xc2, M_rep, A_imm_b); Set(0xe2, M_sep, A_imm_b);
    Set(0xf4, M_pea, A_imm_w); Set(0xd4, M_pei, A_dir_b); Set(0x44, M_mvp, A_mov); Set(0x54, M_mvn, A_mov);
    struct { uint8_t c; Mnemonic m; } implied[] = {
        {0x08, M_php}, {0x28, M_plp}, {0x48, M_pha}, {0x68, M_pla}, {0x88, M_dey}, {0xa8, M_tay}, {0xc8, M_iny}, {0xe8, M_inx},
        {0x18, M_clc}, {0x38, M_sec}, {0x58, M_cli}, {0x78, M_sei}, {0x98, M_tya}, {0xb8, M_clv}, {0xd8, M_cld}, {0xf8, M_sed},
        {0x8a, M_txa}, {0xaa, M_tax}, {0xca, M_dex}, {0xea, M_nop}, {0x5a, M_phy}, {0x7a, M_ply}, {0x9a, M_txs}, {0xba, M_tsx}, {0xda, M_phx}, {0xfa, M_plx},
        {0x0b, M_phd}, {0x2b, M_pld}, {0x4b, M_phk}, {0x8b, M_phb}, {0xab, M_plb}, {0xcb, M_wai}, {0xeb, M_xba},
        {0x1b, M_tcs}, {0x3b, M_tsc}, {0x5b, M_tcd}, {0x7b, M_tdc}, {0x9b, M_txy}, {0xbb, M_tyx}, {0xdb, M_stp}, {0xfb, M_xce}};
    for (auto& e : implied) Set(e.c, e.m, A_imp);
    for (auto& o : op) if (o.m == 255) __builtin_trap();
  }
  constexpr void Set(int c, Mnemonic m, AddressingMode a) {
    if (op[c].m != 255) __builtin_trap();
    op[c] = {(uint8_t)m, (uint8_t)a};
  }
};
inline constexpr Table kTable;
// Operand bytes of each addressing mode (0 for the width-dependent ones, see Length).
struct Sizes {
  uint8_t n[32];
  constexpr Sizes() : n() {
    for (auto a : {A_imm_b, A_dir_b, A_dir_bx, A_dir_by, A_ind_b, A_ind_bx, A_ind_by, A_lng_b, A_lng_by, A_stk, A_stk_y, A_rel8}) n[a] = 1;
    for (auto a : {A_imm_w, A_dir_w, A_dir_wx, A_dir_wy, A_ind_w, A_ind_wx, A_lng_w, A_mov, A_rel16}) n[a] = 2;
    for (auto a : {A_dir_l, A_dir_lx}) n[a] = 3;
  }
};
inline constexpr Sizes kSizes;
// Mode with the immediate width settled.
inline int Settled(int a, bool m8, bool x8) {
  return (int)sx_ite(a == A_imm_fm, m8 ? A_imm_b : A_imm_w, sx_ite(a == A_imm_fx, x8 ? A_imm_b : A_imm_w, a));
}
// Whether an opcode has this mnemonic and (width-dependent immediates standing
// for the two fixed ones too) mode, and which.
inline int Encode(int m, int a) {  // -1 when there is none
  int r = -1;
  for (int i = 0; i < 256; i++) {
    auto o = kTable.op[i];
    bool var = (o.a == A_imm_fm) | (o.a == A_imm_fx);
    bool hit = (m == o.m) & ((a == o.a) | (var & ((a == A_imm_b) | (a == A_imm_w))));
    r = (int)sx_ite(hit, (uint64_t)i, (uint64_t)(int64_t)r);
  }
  return r;
}
enum { kWidthM, kWidthX, kFixed };
struct Widths {
  uint8_t w[128];
  constexpr Widths() : w() {
    for (auto& x : w) x = kFixed;
    for (auto m : {M_adc, M_and, M_bit, M_cmp, M_eor, M_lda, M_ora, M_sbc, M_sta, M_stz, M_asl, M_lsr, M_rol, M_ror, M_inc, M_dec, M_tsb, M_trb, M_pha, M_pla, M_txa, M_tya, PM_add, PM_sub}) w[m] = kWidthM;
    for (auto m : {M_cpx, M_cpy, M_ldx, M_ldy, M_stx, M_sty, M_inx, M_iny, M_dex, M_dey, M_phx, M_phy, M_plx, M_ply, M_tax, M_tay, M_tsx, M_txy, M_tyx}) w[m] = kWidthX;
  }
};
inline constexpr Widths kWidths;
}  // namespace spec
