// The names of the language, written independently of nsasm/mnemonic.cc.
#pragma once
#include "nsasm/mnemonic.h"
#include <string_view>
#include <cstring>
namespace spec {
using namespace nsasm;
struct Name { int value; const char* text; };
#define M(x) {M_##x, #x}
static const Name kMnemonics[] = {
    M(adc), M(and), M(asl), M(bit), M(cld), M(cli), M(clv), M(cmp), M(cpx), M(cpy), M(dec), M(dex), M(dey), M(eor), M(inc), M(inx),
    M(iny), M(lda), M(ldx), M(ldy), M(lsr), M(mvn), M(mvp), M(nop), M(ora), M(pea), M(pei), M(per), M(pha), M(phb), M(phd), M(phk),
    M(phx), M(phy), M(pla), M(plb), M(pld), M(plx), M(ply), M(rol), M(ror), M(sbc), M(sed), M(sei), M(sta), M(stp), M(stx), M(sty),
    M(stz), M(tax), M(tay), M(tcd), M(tcs), M(tdc), M(trb), M(tsb), M(tsc), M(tsx), M(txa), M(txs), M(txy), M(tya), M(tyx), M(wai),
    M(wdm), M(xba), M(bcc), M(bcs), M(beq), M(bmi), M(bne), M(bpl), M(bra), M(brk), M(brl), M(bvc), M(bvs), M(cop), M(jmp), M(jsl),
    M(jsr), M(rti), M(rtl), M(rts), M(clc), M(php), M(plp), M(rep), M(sec), M(sep), M(xce), {PM_add, "add"}, {PM_sub, "sub"}};
static const Name kSuffixes[] = {{S_b, ".b"}, {S_w, ".w"}};
#define D(x) {D_##x, "." #x}
static const Name kDirectives[] = {D(begin), D(db), D(dl), D(dw), D(end), D(entry), D(equ), D(halt), D(mode), D(module), D(org), D(remote)};
static unsigned char Low(unsigned char c) { return (unsigned char)(c + (((c >= 'A') & (c <= 'Z')) << 5)); }
static bool Spells(std::string_view s, const char* t) {  // letter case aside
  size_t n = strlen(t);
  if (s.size() != n) return false;
  bool r = true;
  for (size_t i = 0; i < n; i++) r &= Low((unsigned char)s[i]) == (unsigned char)t[i];
  return r;
}
#undef M
#undef D
}  // namespace spec
