// What the assembler's abstract processor states say about a real 65816.
#pragma once
#include "nsasm/execution_state.h"
#include "sx.h"
namespace spec {
using namespace nsasm;
// The part of a machine the states talk about: current flags and their values
// (and those of the registers) when the code was entered.
struct Cpu {
  bool e, m, x, c;       // now
  bool e0, m0, x0, q;    // at entry; q is what an "original" carry stands for
  uint16_t a0, x0r, y0r;
  uint8_t dbr0;
};
inline bool Bit(BitState s, bool now, bool entry) {
  return ((s == B_off) & !now) | ((s == B_on) & now) | ((s == B_original) & (now == entry)) | (s == B_unknown);
}
inline bool Describes(const StatusFlags& f, const Cpu& s) {
  return Bit(f.EBit(), s.e, s.e0) & Bit(f.MBit(), s.m, s.m0) & Bit(f.XBit(), s.x, s.x0) & Bit(f.CBit(), s.c, s.q);
}
// Flags as PHP pushes them (bits 4 and 5 read as set in emulation mode).
inline bool DescribesByte(const StatusFlags& f, uint8_t p, const Cpu& s) {
  return Bit(f.MBit(), p >> 5 & 1, s.m0) & Bit(f.XBit(), p >> 4 & 1, s.x0) & Bit(f.CBit(), p & 1, s.q);
}
inline bool DescribesByte(const StackValue& v, uint8_t b, const Cpu& s) {
  switch (v.type()) {
    case StackValue::T_byte: return v.value() == b;
    case StackValue::T_flags: return DescribesByte(v.flags(), b, s);
    case StackValue::T_a_lo: return b == (s.a0 & 0xff);
    case StackValue::T_a_hi: return b == s.a0 >> 8;
    case StackValue::T_x_lo: return b == (s.x0r & 0xff);
    case StackValue::T_x_hi: return b == s.x0r >> 8;
    case StackValue::T_y_lo: return b == (s.y0r & 0xff);
    case StackValue::T_y_hi: return b == s.y0r >> 8;
    case StackValue::T_dbr: return b == s.dbr0;
    default: return true;
  }
}
inline Cpu AnyCpu() {
  Cpu s;
  s.e = sx_bool("e"); s.m = sx_bool("m"); s.x = sx_bool("x"); s.c = sx_bool("c");
  s.e0 = sx_bool("e0"); s.m0 = sx_bool("m0"); s.x0 = sx_bool("x0"); s.q = sx_bool("q");
  s.a0 = sx_u16("a0"); s.x0r = sx_u16("x0r"); s.y0r = sx_u16("y0r"); s.dbr0 = sx_u8("dbr0");
  sx_assume((!s.e | (s.m & s.x)) & (!s.e0 | (s.m0 & s.x0)));  // emulation mode has 8-bit registers
  return s;
}
inline BitState AnyBit(const char* n) { return (BitState)(sx_sym(2, n) & 3); }
inline StatusFlags AnyFlags(const char* tag) {
  std::string t = tag;
  StatusFlags f(AnyBit((t + ".e").c_str()), AnyBit((t + ".m").c_str()), AnyBit((t + ".x").c_str()), AnyBit((t + ".c").c_str()));
  return f;
}
}  // namespace spec
