// C25: merging what is known about the processor.
#include "nsasm/execution_state.h"
#include "spec_cpu.h"
using namespace nsasm;
using spec::Cpu;
namespace {
// One pushed item; `out` receives the bytes a matching machine has there, top first.
enum Kind { kByte, kUnknown, kFlags, kA8, kA16, kAVar, kAVarUnknown, kXVar, kYVar, kDbr, kX8, kY16, kKinds };
struct Item { int kind; uint8_t b[2]; int n; };  // n bytes, top first
Item Push(ExecutionState& es, int kind, const char* tag, const Cpu& s) {
  std::string t = tag;
  Item it{kind, {sx_u8((t + ".0").c_str()), sx_u8((t + ".1").c_str())}, 1};
  Stack& st = es.GetStack();
  RegisterValue orig(RegisterValue::T_original), unk;
  StatusFlags narrow(B_off, B_on, B_on), wide(B_off, B_off, B_off), same(B_original, B_original, B_original);
  switch (kind) {
    case kByte: st.PushByte(it.b[0]); break;
    case kUnknown: st.PushUnknownByte(); break;
    case kFlags: {
      StatusFlags f = spec::AnyFlags((t + ".f").c_str());
      sx_assume(spec::DescribesByte(f, it.b[0], s));
      st.PushFlags(f);
      break;
    }
    case kA8: st.PushA(orig, narrow); sx_assume(it.b[0] == (s.a0 & 0xff)); break;
    case kX8: st.PushX(orig, narrow); sx_assume(it.b[0] == (s.x0r & 0xff)); break;
    case kA16: st.PushA(orig, wide); it.n = 2; sx_assume((it.b[0] == (s.a0 & 0xff)) & (it.b[1] == s.a0 >> 8)); break;
    case kY16: st.PushY(orig, wide); it.n = 2; sx_assume((it.b[0] == (s.y0r & 0xff)) & (it.b[1] == s.y0r >> 8)); break;
    case kAVar: st.PushA(orig, same); it.n = 0; break;
    case kAVarUnknown: st.PushA(unk, same); it.n = 0; break;
    case kXVar: st.PushX(orig, same); it.n = 0; break;
    case kYVar: st.PushY(orig, same); it.n = 0; break;
    case kDbr: st.PushDBR(orig); sx_assume(it.b[0] == s.dbr0); break;
  }
  return it;
}
// Whether what `es` knows about its top item is true of `it`.
bool Top(ExecutionState& es, const Item& it, const Cpu& s) {
  Stack var = es.GetStack(), all = var;
  StackValue v = var.PullVarsize();
  if (v.IsVarSize()) {  // must be a variable-sized item of the same register
    es.GetStack() = var;
    StackValue::Type want = it.kind == kXVar ? StackValue::T_x_varsize : it.kind == kYVar ? StackValue::T_y_varsize : StackValue::T_a_varsize;
    if (it.n != 0 || v.type() != want) return false;
    // It may only be called the original value if it is.
    ExecutionState pull = es;
    pull.GetStack() = all;
    pull.Flags() = StatusFlags(B_original, B_original, B_original);
    RegisterValue r;
    if (want == StackValue::T_a_varsize) { pull.PullAccumulator(); r = pull.Accumulator(); }
    if (want == StackValue::T_x_varsize) { pull.PullXRegister(); r = pull.XRegister(); }
    if (want == StackValue::T_y_varsize) { pull.PullYRegister(); r = pull.YRegister(); }
    return (it.kind == kAVarUnknown) ? r.type() == RegisterValue::T_unknown : !r.HasValue();
  }
  if (it.n == 0) {  // the size of what is there is not known: nothing may be claimed any more
    es.GetStack().Abandon();
    return true;
  }
  bool ok = true;
  for (int i = 0; i < it.n; i++) ok &= spec::DescribesByte(es.GetStack().PullByte(), it.b[i], s);
  return ok;
}
RegisterValue AnyReg(const char* tag) {
  std::string t = tag;
  int k = sx_range(0, 2, (t + ".k").c_str());
  if (k == 2) return RegisterValue(sx_u16((t + ".v").c_str()));
  return RegisterValue((RegisterValue::Type)k);
}
bool DescribesReg(const RegisterValue& r, uint16_t now, uint16_t entry) {
  return (r.type() == RegisterValue::T_unknown) | ((r.type() == RegisterValue::T_original) & (now == entry)) | (r.HasValue() & (*r == now));
}
void Flags() {
  Cpu s = spec::AnyCpu();
  StatusFlags a = spec::AnyFlags("a"), b = spec::AnyFlags("b"), c = spec::AnyFlags("c");
  if (sx_bool("a.in")) a.SetIncoming();
  if (sx_bool("b.in")) b.SetIncoming();
  StatusFlags ab = a | b;
  CHECK(!(spec::Describes(a, s) | spec::Describes(b, s)) | spec::Describes(ab, s), "flags-sound");
  auto known = [](BitState r, BitState p, BitState q) { return (r >= B_original) | ((r == p) & (r == q)); };
  CHECK(known(ab.EBit(), a.EBit(), b.EBit()) & known(ab.MBit(), a.MBit(), b.MBit()) & known(ab.XBit(), a.XBit(), b.XBit()) &
            known(ab.CBit(), a.CBit(), b.CBit()), "flags-agree");
  // What both know alike is kept: exactly for the carry and mode bits, and for
  // the widths unless the merged mode leaves them open.
  auto kept = [](BitState r, BitState p, BitState q) { return (p != q) | (r == p); };
  CHECK(kept(ab.EBit(), a.EBit(), b.EBit()) & kept(ab.CBit(), a.CBit(), b.CBit()), "flags-kept");
  CHECK(((ab.EBit() != B_off) & (ab.EBit() != a.EBit())) | (kept(ab.MBit(), a.MBit(), b.MBit()) & kept(ab.XBit(), a.XBit(), b.XBit())), "widths-kept");
  CHECK((a | b) == (b | a), "flags-commute");
  CHECK((a | a) == a, "flags-idempotent");
  CHECK(((a | b) | c) == (a | (b | c)), "flags-associate");
  CHECK((ab | a) == ab && (ab | b) == ab, "flags-above");
  StatusFlags t = a;
  t |= b;
  CHECK(t == ab && !(t != ab), "flags-in-place");
  sx_reach("flags");
}
void Registers() {
  RegisterValue a = AnyReg("a"), b = AnyReg("b"), c = AnyReg("c");
  uint16_t now = sx_u16("now"), entry = sx_u16("entry");
  RegisterValue ab = a, ba = b, aa = a, ab_c = a, a_bc = b;
  ab |= b; ba |= a; aa |= a; ab_c |= b; ab_c |= c; a_bc |= c;
  RegisterValue t = a; t |= a_bc;
  CHECK(!(DescribesReg(a, now, entry) | DescribesReg(b, now, entry)) | DescribesReg(ab, now, entry), "register-sound");
  CHECK(ab == ba, "register-commute");
  CHECK(aa == a, "register-idempotent");
  CHECK(ab_c == t, "register-associate");
  sx_reach("register");
}
void Stacks() {
  Cpu s = spec::AnyCpu();
  int na = (int)sx_param("na"), nb = (int)sx_param("nb");
  ExecutionState a, b;
  Item it[2];
  static const char* an[2] = {"a0", "a1"}; static const char* bn[2] = {"b0", "b1"};
  for (int i = 0; i < na; i++) it[i] = Push(a, (int)sx_concretize(sx_range(0, kKinds - 1, i ? "ka1" : "ka0")), an[i], s);
  for (int i = 0; i < nb; i++) Push(b, (int)sx_concretize(sx_range(0, kKinds - 1, i ? "kb1" : "kb0")), bn[i], s);
  if (na + nb == 0) {
    a.Accumulator() = AnyReg("ra"); b.Accumulator() = AnyReg("rb");
    a.XRegister() = AnyReg("xa"); b.XRegister() = AnyReg("xb");
    a.YRegister() = AnyReg("ya"); b.DataBankRegister() = AnyReg("db");
    a.Flags() = StatusFlags(B_off, spec::AnyBit("fa"), B_on, spec::AnyBit("ca")); b.Flags() = StatusFlags(B_off, spec::AnyBit("fb"), B_on, spec::AnyBit("cb"));
  }
  ExecutionState ab = a | b, ba = b | a, aa = a | a;
  CHECK(ab == ba && !(ab != ba), "state-commute");
  CHECK(aa == a, "state-idempotent");
  CHECK((ab | a) == ab && (ab | b) == ab, "state-above");
  CHECK(ab.Flags() == (a.Flags() | b.Flags()), "state-flags");
  RegisterValue ra = a.Accumulator(), rx = a.XRegister(), rd = a.DataBankRegister(), ry = a.YRegister();
  ra |= b.Accumulator(); rx |= b.XRegister(); rd |= b.DataBankRegister(); ry |= b.YRegister();
  CHECK(ab.Accumulator() == ra && ab.XRegister() == rx && ab.DataBankRegister() == rd && ab.YRegister() == ry, "state-registers");
  ExecutionState t = a;
  t |= b;
  CHECK(t == ab, "state-in-place");
  // Whatever is on a's stack is described by the merge.
  for (int i = na - 1; i >= 0; i--) CHECK(Top(ab, it[i], s), "stack-sound");
  sx_reach("stack");
}
void Triples() {
  Cpu s = spec::AnyCpu();
  ExecutionState v[3];
  static const char* n[3] = {"a0", "b0", "c0"}; static const char* k[3] = {"ka", "kb", "kc"};
  for (int i = 0; i < 3; i++)
    if (sx_param("n") >> i & 1) Push(v[i], (int)sx_concretize(sx_range(0, kDbr, k[i])), n[i], s);
  CHECK(((v[0] | v[1]) | v[2]) == (v[0] | (v[1] | v[2])), "state-associate");
  sx_reach("triple");
}
}  // namespace
extern "C" void harness() {
  switch (sx_param("part")) {
    case 0: Flags(); break;
    case 1: Registers(); break;
    case 2: Stacks(); break;
    case 3: Triples(); break;
  }
}
