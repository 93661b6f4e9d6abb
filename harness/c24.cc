// C24: one instruction takes a true description of the processor to a true
// description, whatever the description, the machine state and the operand.
#include "nsasm/instruction.h"
#include "nsasm/opcode_map.h"
#include "asmenv.h"
#include "spec_cpu.h"
using namespace nsasm;
using spec::Cpu;
namespace {
enum Kind { kByte, kUnknown, kFlags, kAVar, kXVar, kYVar, kKinds };
constexpr int kMax = 12;
// The bytes a machine has on its stack, the top first. Past the end: anything.
struct Bytes {
  uint8_t b[kMax];
  int n = 0;
  void Push(uint8_t v) {
    for (int i = n; i > 0; i--) b[i] = b[i - 1];
    b[0] = v;
    n++;
  }
  uint8_t Pull() {
    if (n == 0) return sx_u8("deep");
    uint8_t r = b[0];
    n--;
    for (int i = 0; i < n; i++) b[i] = b[i + 1];
    return r;
  }
};
uint8_t Any() { return sx_u8("any"); }
// Pushes one tracked item; the machine's matching bytes go on `st`.
void PushItem(ExecutionState& es, Bytes& st, int kind, const Cpu& s) {
  StatusFlags same(B_original, B_original, B_original);
  Stack& a = es.GetStack();
  switch (kind) {
    case kByte: a.PushByte(Any()); st.Push(Any()); break;
    case kUnknown: a.PushUnknownByte(); st.Push(Any()); break;
    case kFlags: {
      StatusFlags f = sx_param("depth") + !sx_param("group") == 1 ? spec::AnyFlags("pushed") : StatusFlags(B_off, spec::AnyBit("pushed.m"), spec::AnyBit("pushed.x"), spec::AnyBit("pushed.c"));
      uint8_t p = Any();
      sx_assume(spec::DescribesByte(f, p, s));
      a.PushFlags(f);
      st.Push(p);
      break;
    }
    case kAVar: a.PushA(RegisterValue(), same); st.Push(Any()); if (!s.m0) st.Push(Any()); break;
    case kXVar: a.PushX(RegisterValue(), same); st.Push(Any()); if (!s.x0) st.Push(Any()); break;
    case kYVar: a.PushY(RegisterValue(), same); st.Push(Any()); if (!s.x0) st.Push(Any()); break;
  }
}
// Whether every saved flags byte `es` believes in is where it says.
bool StackTrue(const ExecutionState& es, Bytes st, const Cpu& s) {
  Stack a = es.GetStack();
  bool ok = true;
  for (int i = 0; i < 8; i++) {
    Stack var = a;
    StackValue v = var.PullVarsize();
    if (v.IsVarSize()) {
      bool narrow = v.type() == StackValue::T_a_varsize ? s.m0 : s.x0;
      st.Pull();
      if (!narrow) st.Pull();
      a = var;
      continue;
    }
    v = a.PullByte();
    uint8_t p = st.Pull();
    if (v.type() == StackValue::T_flags) ok &= spec::DescribesByte(v.flags(), p, s);
  }
  return ok;
}
// The processor, as far as the flags and the stack go.
void Machine(const Instruction& ins, int arg, Cpu& s, Bytes& st, bool taken) {
  Mnemonic m = ins.mnemonic;
  auto push = [&](int n) { for (int i = 0; i < n; i++) st.Push(Any()); };
  auto pull = [&](int n) { for (int i = 0; i < n; i++) st.Pull(); };
  switch (m) {
    case M_clc: s.c = false; break;
    case M_sec: s.c = true; break;
    case M_bcc: sx_assume(s.c == !taken); break;
    case M_bcs: sx_assume(s.c == taken); break;
    case M_rep: case M_sep: {
      bool to = m == M_sep;
      if (arg & 1) s.c = to;
      if (!s.e && (arg & 0x10)) s.x = to;
      if (!s.e && (arg & 0x20)) s.m = to;
      break;
    }
    case M_adc: case M_sbc: case PM_add: case PM_sub: case M_asl: case M_lsr: case M_rol: case M_ror: case M_cmp: case M_cpx: case M_cpy:
      s.c = sx_bool("carry");
      break;
    case M_xce: {
      bool t = s.c;
      s.c = s.e;
      s.e = t;
      s.m |= s.e;
      s.x |= s.e;
      break;
    }
    case M_pha: push(s.m ? 1 : 2); break;
    case M_phx: case M_phy: push(s.x ? 1 : 2); break;
    case M_pla: pull(s.m ? 1 : 2); break;
    case M_plx: case M_ply: pull(s.x ? 1 : 2); break;
    case M_phb: case M_phk: push(1); break;
    case M_phd: case M_pea: case M_pei: case M_per: push(2); break;
    case M_plb: pull(1); break;
    case M_pld: pull(2); break;
    case M_php: st.Push((Any() & 0xce) | (s.c ? 1 : 0) | (s.x ? 0x10 : 0) | (s.m ? 0x20 : 0)); break;
    case M_plp: {
      uint8_t p = st.Pull();
      s.c = p & 1;
      s.x = s.e | (p >> 4 & 1);
      s.m = s.e | (p >> 5 & 1);
      break;
    }
    case M_tcs: case M_txs: st.n = 0; break;  // the stack is somewhere else now
    case M_sta:
      if (ins.addressing_mode == A_stk)
        for (int i = 0; i < st.n; i++) {
          bool hit = ((arg & 0xff) == i + 1) | (!s.m & ((arg & 0xff) == i));
          st.b[i] = (uint8_t)sx_ite(hit, Any(), st.b[i]);
        }
      break;
    case M_jsr: case M_jsl: case M_brk: case M_cop: {
      // The routine called keeps to its declared convention.
      auto y = ins.return_convention.YieldFlags();
      s.c = sx_bool("carry");
      if (y.has_value()) {
        s.e = sx_bool("e'"); s.m = sx_bool("m'"); s.x = sx_bool("x'");
        sx_assume(!s.e | (s.m & s.x));
        sx_assume(spec::Bit(y->EBit(), s.e, s.e0) & spec::Bit(y->MBit(), s.m, s.m0) & spec::Bit(y->XBit(), s.x, s.x0));
      }
      break;
    }
    default: break;
  }
}
void Start() {
  Cpu s = spec::AnyCpu();
  s.q = s.e0;
  sx_assume((s.e == s.e0) & (s.m == s.m0) & (s.x == s.x0));
  StatusFlags f = spec::AnyFlags("f");
  sx_assume((f.EBit() != B_original) & (f.MBit() != B_original) & (f.XBit() != B_original) & (f.CBit() != B_original));
  sx_assume(spec::Describes(f, s));
  ExecutionState es(f);
  CHECK(spec::Describes(es.Flags(), s), "start");
  CHECK((f.EBit() == B_unknown) | (es.Flags().EBit() == f.EBit()), "start-mode");
  sx_reach("start");
}
}  // namespace
extern "C" void harness() {
  int depth = (int)sx_param("depth"), group = (int)sx_param("group");
  if (depth < 0 || group == 9) return Start();
  Cpu s = spec::AnyCpu();
  s.q = s.e0;  // a carry "as at entry" holds what the mode bit was
  ExecutionState es;
  StatusFlags f = spec::AnyFlags("f");
  sx_assume(spec::Describes(f, s));
  es.Flags() = f;
  Bytes st;
  static const char* kinds[3] = {"k0", "k1", "k2"};
  for (int i = depth - 1; i >= 0; i--) {
    int k = i == 0 ? (int)sx_param("top") : (int)sx_concretize(sx_range(0, kKinds - 1, kinds[i]));
    PushItem(es, st, k, s);
  }
  Instruction ins;
  ins.mnemonic = (Mnemonic)sx_range(M_adc, PM_sub, "mnemonic");
  ins.suffix = S_none;
  ins.addressing_mode = (AddressingMode)sx_range(A_imp, A_imm_fx, "mode");
  bool stacky = ((ins.mnemonic >= M_pea) & (ins.mnemonic <= M_ply)) | (ins.mnemonic == M_tcs) | (ins.mnemonic == M_txs) | (ins.mnemonic == M_sta) | (ins.mnemonic == M_xce);
  if (group == 1) sx_assume(stacky);
  int arg = sx_int("operand");
  bool known = sx_bool("operand_known");
  if (known) ins.arg1 = absl::make_unique<Literal>(arg);
  else ins.arg1 = absl::make_unique<IdentifierExpression>(FullIdentifier("name"));
  ins.arg2 = absl::make_unique<Literal>(sx_int("operand2"));
  if (group == 0) {
    int conv = sx_range(0, 2, "convention");
    if (conv == 1) {
      StatusFlags y = spec::AnyFlags("yields");
      sx_assume((y.EBit() != B_original) & (y.MBit() != B_original) & (y.XBit() != B_original));
      ins.return_convention = ReturnConvention(y);
    } else if (conv == 2) ins.return_convention = ReturnConvention(NoReturn());
  }
  bool branch = group == 0 && sx_bool("branch");
  if (branch) {
    sx_assume(ins.IsLocalBranch());
    if (!ins.ExecuteBranch(&es).ok()) { sx_reach("refused"); return; }
  } else {
    bool again = false;
    if (!ins.Execute(&es, absl::nullopt, NullLookupContext(), &again).ok()) { sx_reach("refused"); return; }
    if (ins.IsExitInstruction()) { sx_reach("exit"); return; }
  }
  Machine(ins, arg, s, st, branch);
  CHECK(spec::Describes(es.Flags(), s), "flags");
  CHECK(StackTrue(es, st, s), "saved-flags");
  sx_reach(branch ? "branched" : "stepped");
}
