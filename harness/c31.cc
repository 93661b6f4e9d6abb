// C31: disassembly describes the bytes, on every path, and assembles to them.
#include "nsasm/assembler.h"
#include "nsasm/disassemble.h"
#include "spec_machine.h"
#include "spec_cpu.h"
using namespace nsasm;
using namespace spec;
namespace {
constexpr int kMem = 40;
struct Sink : OutputSink {
  std::vector<W> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    W x = {(int)(a.Bank() << 16 | a.BankAddress()), (int)d.size(), {}};
    CHECK(d.size() <= 5, "write-size");
    for (size_t i = 0; i < d.size() && i < 5; i++) x.b[i] = d[i];
    w.push_back(x);
    return {};
  }
};
// The memory: the program's bytes at its base, RTS (or nothing) elsewhere.
struct Memory : InputSource {
  int base = 0, size = 0;
  bool all = true;
  uint8_t b[kMem];
  bool In(int a) const { return a >= base && a < base + size; }
  uint8_t At(int a) const { return In(a) ? b[a - base] : 0x60; }
  std::string Path() const override { return "memory"; }
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    std::vector<uint8_t> r;
    for (int i = 0; i < n; i++) {
      Address x = a.AddWrapped(i);
      int v = x.Bank() << 16 | x.BankAddress();
      if (!all && !In(v)) return Error("nothing there");
      r.push_back(At(v));
    }
    return r;
  }
};
// Pieces of code. 0x100: any byte; 0x101: a branch offset to a nearby piece.
constexpr int kAny = 0x100, kTo = 0x101;
using Piece = std::vector<int>;
std::vector<Piece> Menu(int f) {
  switch (f) {
    case 0: return {{0xc2, 0x30}, {0xe2, 0x20}, {0xa9, kAny, 0xea}, {0xd0, kTo}, {0x80, kTo}, {0x60}};                 // widths
    case 1: return {{0x18}, {0x38}, {0xfb}, {0xa9, kAny}, {0x69, kAny}, {0xe9, kAny}, {0x90, kTo}};                     // carry, folding
    case 2: return {{0x08}, {0x28}, {0xc2, 0x20}, {0xa9, kAny}, {0xb0, kTo}, {0x48}, {0x68}};                           // stack
    case 3: return {{0x20, 0x00, 0x90}, {0x22, 0x00, 0x80, 0x01}, {0x4c, 0x00, 0x80}, {0xa2, kAny}, {0xe2, 0x30}, {0xf0, kTo}};  // calls
    case 4: return {{0x62, kAny, 0x00}, {0x82, kTo, 0x00}, {0x54, kAny, 1}, {0x00, kAny}, {0xdc, 0x00, kAny}, {0xfc, kAny, kAny}, {0x10, kTo}};
    case 5: return {{0x85, kAny}, {0x9d, kAny, kAny}, {0xbf, kAny, kAny, kAny}, {0x93, kAny}, {0xb7, kAny}, {0x0a}, {0xaa}, {0xd0, kTo}, {0xe2, 0x30}};
    case 7: return {{0xa9, kAny}, {0xa0, kAny}, {0x85, kAny}, {0x20, 0x00, 0x90}, {0xd0, kTo}, {0x82, kTo, 0x00}, {0x60}};  // nothing changes a width
    default: return {{0x18}, {0x69, 0x18}, {0x69, 0x38}, {0xe9, 0x18}, {0x38}, {0xd0, kTo}, {0xa9, 0x18}};             // code within code
  }
}
struct Labels : LookupContext {
  const DisassemblyMap& map;
  explicit Labels(const DisassemblyMap& m) : map(m) {}
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    for (auto& n : map)
      if (n.second.label == id.Identifier()) return (int)(n.first.Bank() << 16 | n.first.BankAddress());
    return Error("no such label");
  }
};
uint8_t Operand() {
  return sx_param("text") ? (uint8_t)(0x80 + sx_range(0, 9, "digit")) : sx_u8("byte");  // spelled with digits only: C34 has the rest
}
struct Run {
  int start = 0, entry = 0;
  bool ok = false;
};
// Follows every path, without looking at conditions. True if the widths are the same
// known ones whenever an address is reached, and nothing is read that is not
// there: then there is no reason to refuse.
struct Known {
  bool e, m, x;
  bool operator!=(const Known& o) const { return e != o.e || m != o.m || x != o.x; }
};
bool Plain(const Memory& memory, int start, Known in, int conv, std::map<int, Known>* at) {
  std::vector<std::pair<int, Known>> work = {{start, in}};
  while (!work.empty()) {
    int pc = work.back().first;
    Known k = work.back().second;
    work.pop_back();
    auto been = at->find(pc);
    if (been != at->end()) {
      if (been->second != k) return false;
      continue;
    }
    (*at)[pc] = k;
    auto in_bank = [&](int d) { return (pc & 0xff0000) | ((pc + d) & 0xffff); };
    if (!memory.all && !memory.In(pc)) return false;
    auto op = kTable.op[memory.At(pc)];
    int size = 1 + kSizes.n[Settled(op.a, k.m, k.x)];
    for (int i = 1; i < size; i++)
      if (!memory.all && !memory.In(in_bank(i))) return false;
    int lo = memory.At(in_bank(1)), hi = memory.At(in_bank(2));
    if (op.m == M_plp || op.m == M_rti || op.m == M_xce || op.m == M_brk || op.m == M_cop || op.m == M_stp) return false;
    if (op.m == M_rep || op.m == M_sep) {
      if (k.e) return false;
      if (lo & 0x20) k.m = op.m == M_sep;
      if (lo & 0x10) k.x = op.m == M_sep;
    }
    if (op.m == M_rts || op.m == M_rtl || op.m == M_jmp) continue;
    bool conventional = op.m == M_jsr && op.a == A_dir_w && (lo | hi << 8) == 0x9000;
    if (conventional && conv == 2) continue;
    if (conventional && conv == 1) k = {false, false, true};
    if (op.a == A_rel8) work.push_back({in_bank(2 + (int8_t)lo), k});
    if (op.a == A_rel16 && op.m != M_per) work.push_back({in_bank(3 + (lo | hi << 8)), k});
    if (op.m != M_bra && op.m != M_brl) work.push_back({in_bank(size), k});
  }
  return true;
}
std::string Six(int v) {
  std::string s = "$";
  for (int i = 20; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15];
  return s;
}
}  // namespace
extern "C" void harness() {
  {
    Sink none;
    CHECK(Assemble({MakeFakeFile("warm", ".org $8000\n.entry m8x8\np: lda.b #1\nbne p\njsr p yields m8x8\njmp p\n")}, &none).ok(), "warm");
  }
  auto mem = std::make_unique<Memory>();
  Memory& memory = *mem;
  memory.base = (int)sx_param("base");
  memory.all = sx_param("all");
  auto menu = Menu((int)sx_param("menu"));
  int n = (int)sx_param("n"), size = 0;
  static const char* names[] = {"l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7"};
  static const char* tos[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7"};
  std::vector<int> starts, hole;
  for (int i = 0; i < n; i++) {
    int k = (int)sx_concretize((uint64_t)sx_range(0, (int)menu.size() - 1, names[i]));
    starts.push_back(size);
    for (int v : menu[k]) {
      if (v == kTo) hole.push_back(size);
      memory.b[size++] = v == kAny ? Operand() : (uint8_t)v;
    }
  }
  starts.push_back(size);
  memory.size = size;
  for (size_t h = 0; h < hole.size(); h++) {
    int to = starts[sx_concretize((uint64_t)sx_range(0, n, tos[h]))] + (sx_param("inside") && sx_concretize((uint64_t)sx_range(0, 1, "inside_of")) ? 1 : 0);
    bool wide = memory.b[hole[h] - 1] == 0x82;
    int d = to - (hole[h] + (wide ? 2 : 1));
    memory.b[hole[h]] = (uint8_t)d;
    if (wide) memory.b[hole[h] + 1] = (uint8_t)(d >> 8);
  }
  Disassembler dis(std::move(mem));
  int conv = (int)sx_param("conv");
  if (conv == 1) dis.AddTargetReturnConventions({{Address(memory.base & 0xff0000 | 0x9000), ReturnConvention(*StatusFlags::FromName("m16x8"))}});
  if (conv == 2) dis.AddTargetReturnConventions({{Address(memory.base & 0xff0000 | 0x9000), ReturnConvention(NoReturn())}});
  std::vector<Run> runs(1);
  runs[0].start = memory.base;
  runs[0].entry = (int)sx_param("entry");
  if ((int)sx_param("second") < 9) {
    runs.push_back({memory.base + starts[sx_concretize((uint64_t)sx_range(0, n - 1, "second_at"))], (int)sx_param("second")});
  }
  std::map<Address, StatusFlags> far;
  bool any = false, plain = true;  // all accepted so far were plain
  std::map<int, Known> known;
  for (auto& r : runs) {
    auto got = dis.Disassemble(Address(r.start), *StatusFlags::FromName(kEntries[r.entry].text));
    r.ok = got.ok();
    auto& e = kEntries[r.entry];
    if (plain) {
      auto followed = known;
      bool must = e.m < 2 && Plain(memory, r.start, {e.e == 1, e.m == 1, e.x == 1}, conv, &followed);
      CHECK(r.ok | !must, "refused-needlessly");
      if (must) sx_reach("plain");
      if (r.ok) known = followed, plain = must;
    }
    if (!got.ok()) continue;
    any = true;
    for (auto& t : *got) {
      auto it = far.find(t.first);
      if (it == far.end()) far[t.first] = t.second;
      else it->second |= t.second;
    }
  }
  if (!any) {
    CHECK(dis.Result().empty(), "nothing");
    sx_reach("refused");
    return;
  }
  auto& result = dis.Result();
  // Run the code from an entry; what is executed is what is listed.
  auto& run = runs[runs.size() > 1 ? sx_concretize((uint64_t)sx_range(0, 1, "run")) : 0];
  if (run.ok) {
    Machine s;
    spec::Cpu c = spec::AnyCpu();
    auto& at = kEntries[run.entry];
    sx_assume((at.e == 2) | (c.e0 == (at.e == 1)));
    sx_assume((at.m == 2) | (c.m0 == (at.m == 1)));
    sx_assume((at.x == 2) | (c.x0 == (at.x == 1)));
    c.q = c.e0;
    s.e = c.e0; s.m = c.m0; s.x = c.x0; s.c = c.c;
    int pc = run.start;
    int steps = (int)sx_param("steps");
    std::vector<std::pair<int, Machine>> been;
    for (int i = 0; i < steps && pc >= 0; i++) {
      for (auto& b : been) {
        if (b.first != pc || b.second.st.size() != s.st.size()) continue;
        bool same = (b.second.e == s.e) & (b.second.m == s.m) & (b.second.x == s.x) & (b.second.c == s.c);
        for (size_t k = 0; k < s.st.size(); k++) same &= b.second.st[k] == s.st[k];
        sx_assume(!same);
      }
      been.push_back({pc, s});
      auto it = result.find(Address(pc));
      CHECK(it != result.end(), "reached");
      if (it == result.end()) return;
      const DisassembledInstruction& d = it->second;
      const Instruction& ins = d.instruction;
      W w = {pc, ins.SerializedSize(), {}};
      for (int k = 0; k < 4; k++) w.b[k] = memory.At((pc & 0xff0000) | ((pc + k) & 0xffff));
      auto op = kTable.op[w.b[0]];
      CHECK(ins.mnemonic == op.m, "mnemonic");
      CHECK(ins.addressing_mode == Settled(op.a, s.m, s.x), "mode");
      c.e = s.e; c.m = s.m; c.x = s.x; c.c = s.c;
      CHECK(Describes(d.current_execution_state.Flags(), c), "flags");
      int width = kWidths.w[op.m];
      bool known = width != kFixed && ((width == kWidthM ? d.current_execution_state.Flags().MBit() : d.current_execution_state.Flags().XBit()) < B_original);
      CHECK(ins.suffix == (!known ? S_none : (width == kWidthM ? s.m : s.x) ? S_b : S_w), "suffix");
      int far_target = op.m == M_jsl || (op.m == M_jmp && op.a == A_dir_l) ? w.b[1] | w.b[2] << 8 | w.b[3] << 16
                       : (op.m == M_jsr || op.m == M_jmp) && op.a == A_dir_w ? (pc & 0xff0000) | w.b[1] | w.b[2] << 8 : -1;
      if (far_target >= 0) {
        auto f = far.find(Address(far_target));
        CHECK(f != far.end(), "far");
        spec::Cpu j = c;
        if (f != far.end()) CHECK(Describes(f->second, j), "far-flags");
      }
      pc = Step(s, w);
      if (far_target == ((memory.base & 0xff0000) | 0x9000) && op.m != M_jmp) {
        CHECK(conv == 1 ? ins.return_convention.YieldFlags().has_value() : conv == 2 ? ins.return_convention.IsExitCall() : ins.return_convention.IsDefault(), "convention");
        if (conv == 1) { s.e = false; s.m = false; s.x = true; }
        if (conv == 2) pc = -1;
      }
      if (op.m == M_jsr || op.m == M_jsl) s.c = sx_bool("carry");
      if (op.a == A_rel8 || (op.a == A_rel16 && op.m != M_per)) {
        int to = (w.at & 0xff0000) | ((w.at + w.size + (op.a == A_rel8 ? (int8_t)w.b[1] : (w.b[1] | w.b[2] << 8))) & 0xffff);
        auto l = result.find(Address(to));
        CHECK(l != result.end() && !l->second.label.empty() && l->second.label == ins.arg1.ToString(), "label");
      }
    }
    sx_reach(pc < 0 ? "returned" : "cut");
  }
  // Each instruction by itself is the bytes it covers.
  CHECK(dis.Cleanup().ok(), "cleanup");
  Labels labels(result);
  for (auto& node : result) {
    Sink one;
    int a = node.first.Bank() << 16 | node.first.BankAddress();
    auto& ins = node.second.instruction;
    if ((ins.addressing_mode == A_rel8 || ins.addressing_mode == A_rel16) && ins.mnemonic != M_per) {
      // A branch names its target; the offset is that of the label.
      auto op = kTable.op[memory.At(a)];
      CHECK(op.m == ins.mnemonic && op.a == ins.addressing_mode, "branch-one");
      int size = op.a == A_rel8 ? 2 : 3, lo = memory.At((a & 0xff0000) | ((a + 1) & 0xffff)), hi = memory.At((a & 0xff0000) | ((a + 2) & 0xffff));
      int to = (a & 0xff0000) | ((a + size + (size == 2 ? (int8_t)lo : lo | hi << 8)) & 0xffff);
      auto l = result.find(Address(to));
      CHECK(l != result.end() && !l->second.label.empty() && l->second.label == ins.arg1.ToString(), "label-one");
      for (auto& other : result) CHECK(other.first == node.first || other.second.label.empty() || other.second.label != node.second.label, "label-twice");
      continue;
    }
    CHECK(ins.Assemble(node.first, labels, &one).ok() && one.w.size() == 1, "assemble-one");
    for (auto& w : one.w) {
      CHECK(w.at == a && w.size == ins.SerializedSize(), "size-one");
      for (int i = 0; i < w.size; i++) CHECK(w.b[i] == memory.At((a & 0xff0000) | ((a + i) & 0xffff)), "bytes-one");
    }
  }
  if (!sx_param("text")) return;
  // The listing, assembled again.
  bool fits = true;
  std::string text;
  int pc = -1, bytes = 0;
  for (auto& node : result) {
    auto& d = node.second;
    int a = node.first.Bank() << 16 | node.first.BankAddress(), len = d.instruction.SerializedSize();
    if (a < pc) fits = false;                                   // code within code
    if ((a & 0xffff) + len > 0xffff) fits = false;              // around the end of a bank
    // No name says "either mode, 8-bit registers".
    auto f = d.current_execution_state.Flags();
    if (d.is_entry && f.EBit() >= B_original && ((f.MBit() < B_original) | (f.XBit() < B_original))) fits = false;
    if (a != pc) text += ".org " + Six(a) + "\n";
    if (!d.label.empty()) text += d.label + ": ";
    if (d.is_entry) text += ".entry " + d.current_execution_state.Flags().ToString() + "\n";
    text += d.instruction.ToString() + "\n";
    pc = a + len;
    bytes += len;
  }
  for (auto& r : runs) {
    auto it = result.find(Address(r.start));
    if (r.ok) CHECK(it != result.end() && it->second.is_entry && !it->second.label.empty(), "entry");
  }
  if (!fits) {
    sx_reach("no-listing");
    return;
  }
  Sink sink;
  auto again = Assemble({MakeFakeFile("listing", text)}, &sink);
  CHECK(again.ok(), "assembles");
  if (!again.ok()) return;
  int wrote = 0;
  for (auto& w : sink.w) {
    wrote += w.size;
    for (int i = 0; i < w.size; i++) CHECK(w.b[i] == memory.At(w.at + i), "bytes");
  }
  CHECK(wrote == bytes, "all");
  sx_reach("again");
}
