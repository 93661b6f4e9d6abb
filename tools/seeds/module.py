PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "nsasm/assembler.h"
#include "nsasm/decode.h"
#include "nsasm/disassemble.h"
#include "nsasm/opcode_map.h"
#include "nsasm/parse.h"
#include "nsasm/token.h"
extern "C" void sx_stdout(const char*, size_t) {}
using namespace nsasm;
#define EXPECT(c) do { if (!(c)) { printf("demo: %s fails\n", #c); exit(1); } } while (0)
struct Out : OutputSink {
  std::map<int, int> b;
  ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    for (size_t i = 0; i < d.size(); i++) {
      auto x = a.AddWrapped((int)i);
      b[x.Bank() * 65536 + x.BankAddress()] = d[i];
    }
    return {};
  }
};
// The bytes of a program as hex, or "error".
std::string Asm(std::vector<std::string> files) {
  Out out;
  std::vector<File> f;
  for (auto& t : files) f.push_back(MakeFakeFile("file", t));
  auto r = Assemble(f, &out);
  if (!r.ok()) return "error";
  std::string s;
  for (auto& b : out.b) { char c[4]; snprintf(c, 4, "%02x", b.second); s += c; }
  return s;
}
struct Mem : InputSource {
  std::vector<uint8_t> b;
  std::string Path() const override { return "mem"; }
  ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override {
    std::vector<uint8_t> r;
    for (int i = 0; i < n; i++) {
      auto x = a.AddWrapped(i);
      int v = x.BankAddress() - 0x8000;
      r.push_back(v >= 0 && v < (int)b.size() ? b[v] : 0x60);
    }
    return r;
  }
};
'''
ALL = ["nsasm/" + s + ".cc" for s in "addressing_mode assembler calling_convention decode directive disassemble error execution_state expression file instruction memory mnemonic module opcode_map parse ranges statement token".split()]
def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, srcs=ALL, demo=PRE + demo, shim=True)

seed("c20-long-indirect-length", "C20",
     [("nsasm/addressing_mode.cc", "      a == A_ind_b || a == A_ind_bx || a == A_ind_by || a == A_lng_b ||\n      a == A_lng_by || a == A_stk || a == A_stk_y || a == A_rel8) {", "      a == A_ind_b || a == A_ind_bx || a == A_ind_by || a == A_lng_b ||\n      a == A_stk || a == A_stk_y || a == A_rel8) {"),
      ("nsasm/addressing_mode.cc", "      a == A_ind_w || a == A_ind_wx || a == A_lng_w || a == A_mov ||\n", "      a == A_ind_w || a == A_ind_wx || a == A_lng_w || a == A_lng_by || a == A_mov ||\n")],
     "an instruction addressed as [dp],y", "[dp],y instructions are given 3 bytes", r'''
int main() {
  EXPECT(InstructionLength(A_lng_by) == 2);
  EXPECT(Asm({".org $8000\n.entry m8x8\nlda [$12],y\nl: rts\n.dw l\n"}) == "b712600280");
}
''')
seed("c21-short-move", "C21",
     [("nsasm/decode.cc", "    // pair of 8 bit arguments\n    if (bytes.size() < 2) {", "    // pair of 8 bit arguments\n    if (bytes.size() < 1) {")],
     "mvn or mvp as the last two bytes available", "the second operand is read past the end of the bytes given", r'''
int main() {
  StatusFlags f(B_off, B_on, B_on);
  uint8_t b[3] = {0x54, 1, 2};
  EXPECT(!Decode(absl::MakeConstSpan(b, 2), f).ok());
  EXPECT(Decode(absl::MakeConstSpan(b, 3), f).ok());
}
''')
seed("c22-suffix-add", "C22",
     [("nsasm/instruction.cc", "    if (state == B_off && suffix == S_b) {", "    if (state == B_off && suffix == S_b && mnemonic != PM_add && mnemonic != PM_sub) {")],
     "add.b or sub.b with a 16-bit accumulator", "the suffix is ignored and the wrong width assembled", r'''
int main() {
  EXPECT(Asm({".org $8000\n.entry m16x16\nadd.b #1\nrts\n"}) == "error");
  EXPECT(Asm({".org $8000\n.entry m16x16\nadd.w #1\nrts\n"}) == "1869010060");
  EXPECT(Asm({".org $8000\n.entry m16x16\nadc.b #1\nrts\n"}) == "error");
}
''')
seed("c23-one-too-far", "C23",
     [("nsasm/instruction.cc", "    if (*offset > 127 || *offset < -128) {", "    if (*offset > 128 || *offset < -128) {")],
     "a branch over exactly 128 bytes", "the branch goes backwards instead of being refused", r'''
int main() {
  std::string s = ".org $8000\n.entry m8x8\nbne far\n";
  for (int i = 0; i < 127; i++) s += "nop\n";
  EXPECT(Asm({s + "far: rts\n"}) != "error");
  EXPECT(Asm({s + "nop\nfar: rts\n"}) == "error");
}
''')
seed("c24-sep-carry", "C24",
     [("nsasm/instruction.cc", "    if (*arg & 0x01) {\n      es->Flags().SetCBit(target);\n    }\n    if (*arg & 0x10) {", "    if (*arg == 0x01) {\n      es->Flags().SetCBit(target);\n    }\n    if (*arg & 0x10) {")],
     "sep or rep with the carry among other flags, before xce", "the tracked carry is stale, so the mode after xce is wrong", r'''
int main() {
  EXPECT(Asm({".org $8000\n.entry emu\nclc\nsep #$31\nxce\nrep #$20\nlda.w #1\nrts\n"}) == "error");
  EXPECT(Asm({".org $8000\n.entry emu\nclc\nxce\nrep #$20\nlda.w #1\nrts\n"}) == "18fbc220a9010060");
}
''')
seed("c25-stacked-flags", "C25",
     [("nsasm/execution_state.h", "    } else if (type_ == T_flags) {\n      flags_ |= rhs.flags_;\n    } else if", "    } else if (type_ == T_flags) {\n      if (flags_.MBit() != rhs.flags_.MBit()) flags_ |= rhs.flags_;\n    } else if")],
     "two paths that push flags differing in the index width only and join before plp", "the index width of one path is taken for both", r'''
int main() {
  EXPECT(Asm({".org $8000\n.entry m8x8\nbne o\nrep #$10\nphp\nbra j\no: php\nj: plp\nldx.b #1\nrts\n"}) == "error");
  ExecutionState a(StatusFlags(B_off, B_on, B_on)), b(StatusFlags(B_off, B_on, B_off));
  a.PushFlags();
  b.PushFlags();
  auto c = a | b;
  c.PullFlags();
  EXPECT(c.Flags().XBit() == B_unknown && c.Flags().MBit() == B_on);
}
''')
seed("c26-m1", "C26",
     [("nsasm/execution_state.cc", "  } else if (c1 == '1' && sv->size() > 1 && (*sv)[1] == '6') {", "  } else if (c1 == '1' && sv->size() > 1) {")],
     "a name like m18 or x1x", "names that are no modes are taken for 16-bit ones", r'''
int main() {
  EXPECT(!StatusFlags::FromName("m18").has_value());
  EXPECT(!StatusFlags::FromName("m8x12").has_value());
  EXPECT(StatusFlags::FromName("m16x8").has_value());
}
''')
seed("c27-plus-at-end", "C27",
     [("nsasm/token.cc", "    if (sv.size() >= 3) {\n      std::string_view next = sv.substr(0, 3);", "    if (sv.size() > 3) {\n      std::string_view next = sv.substr(0, 3);")],
     "a line that ends in +++ or ---", "the last three signs are split into two tokens", r'''
int main() {
  auto t = Tokenize("bra +++", Location());
  EXPECT(t.ok() && t->size() == 3 && (*t)[1] == P_plusplusplus);
  t = Tokenize("+++ nop", Location());
  EXPECT(t.ok() && t->size() == 3 && (*t)[0] == P_plusplusplus);
}
''')
seed("c28-after-instruction", "C28",
     [("nsasm/parse.cc", "    NSASM_RETURN_IF_ERROR(instruction);\n    if (!AtEnd(&tokens)) {\n      return Error(\n          \"logic error: ParseInstruction() did not read to a line end\");\n    }\n", "    NSASM_RETURN_IF_ERROR(instruction);\n")],
     "something after noreturn or a yields mode on a line", "the token after the return convention is dropped", r'''
int main() {
  EXPECT(Asm({".org $8000\n.entry m8x8\njsr $9000 yields m8x8 nop\nrts\n"}) == "error");
  EXPECT(Asm({".org $8000\n.entry m8x8\njsr $9000 yields m8x8 : nop\nrts\n"}) == "200090ea60");
}
''')
seed("c29-unary-term", "C29",
     [("nsasm/parse.cc", "    pos->remove_prefix(1);\n    auto arg = Factor(pos);\n    NSASM_RETURN_IF_ERROR(arg);\n    return {absl::make_unique<UnaryExpression>", "    pos->remove_prefix(1);\n    auto arg = Term(pos);\n    NSASM_RETURN_IF_ERROR(arg);\n    return {absl::make_unique<UnaryExpression>")],
     "a byte selection of the first operand of a product", "> applies to the product", r'''
int main() {
  auto e = ParseExpression(">$0180*2");
  EXPECT(e.ok() && *e->Evaluate(NullLookupContext()) == 2);
  e = ParseExpression("-6/2");
  EXPECT(e.ok() && *e->Evaluate(NullLookupContext()) == -3);
}
''')
seed("c30-qualified-inner", "C30",
     [("nsasm/module.cc", "      if (id.Module() == module_->module_name_) {\n        auto li = module_->LocalIndex(id.Identifier(), {});", "      if (id.Module() == module_->module_name_) {\n        auto li = module_->LocalIndex(id.Identifier(), active_scopes_);")],
     "a name qualified with its own module's name, used in a scope that has a local of that name", "the local is used instead of the module's name", r'''
int main() {
  EXPECT(Asm({".module m\nv .equ 1\n.org $8000\n{\nv .equ 2\n.db v, m::v\n}\n.db v\n"}) == "020101");
}
''')
seed("c30-second-file-silent", "C30",
     [("nsasm/assembler.cc", "    if (!memory_module_map_.Insert(module->OwnedBytes(), module)) {", "    if (!module->Name().empty() && !memory_module_map_.Insert(module->OwnedBytes(), module)) {")],
     "a file without .module that writes where another file did", "the overlap is not reported", r'''
int main() {
  EXPECT(Asm({".org $8000\n.db 1\n", ".org $8000\n.db 2\n"}) == "error");
  EXPECT(Asm({".org $8000\n.db 1\n", ".org $8001\n.db 2\n"}) == "0102");
  Out out;
  auto a = Assemble({MakeFakeFile("f", ".org $8000\n.db 1\n")}, &out);
  EXPECT(a.ok() && a->Contains(nsasm::Address(0x8000)));
}
''')
seed("c31-fold-label", "C31",
     [("nsasm/disassemble.cc", "        next_iter->second.instruction.mnemonic == M_sbc &&\n        next_iter->second.label.empty()) {", "        next_iter->second.instruction.mnemonic == M_sbc) {")],
     "a branch to the SBC that follows a SEC", "the SBC is folded away with its label", r'''
int main() {
  auto m = std::make_unique<Mem>();
  m->b = {0xd0, 0x01, 0x38, 0xe9, 0x01, 0x60};  // bne l; sec; l: sbc #1; rts
  Disassembler d(std::move(m));
  EXPECT(d.Disassemble(nsasm::Address(0x8000), StatusFlags(B_off, B_on, B_on)).ok());
  EXPECT(d.Cleanup().ok());
  EXPECT(d.Result().count(nsasm::Address(0x8003)) == 1);
}
''')
seed("c31-far-revisit", "C31",
     [("nsasm/disassemble.cc", "        if (!di.instruction.IsExitInstruction()) {\n          add_to_decode_stack(next_pc, next_execution_state);\n        }\n        // ... the far branch target ...", "        if (!di.instruction.IsExitInstruction() &&\n            !di.instruction.IsLocalBranch()) {\n          add_to_decode_stack(next_pc, next_execution_state);\n        }\n        // ... the far branch target ...")],
     "a conditional branch reached again with another width, and an instruction of variable width after it", "what follows the branch keeps the width of the first visit", r'''
int main() {
  auto m = std::make_unique<Mem>();
  m->b = {0xf0, 0x02, 0xa9, 0x01, 0x60};  // beq 8004; lda #1; rts
  Disassembler d(std::move(m));
  EXPECT(d.Disassemble(nsasm::Address(0x8000), StatusFlags(B_off, B_on, B_on)).ok());
  EXPECT(!d.Disassemble(nsasm::Address(0x8000), StatusFlags(B_off, B_off, B_on)).ok());
}
''')
seed("c32-long-negative", "C32",
     [("nsasm/directive.cc", "    buf->push_back((value >> 16) & 0xff);", "    buf->push_back((value / 0x10000) & 0xff);")],
     "a negative .dl value that is no multiple of $10000", "its high byte is one too large", r'''
int main() {
  EXPECT(Asm({".org $8000\n.dl -1\n"}) == "ffffff");
  EXPECT(Asm({".org $8000\n.dl -65536, $123456\n"}) == "0000ff563412");
}
''')
seed("c33-pending-join", "C33",
     [("nsasm/module.cc", "    if (it == decode_stack.end()) {\n      decode_stack[line] = state;\n    } else {\n      it->second |= state;\n    }", "    // Loops revisit their lines, so the latest state is the one that counts.\n    decode_stack[line] = state;")],
     "two branches with different widths to a line further down", "the line is assembled for the width of the last one", r'''
int main() {
  EXPECT(Asm({".org $8000\n.entry m8x8\nbeq far\nrep #$20\nbne far\nrts\nfar: lda #1\nrts\n"}) == "error");
  EXPECT(Asm({".org $8000\n.entry m8x8\nbeq far\nrep #$10\nbne far\nrts\nfar: lda #1\nrts\n"}) == "f005c210d00160a90160");
}
''')

# ---- tools -------------------------------------------------------------------
def tool():
    return PRE.replace('extern "C" void sx_stdout(const char*, size_t) {}', 'static std::string out;\nextern "C" void sx_stdout(const char* p, size_t n) { out.append(p, n); }') + r'''
extern "C" int tool_main(int, char**);
void Put(const char* name, const std::string& s) {
  FILE* f = fopen(name, "wb");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
std::string Get(const char* name) {
  std::string s;
  FILE* f = fopen(name, "rb");
  if (!f) return "none";
  int c;
  while ((c = getc(f)) != EOF) s += (char)c;
  fclose(f);
  return s;
}
int Tool(std::vector<std::string> args) {
  std::vector<char*> v{(char*)"tool"};
  for (auto& a : args) v.push_back((char*)a.c_str());
  int n = v.size();
  v.push_back(nullptr);
  out.clear();
  return tool_main(n, v.data());
}
// A LoROM image of two banks, full of rts, and bytes put at places in it.
struct Image {
  std::string b = std::string(0x10000, 0x60);
  Image() {
    static const unsigned char h[] = {0x20, 0, 7, 0, 1, 0x33, 0, 0xff, 0xff, 0, 0};
    memset(&b[0x7fc0], ' ', 21);
    memcpy(&b[0x7fd5], h, sizeof h);
  }
  Image& At(int place, std::vector<int> v) {
    for (int x : v) b[place++] = (char)x;
    return *this;
  }
};
// The listing assembles to what the ROM holds.
bool Same(const Image& rom, const std::string& listing) {
  Out o;
  auto r = Assemble({MakeFakeFile("listing", listing)}, &o);
  if (!r.ok()) return false;
  for (auto& x : o.b) {
    int bank = x.first >> 16 & 0x7f, at = (x.first & 0x7fff) + bank * 0x8000;
    if ((unsigned char)rom.b[at] != x.second) return false;
  }
  return true;
}
'''

def tseed(sid, prop, name, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, srcs=ALL + ["nsasm/rom.cc", "util/" + name + ".cc"], tool=name, demo=tool() + demo, shim=True)

seed("c34-unsuffixed-yields", "C34",
     [("nsasm/directive.cc", "      return absl::StrCat(nsasm::ToString(name), \" \",\n                          flag_state_argument.ToName(),\n                          return_convention_argument.ToSuffixString());\n    case DT_list_arg", "      return absl::StrCat(nsasm::ToString(name), \" \",\n                          flag_state_argument.ToName(),\n                          return_convention_argument.IsExitCall()\n                              ? return_convention_argument.ToSuffixString()\n                              : \"\");\n    case DT_list_arg")],
     ".entry with a yields clause", "the clause is not printed, so the line does not read back as the same directive", r'''
int main() {
  for (std::string s : {".entry m8x8 yields m16x16", ".entry m8x8 noreturn", ".entry m8x8"}) {
    auto t = Tokenize(s, {});
    auto p = Parse(*t);
    auto& d = *absl::get<Statement>((*p)[0]).Directive();
    auto t2 = Tokenize(d.ToString(), {});
    auto p2 = Parse(*t2);
    auto& e = *absl::get<Statement>((*p2)[0]).Directive();
    EXPECT(d.return_convention_argument.ToSuffixString() == e.return_convention_argument.ToSuffixString());
  }
}
''')
seed("c34-long-qualified", "C34",
     [("nsasm/expression.cc", "(type_ == T_long) ? \"@\" : \"\"", "(type_ == T_long && !identifier_.Qualified()) ? \"@\" : \"\"")],
     "a long operand that names something in another module", "the @ is not printed, so the line reads back with a 16-bit operand", r'''
int main() {
  for (std::string n : {"@far", "@bank::far"}) {
    auto t = Tokenize("jsl " + n, {});
    auto p = Parse(*t);
    EXPECT(p.ok());
    std::string s = absl::get<Statement>((*p)[0]).ToString();
    EXPECT(s.find(n) != std::string::npos);
  }
}
''')
seed("c35-first-module-wins", "C35",
     [("nsasm/assembler.cc", "          it->second |= node.second;", "          if (module.Name() == \"\") it->second |= node.second;")],
     "two modules, the later one named, that call the same outside place in different modes", "the flags reported are those of one of the calls", r'''
int main() {
  Out o;
  auto a = Assemble({MakeFakeFile("a", ".module one\n.org $8000\n.entry m8x8\njsr $9000\nrts\n"),
                     MakeFakeFile("b", ".module two\n.org $8100\n.entry m16x8\njsr $9000\nrts\n")}, &o);
  EXPECT(a.ok());
  auto t = a->JumpTargets();
  EXPECT(t.size() == 1);
  EXPECT(t.begin()->second.MBit() != B_on && t.begin()->second.MBit() != B_off);
}
''')
seed("c35-joined-late", "C35",
     [("nsasm/module.cc", "          it->second |= line.incoming_state.Flags();", "          if (instruction->IsExitInstruction()) it->second |= line.incoming_state.Flags();")],
     "one module that calls the same outside place twice in different modes", "the flags reported are those of the first call", r'''
int main() {
  Out o;
  auto a = Assemble({MakeFakeFile("a", ".org $8000\n.entry m8x8\njsr $9000\nrep #$20\njsr $9000\nrts\n")}, &o);
  EXPECT(a.ok());
  auto t = a->JumpTargets();
  EXPECT(t.size() == 1);
  EXPECT(t.begin()->second.MBit() != B_on && t.begin()->second.MBit() != B_off);
}
''')
tseed("c36-next-bank", "C36", "quick_disassemble",
     [("util/quick_disassemble.cc", "      if (value.first != pc) {", "      if (value.first.BankAddress() != pc.BankAddress()) {")],
     "code that ends in one bank and goes on at the following offset of another bank", "the listing lacks an .org, so the second routine assembles in the wrong bank", r'''
int main() {
  Image r;
  r.At(0, {0x22, 5, 0x80, 1, 0x60}).At(0x8005, {0xea, 0xe8, 0x60});
  Put("rom", r.b);
  EXPECT(Tool({"rom", "8000", "m8x8"}) == 0);
  EXPECT(out.find("INX") != std::string::npos || out.find("inx") != std::string::npos);
  EXPECT(Same(r, out));
}
''')
tseed("c36-last-targets", "C36", "quick_disassemble",
     [("util/quick_disassemble.cc", "        CombineStates(&new_seeds, *branch_targets);", "        new_seeds = *std::move(branch_targets);")],
     "two routines at the same depth that each call another one", "what the first one calls is missing from the listing", r'''
int main() {
  Image r;
  r.At(0, {0x20, 0x10, 0x80, 0x20, 0x20, 0x80, 0x60}).At(0x10, {0x20, 0x30, 0x80, 0x60}).At(0x20, {0x20, 0x40, 0x80, 0x60});
  r.At(0x30, {0xe8, 0x60}).At(0x40, {0xca, 0x60});
  Put("rom", r.b);
  EXPECT(Tool({"rom", "8000", "m8x8"}) == 0);
  EXPECT(out.find("INX") != std::string::npos || out.find("inx") != std::string::npos);
  EXPECT(out.find("DEX") != std::string::npos || out.find("dex") != std::string::npos);
}
''')
tseed("c37-last-source", "C37", "disassemble_more",
     [("util/disassemble_more.cc", "    asm_files.push_back(*std::move(file));", "    if (arg_index < 4) asm_files.push_back(*std::move(file));")],
     "three or more sources", "the third source is opened but not assembled, so what it jumps to is not listed", r'''
int main() {
  Image r;
  r.At(0x100, {0xe8, 0x60}).At(0x20, {0x20, 0, 0x81, 0x60});
  Put("rom", r.b);
  Put("a.asm", ".org $8000\n.entry m8x8\nrts\n");
  Put("b.asm", ".org $8010\n.entry m8x8\nrts\n");
  Put("c.asm", ".org $8020\n.entry m8x8\njsr $8100\nrts\n");
  EXPECT(Tool({"rom", "a.asm", "b.asm", "c.asm"}) == 0);
  EXPECT(out.find("INX") != std::string::npos || out.find("inx") != std::string::npos);
}
''')
tseed("c37-known-stays", "C37", "disassemble_more",
     [("util/disassemble_more.cc", "      if (assembler->Contains(node.first)) {", "      if (assembler->Contains(node.first) &&\n          disassembler.Result().empty()) {")],
     "a routine of the listing that calls back into the sources", "the sources' own code is listed again, under .entry lines that clash with them", r'''
int main() {
  Image r;
  r.At(0, {0x20, 0, 0x81, 0xca, 0x60}).At(0x100, {0x20, 3, 0x80, 0xe8, 0x60});
  Put("rom", r.b);
  Put("a.asm", ".org $8000\n.entry m8x8\njsr $8100\nback: dex\nrts\n");
  EXPECT(Tool({"rom", "a.asm"}) == 0);
  EXPECT(out.find("INX") != std::string::npos || out.find("inx") != std::string::npos);
  EXPECT(out.find("DEX") == std::string::npos && out.find("dex") == std::string::npos);
}
''')
tseed("c38-dash-name", "C38", "quick_assemble",
     [("util/quick_assemble.cc", "output_path == std::string(\"-\")", "output_path.substr(0, 1) == std::string(\"-\")")],
     "an output path that begins with a dash", "no file is written and the program is compared instead", r'''
int main() {
  Image r;
  Put("rom", r.b);
  Put("a.asm", ".org $8000\n.entry m8x8\nrts\n");
  EXPECT(Tool({"rom", "-new", "a.asm"}) == 0);
  EXPECT(Get("-new") == r.b);
}
''')
tseed("c38-header-lost", "C38", "quick_assemble",
     [("nsasm/rom.cc", "  if (!rom_->header_.empty()) {\n    size_t written", "  if (!rom_->header_.empty() && rom_->header_[0]) {\n    size_t written")],
     "a ROM file whose copier header begins with a zero byte", "the header is left out of the file written", r'''
int main() {
  Image r;
  for (int first : {1, 0}) {
    std::string h(0x200, 7);
    h[0] = first;
    Put("rom", h + r.b);
    Put("a.asm", ".org $8000\n.entry m8x8\nrts\n");
    EXPECT(Tool({"rom", "new", "a.asm"}) == 0);
    EXPECT(Get("new") == h + r.b);
  }
}
''')
seed("c39-unreached", "C39",
     [("nsasm/module.cc", "      return Error(\"Line not reached during execution\")\n          .SetLocation(ins->location);", "      return Error(\"Line not reached during execution\")\n          .SetLocation(lines_[&line == &lines_[0] ? 0 : &line - &lines_[1]]\n                           .statement.Location());")],
     "an unreachable line that is not the first", "the error names the statement before it", r'''
int main() {
  Out o;
  auto a = Assemble({MakeFakeFile("src", ".org $8000\n.entry m8x8\nrts\n\nnop\nrts\n")}, &o);
  EXPECT(!a.ok());
  EXPECT(a.error().ToString().find("src:5:") == 0 || a.error().ToString().find("src:6:") == 0);
}
''')
seed("c39-claimed-twice", "C39",
     [("nsasm/module.cc", "        return Error(\"Second write to same address %s in module\",\n                     address.ToString())\n            .SetLocation(line.statement.Location());", "        return Error(\"Second write to same address %s in module\",\n                     address.ToString())\n            .SetLocation(lines_[0].statement.Location());")],
     "two lines of one source that put bytes at the same place", "the error names the first line of the source, which is neither of them", r'''
int main() {
  Out o;
  auto a = Assemble({MakeFakeFile("src", ".org $8000\n.db 1\n.org $8000\n.db 2\n")}, &o);
  EXPECT(!a.ok());
  EXPECT(a.error().ToString().find("src:2:") == 0 || a.error().ToString().find("src:4:") == 0);
}
''')
tseed("c40-unknown-kept", "C40", "dumb_disassemble",
     [("util/dumb_disassemble.cc", "      execution_state = next_instruction_it->second;", "      if (next_instruction_it->second.Flags().MBit() <= nsasm::B_on) {\n        execution_state = next_instruction_it->second;\n      }")],
     "a branch over an exit taken before the accumulator's width was known, and set on the path that exits", "the code past the exit is read with the width of the path that left, so its operands may be read as instructions", r'''
int main() {
  Image r;
  r.At(0, {0xd0, 3, 0xe2, 0x20, 0x60, 0xa9, 0xea, 0xea, 0x60});
  Put("rom", r.b);
  EXPECT(Tool({"rom", "8000", "native"}) != 0);
  EXPECT(out.find("; m8") == std::string::npos || out.find("$008005 - ERROR") != std::string::npos);
  EXPECT(Tool({"rom", "8000", "m8x8"}) == 0);
}
''')
tseed("c40-brl-target", "C40", "dumb_disassemble",
     [("util/dumb_disassemble.cc", "      nsasm::Address target = next_pc.AddWrapped(\n", "      nsasm::Address target = address.AddWrapped(\n          2 +\n")],
     "a BRL", "its target is named a byte too low, and the code it leads to past the exit is not listed", r'''
int main() {
  Image r;
  r.At(0, {0xd0, 1, 0x60, 0x82, 1, 0, 0x60, 0xe8, 0x60});
  Put("rom", r.b);
  EXPECT(Tool({"rom", "8000", "m8x8"}) == 0);
  EXPECT(out.find("to $008007") != std::string::npos);
  EXPECT(out.find("to $008003") != std::string::npos);
}
''')
seed("c41-unterminated", "C41",
     [("nsasm/file.cc", "    lines.emplace_back(std::move(line));\n  }\n  if (fs.bad()) {", "    if (fs.eof()) break;\n    lines.emplace_back(std::move(line));\n  }\n  if (fs.bad()) {")],
     "a source whose last line has no newline", "that line is not assembled", r'''
int main() {
  char d[] = "/tmp/demo.XXXXXX";
  if (!mkdtemp(d)) return 2;
  std::string p = std::string(d) + "/f";
  { std::ofstream o(p); o << "a\n\nb"; }
  auto f = OpenFile(p);
  unlink(p.c_str());
  rmdir(d);
  EXPECT(f.ok());
  EXPECT(f->end() - f->begin() == 3);
  EXPECT((*f)[2] == "b");
}
''')
SEEDS["c41-unterminated"]["demo"] = "#include <unistd.h>\n#include <stdlib.h>\n" + SEEDS["c41-unterminated"]["demo"]
seed("c41-nul", "C41",
     [("nsasm/file.cc", "    lines.emplace_back(std::move(line));\n  }\n  if (fs.bad()) {", "    lines.emplace_back(line.c_str());\n  }\n  if (fs.bad()) {")],
     "a source line with a NUL byte in it", "the rest of the line is dropped without an error", r'''
int main() {
  char d[] = "/tmp/demo.XXXXXX";
  if (!mkdtemp(d)) return 2;
  std::string p = std::string(d) + "/f";
  { std::ofstream o(p); o << "nop" << '\0' << "garbage\nrts\n"; }
  auto f = OpenFile(p);
  unlink(p.c_str());
  rmdir(d);
  EXPECT(f.ok());
  EXPECT((*f)[0].size() == 11);
  EXPECT((*f)[1] == "rts");
}
''')
SEEDS["c41-nul"]["demo"] = "#include <unistd.h>\n#include <stdlib.h>\n" + SEEDS["c41-nul"]["demo"]
tseed("c42-last-again", "C42", "interactive_parse",
     [("util/interactive_parse.cc", "  while (std::cin) {\n    std::string line;\n", "  std::string line;\n  while (std::cin) {\n")],
     "input whose last line has no newline", "the last line is shown a second time", r'''
#include <iostream>
#include <sstream>
int main() {
  for (std::string s : {"here: rts", "here: rts\n"}) {
    std::istringstream in(s);
    std::ostringstream o;
    auto* i = std::cin.rdbuf(in.rdbuf());
    auto* p = std::cout.rdbuf(o.rdbuf());
    std::cin.clear();
    EXPECT(Tool({}) == 0);
    std::cin.rdbuf(i);
    std::cout.rdbuf(p);
    EXPECT(o.str().find("here:") != std::string::npos);
    EXPECT(o.str().find("here:") == o.str().rfind("here:"));
  }
}
''')
tseed("c42-stops", "C42", "interactive_parse",
     [("util/interactive_parse.cc", "    if (!assembly.ok()) {\n      std::cout << assembly.error().ToString() << \"\\n\";\n      continue;\n", "    if (!assembly.ok()) {\n      std::cout << assembly.error().ToString() << std::endl;\n      break;\n")],
     "a line after one that does not parse", "nothing after the first line the parser refuses is read", r'''
#include <iostream>
#include <sstream>
int main() {
  std::istringstream in("lda (\nrts\n");
  std::ostringstream o;
  auto* i = std::cin.rdbuf(in.rdbuf());
  auto* p = std::cout.rdbuf(o.rdbuf());
  EXPECT(Tool({}) == 0);
  std::cin.rdbuf(i);
  std::cout.rdbuf(p);
  EXPECT(o.str().find("rts") != std::string::npos || o.str().find("RTS") != std::string::npos);
}
''')
