PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#define EXPECT(c) do { if (!(c)) { printf("demo: %s fails\n", #c); exit(1); } } while (0)
'''
ROMS = ["nsasm/rom.cc", "nsasm/memory.cc", "nsasm/error.cc"]
def seed(sid, prop, edits, needs, breaks, srcs, demo, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, srcs=srcs, demo=PRE + demo, **kw)

seed("c01-bank-c0", "C01",
     [("nsasm/rom.cc", "(bank >= 0x80 && bank < 0xc0)", "(bank >= 0x80 && bank <= 0xc0)")],
     "an address in the low half of bank $C0", "the low half of bank $C0, cartridge ROM on HiROM, is refused", ROMS, r'''
#include "nsasm/rom.h"
using namespace nsasm;
int main() {
  auto r = SnesToROMAddress(Address(0xc01234), kHiRom);
  EXPECT(r.ok() && *r == 0x1234);
  EXPECT(!SnesToROMAddress(Address(0xbf1234), kHiRom).ok());
  r = SnesToROMAddress(Address(0xc07fff), kExHiRom);
  EXPECT(r.ok() && *r == 0x7fff);
}
''')
seed("c02-read-wrap", "C02",
     [("nsasm/rom.cc", "      auto rom_address = SnesToROMAddress(address.AddWrapped(i), mapping_mode_);\n",
       "      auto rom_address =\n          SnesToROMAddress(nsasm::Address(address).AddUnwrapped(i), mapping_mode_);\n")],
     "a read that runs over the end of a bank", "bytes after the wrap come from the next bank", ROMS, r'''
#include "nsasm/rom.h"
using namespace nsasm;
int main() {
  std::vector<uint8_t> data(0x200000);
  for (size_t i = 0; i < data.size(); i++) data[i] = (uint8_t)(i * 7 + (i >> 16) * 31);
  Rom rom(kHiRom, "x", {}, data);
  auto r = rom.Read(Address(0xc1fffe), 4);
  EXPECT(r.ok() && r->size() == 4);
  EXPECT((*r)[0] == data[0x1fffe] && (*r)[1] == data[0x1ffff] && (*r)[2] == data[0x10000] && (*r)[3] == data[0x10001]);
}
''')
seed("c03-word-by-bytes", "C03",
     [("nsasm/memory.cc", "  auto read = Read(address, 2);\n  NSASM_RETURN_IF_ERROR(read);\n  return (*read)[0] + ((*read)[1] * 256);",
       "  auto low = ReadByte(address);\n  NSASM_RETURN_IF_ERROR(low);\n  auto high = ReadByte(address.AddUnwrapped(1));\n  NSASM_RETURN_IF_ERROR(high);\n  return *low + (*high * 256);")],
     "a word read at the last byte of a bank", "the high byte is read from the next bank", ROMS, r'''
#include "nsasm/memory.h"
using namespace nsasm;
struct Src : InputSource {
  ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override {
    std::vector<uint8_t> v;
    for (int i = 0; i < n; i++) { auto b = a.AddWrapped(i); v.push_back((uint8_t)(b.Bank() * 16 + b.BankAddress() % 16)); }
    return v;
  }
  std::string Path() const override { return "x"; }
};
int main() {
  Src s;
  auto r = s.ReadWord(Address(0x05ffff));
  EXPECT(r.ok() && *r == 0x505f);
  r = s.ReadWord(Address(0x051231));
  EXPECT(r.ok() && *r == 0x5251);
}
''')
seed("c04-skip-unchanged", "C04",
     [("nsasm/rom.cc", "    data_[*rom_index] = data[i];\n", "    if (rom_->data_[*rom_index] == data[i]) {\n      continue;  // already what the ROM holds\n    }\n    data_[*rom_index] = data[i];\n")],
     "writing a byte, then writing the ROM's original byte to the same address", "the second write is lost from the saved file", ROMS, r'''
#include "nsasm/rom.h"
using namespace nsasm;
int main() {
  std::vector<uint8_t> data(0x10000, 0x55);
  RomOverwriter w(std::make_unique<Rom>(kLoRom, "x", std::vector<uint8_t>(), data));
  std::vector<uint8_t> a = {1, 2}, b = {0x55};
  EXPECT(w.Write(Address(0x008010), a).ok());
  EXPECT(w.Write(Address(0x008011), b).ok());
  EXPECT(w.CreateFile("out.sfc").ok());
  FILE* f = fopen("out.sfc", "rb");
  std::vector<uint8_t> got(0x10001);
  EXPECT(f && fread(got.data(), 1, got.size(), f) == 0x10000);
  EXPECT(got[0x10] == 1 && got[0x11] == 0x55 && got[0x12] == 0x55);
}
''')
seed("c05-strncmp", "C05",
     [("nsasm/rom.cc", "  if (*actual == data) {", "  if (strncmp(reinterpret_cast<const char*>(actual->data()),\n              reinterpret_cast<const char*>(data.data()), data.size()) == 0) {"),
      ("nsasm/rom.cc", "#include <memory>\n", "#include <cstring>\n#include <memory>\n")],
     "written and ROM data that differ only after a common zero byte", "a write that differs from the ROM is accepted", ROMS, r'''
#include "nsasm/rom.h"
using namespace nsasm;
int main() {
  std::vector<uint8_t> data(0x10000, 0);
  data[0x11] = 9;
  RomIdentityTest t(std::make_unique<Rom>(kLoRom, "x", std::vector<uint8_t>(), data));
  std::vector<uint8_t> same = {0, 9, 0}, other = {0, 8, 0};
  EXPECT(t.Write(Address(0x008010), same).ok());
  EXPECT(!t.Write(Address(0x008010), other).ok());
}
''')
seed("c06-low-checksum-only", "C06",
     [("nsasm/rom.cc", "(header[0x2c] ^ header[0x2e]) == 0xff &&\n                     (header[0x2d] ^ header[0x2f]) == 0xff;", "(header[0x2c] ^ header[0x2e]) == 0xff &&\n                     (header[0x2d] | header[0x2f]) == 0xff;")],
     "a file whose checksum high bytes share set bits but cover all", "a header with an inconsistent checksum is taken for a ROM header", ROMS, r'''
#include "nsasm/rom.h"
using namespace nsasm;
static bool Load(int hi, int chi) {
  std::vector<uint8_t> data(0x10000, 0);
  data[0x7fdc] = 0x34; data[0x7fde] = 0xcb; data[0x7fdd] = hi; data[0x7fdf] = chi;
  FILE* f = fopen("in.sfc", "wb");
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
  return LoadRomFile("in.sfc").ok();
}
int main() {
  EXPECT(Load(0x12, 0xed));
  EXPECT(!Load(0x13, 0xed));
}
''')
seed("c07-merge-shrinks", "C07",
     [("nsasm/ranges.cc", "    insertion_point->second =\n        std::max(insertion_point->second, std::prev(merge_end)->second);\n    ranges_.erase", "    insertion_point->second = std::prev(merge_end)->second;\n    ranges_.erase")],
     "a claim that covers a later existing chunk entirely and ends after it", "the end of the claim is forgotten", ["nsasm/ranges.cc"], r'''
#include "nsasm/ranges.h"
using namespace nsasm;
int main() {
  DataRange r;
  r.ClaimBytes(Chunk(Address(0x1000), Address(0x1010)));
  r.ClaimBytes(Chunk(Address(0x2000), Address(0x2010)));
  r.ClaimBytes(Chunk(Address(0x1008), Address(0x3000)));
  EXPECT(r.Contains(Address(0x2500)));
  EXPECT(!r.Contains(Address(0x3000)));
}
''')
seed("c09-partial-claim", "C09",
     [("nsasm/ranges.h", "  DataRange combined = used_;\n  for (Chunk chunk : range.Chunks()) {\n    if (!combined.ClaimBytes(chunk)) {", "  for (Chunk chunk : range.Chunks()) {\n    if (!used_.ClaimBytes(chunk)) {"),
      ("nsasm/ranges.h", "  used_ = std::move(combined);\n", "")],
     "an insertion of two chunks of which the second conflicts, then a query of the first", "a refused insertion still occupies its first chunk", ["nsasm/ranges.cc"], r'''
#include "nsasm/ranges.h"
using namespace nsasm;
int main() {
  RangeMap<int> m;
  DataRange a, b, c;
  a.ClaimBytes(Chunk(Address(0x2000), Address(0x2100)));
  EXPECT(m.Insert(a, 1));
  b.ClaimBytes(Chunk(Address(0x1000), Address(0x1100)));
  b.ClaimBytes(Chunk(Address(0x20f0), Address(0x2200)));
  EXPECT(!m.Insert(b, 2));
  EXPECT(!m.Contains(Address(0x1000)));
  c.ClaimBytes(Chunk(Address(0x1000), Address(0x1001)));
  EXPECT(m.Insert(c, 3));
}
''')
seed("c10-half-bank", "C10",
     [("nsasm/address.h", "return (offset > 0x7fff) ? offset - 0x10000 : offset;", "return (offset >= 0x7fff) ? offset - 0x10000 : offset;")],
     "two addresses exactly $7fff apart", "the distance comes out as -32769", ["nsasm/error.cc"], r'''
#include "nsasm/address.h"
using namespace nsasm;
int main() {
  auto r = Address(0x017fff).SubtractWrapped(Address(0x010000));
  EXPECT(r.ok() && *r == 0x7fff);
  r = Address(0x018000).SubtractWrapped(Address(0x010000));
  EXPECT(r.ok() && *r == -0x8000);
}
''')
seed("c11-most-negative-long", "C11",
     [("nsasm/numeric_type.h", "return (v >= 0x800000) ? v - 0x1000000 : v;", "return (v > 0x800000) ? v - 0x1000000 : v;")],
     "the value $800000 coerced to a signed long", "8388608 results instead of -8388608", ["nsasm/error.cc"], r'''
#include <algorithm>
#include "nsasm/numeric_type.h"
using namespace nsasm;
int main() {
  EXPECT(CastTo(T_signed_long, 0x800000) == -0x800000);
  EXPECT(CastTo(T_signed_long, 0x7fffff) == 0x7fffff);
}
''')
seed("c14-zero-offset", "C14",
     [("nsasm/location.h", "    if (rhs.offset_type_ != kNone) {", "    if (rhs.offset_ != 0) {")],
     "an update with address 0 (or line 0)", "the old position is kept", ["nsasm/error.cc"], r'''
#include "nsasm/location.h"
using namespace nsasm;
int main() {
  Location l("p", 7);
  l.Update(Location::FromAddress(0));
  EXPECT(l.ToString() == "p:0x000000");
  l.Update(Location(3));
  EXPECT(l.ToString() == "p:3");
}
''')
seed("c15-first-address-only", "C15",
     [("test/test_sink.cc", "    if (received_.count(target)) {", "    if (received_.count(address)) {")],
     "a multi-byte write whose later byte was already written", "the duplicate is accepted or a good write refused", ["test/test_sink.cc", "nsasm/memory.cc", "nsasm/error.cc"], r'''
#include "test/test_sink.h"
using namespace nsasm;
int main() {
  TestSink s({{0x1000, {1, 2, 3}}});
  std::vector<uint8_t> a = {3}, b = {1, 2, 9}, c = {1, 2};
  EXPECT(s.Write(Address(0x1002), a).ok());
  EXPECT(!s.Write(Address(0x1000), b).ok());
  TestSink t({{0x1000, {1, 2}}});
  EXPECT(t.Write(Address(0x1000), c).ok());
  EXPECT(t.Check().ok());
}
''')
SEEDS["c16-bank-end"] = dict(property="C16",
     edits=[("util/quick_dump.cc", "address = address.AddWrapped(stride)) {", "address = address.AddUnwrapped(stride)) {")],
     needs="a dump that runs over the end of a bank", breaks="entries after the wrap are read from the next bank", srcs=ROMS,
     extra='-DDUMP="<util/quick_dump.cc>"', demo=PRE + r'''
#define main dump_main
#include DUMP
#undef main
int main() {
  std::vector<uint8_t> data(0x20000, 0);
  data[0xffdc] = 0x34; data[0xffde] = 0xcb; data[0xffdd] = 0x12; data[0xffdf] = 0xed;
  data[0xffff] = 0x22; data[0] = 0x33; data[0x10000] = 0x44;
  FILE* f = fopen("in.sfc", "wb");
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
  const char* a[] = {"dump", "in.sfc", "c0ffff", "2", nullptr};
  fflush(stdout);
  f = freopen("out.txt", "w", stdout);
  int rc = dump_main(4, (char**)a);
  fflush(stdout);
  char buf[200] = {0};
  f = fopen("out.txt", "r");
  if (fread(buf, 1, 199, f) == 0) return 1;
  if (rc != 0 || !strstr(buf, "$22, $33")) return 1;
  return 0;
}
''')

seed("c08-conflict-then-wrap", "C08",
     [("nsasm/ranges.cc", "    success = ClaimBytes(chunk) && success;\n", "    success = success && ClaimBytes(chunk);\n")],
     "a claim that wraps in its bank and conflicts before the wrap", "the part after the wrap is not claimed, so a later conflict there goes unnoticed", ["nsasm/ranges.cc"], r'''
#include "nsasm/ranges.h"
using namespace nsasm;
int main() {
  DataRange d;
  EXPECT(d.ClaimBytes(nsasm::Address(0x01fffe), 1));
  EXPECT(!d.ClaimBytes(nsasm::Address(0x01fffe), 4));
  EXPECT(d.Contains(nsasm::Address(0x010001)));
  EXPECT(!d.ClaimBytes(nsasm::Address(0x010000), 1));
}
''')
seed("c12-mixed-case", "C12",
     [("nsasm/mnemonic.cc", "  absl::AsciiStrToLower(&s);\n  auto iter = lookup->find(s);\n  if (iter == lookup->end()) {\n    return absl::nullopt;\n  }\n  return iter->second;\n}\n\nabsl::optional<Suffix>", "  if (!s.empty() && absl::ascii_isupper(s[0])) {\n    absl::AsciiStrToLower(&s);\n  }\n  auto iter = lookup->find(s);\n  if (iter == lookup->end()) {\n    return absl::nullopt;\n  }\n  return iter->second;\n}\n\nabsl::optional<Suffix>")],
     "a mnemonic in mixed case that starts in lower case", "lDA is no mnemonic", ["nsasm/mnemonic.cc"], r'''
#include "nsasm/mnemonic.h"
using namespace nsasm;
int main() {
  EXPECT(ToMnemonic("Lda").has_value() && *ToMnemonic("LdA") == M_lda);
  EXPECT(ToMnemonic("lDA").has_value() && *ToMnemonic("lDa") == M_lda);
  EXPECT(!ToMnemonic("ldaa").has_value());
}
''')
