// C27: splitting a line into tokens.
#include "nsasm/token.h"
#include "sx.h"
#include "spec_names.h"
using namespace nsasm;
namespace {
typedef unsigned char u8;
bool In(u8 c, u8 lo, u8 hi) { return (c >= lo) & (c <= hi); }
bool Hex(u8 c) { return In(c, '0', '9') | In(c | 32, 'a', 'f'); }
bool Dec(u8 c) { return In(c, '0', '9'); }
bool Bin(u8 c) { return In(c, '0', '1'); }
bool First(u8 c) { return In(c | 32, 'a', 'z') | (c == '_'); }
bool Word(u8 c) { return First(c) | Dec(c); }
bool Space(u8 c) { return (c == ' ') | In(c, 9, 13); }
bool Symbol(u8 c) {
  bool r = false;
  for (const char* p = "()[],:#+-*/@{}><^"; *p; p++) r |= c == (u8)*p;
  return r;
}
// A long number: two or three digits anywhere in one of these (one in the longest) are arbitrary.
std::string LongNumber(int base, size_t n) {
  static const char* ten[] = {"2147483647", "2147483648", "4294967296", "0000000000", "9999999999", "18446744073709551616", "0018446744075857035263"};
  static const char* sixteen[] = {"0000000000", "00ffffff", "ffffffff", "10000000000000000", "1000000000000000f"};
  static const char* two[] = {"000000000000000000000000111111111111111111111111", "10000000000000000000000000000000000000000000000000000000000000000"};
  size_t count = base == 10 ? std::size(ten) : base == 16 ? std::size(sixteen) : std::size(two);
  size_t k = (size_t)sx_concretize((uint64_t)sx_range(0, (int)count - 1, "like"));
  std::string r = base == 10 ? ten[k] : base == 16 ? sixteen[k] : two[k];
  if (n < r.size()) r.resize(n);
  sx_assume(base == 2 || (r.size() > 10) == (n > 10));  // the short ones are a case of their own
  size_t width = r.size() > 10 ? 1 : base == 10 ? 2 : 3;
  std::string any = sx_string(width, "digits");
  size_t at = (size_t)sx_concretize((uint64_t)sx_range(0, (int)(r.size() - width), "at"));
  bool ok = true;
  for (size_t i = 0; i < width; i++) ok &= base == 10 ? Dec((u8)any[i]) : base == 16 ? Hex((u8)any[i]) : Bin((u8)any[i]);
  sx_assume(ok);
  for (size_t i = 0; i < width; i++) r[at + i] = width == 1 ? (char)sx_concretize((u8)any[i]) : any[i];
  return r;
}
std::string Text(int mode, int n) {
  if (mode == 10) return LongNumber(10, n);
  if (mode == 11) return "$" + LongNumber(16, n);
  if (mode == 12) return "%" + LongNumber(2, n);
  std::string body = sx_string(n, "text");
  auto all = [&](bool (*f)(u8)) { bool ok = true; for (u8 c : body) ok &= f(c); sx_assume(ok); };
  switch (mode) {
    case 0: return body;
    case 1: all(Hex); return "$" + body;
    case 2: all(Hex); return "0x" + body;
    case 3: all(Bin); return "%" + body;
    case 4: all(Dec); return body;
    case 5: all(Word); sx_assume(First((u8)body[0])); return body;
    case 6: all(Word); return "." + body;
    case 7: return ";" + body;                       // a comment
    case 8: all(Symbol); return body;                // operators run together
    default: all(Word); return "\t lda " + body + " ";
  }
}
}  // namespace
extern "C" void harness() {
  int n = (int)sx_param("n");
  std::string s = Text((int)sx_param("mode"), n);
  int line = sx_range(1, 999999, "line");
  Location where("file", line);
  auto got = Tokenize(s, where);
  size_t p = 0, k = 0;
  bool failed = !got.ok();
  auto at = [&](size_t i) -> u8 { return i < s.size() ? (u8)s[i] : 0; };
  // Walks the line beside the result; `take` gives the next token.
  auto take = [&]() -> const Token* {
    if (failed) return nullptr;
    CHECK(k < got->size(), "token-missing");
    return &(*got)[k++];
  };
  while (true) {
    while (p < s.size() && Space(at(p))) p++;
    if (p >= s.size() || at(p) == ';') {
      CHECK(!failed, "good-line-refused");
      const Token* t = take();
      CHECK(t->EndOfLine() != nullptr, "no-end");
      CHECK(k == got->size(), "tokens-after-end");
      sx_observe("tokens", got->size());
      sx_reach("line");
      return;
    }
    u8 c = at(p);
    // operators
    int punct = 0, len = 0;
    if (c == '+' || c == '-') {
      len = at(p + 1) == c ? (at(p + 2) == c ? 3 : 2) : 1;
      bool plus = c == '+';
      punct = len == 1 ? c : len == 2 ? (plus ? P_plusplus : P_minusminus) : (plus ? P_plusplusplus : P_minusminusminus);
    } else if (c == ':') {
      len = at(p + 1) == ':' ? 2 : 1;
      punct = len == 2 ? (int)P_scope : ':';
    } else if (Symbol(c)) {
      len = 1;
      punct = c;
    }
    if (len) {
      p += len;
      const Token* t = take();
      if (t) CHECK(t->Punctuation() != nullptr && (int)*t->Punctuation() == punct, "operator");
      sx_reach("operator");
      continue;
    }
    // numbers
    int base = 0;
    size_t from = p;
    if (c == '$' && Hex(at(p + 1))) { base = 16; from = p + 1; }
    else if (c == '0' && (at(p + 1) | 32) == 'x' && Hex(at(p + 2))) { base = 16; from = p + 2; }
    else if (c == '%' && Bin(at(p + 1))) { base = 2; from = p + 1; }
    else if (Dec(c)) base = 10;
    if (base) {
      size_t q = from;
      uint64_t v = 0;
      while (q < s.size() && (base == 16 ? Hex(at(q)) : base == 2 ? Bin(at(q)) : Dec(at(q)))) {
        u8 d = at(q);
        u8 l = d | 32;
        if (q - from >= 10 && v >> 40 != 0) v = 1ull << 40;  // too large whatever follows
        v = v * base + (unsigned)sx_ite(In(d, '0', '9'), d - '0', sx_ite(In(l, 'a', 'z'), l - 'a' + 10, 99));
        q++;
      }
      int digits = (int)(q - from);
      p = q;
      bool fits = v <= (base == 10 ? 0x7fffffffu : 0xffffffu);
      if (!fits) { CHECK(failed, "huge-literal"); sx_reach("huge"); return; }
      const Token* t = take();
      if (t) {
        CHECK(t->Literal() != nullptr, "literal");
        CHECK(*t->Literal() == (int)v, "literal-value");
        int per = base == 16 ? 2 : 8;
        NumericType want = base == 10 ? T_unknown : digits <= per ? T_byte : digits <= 2 * per ? T_word : T_long;
        CHECK(t->Type() == want, "literal-type");
      }
      sx_reach("number");
      continue;
    }
    // names
    if (c == '.' || First(c)) {
      size_t q = p + 1;
      while (q < s.size() && Word(at(q))) q++;
      std::string_view name(s.data() + p, q - p);
      p = q;
      if (c == '.') {
        bool is_dir = false, is_suf = false;
        uint64_t dir = 0, suf = 0;
        for (auto& e : spec::kDirectives) { bool h = spec::Spells(name, e.text); is_dir |= h; dir = sx_ite(h, e.value, dir); }
        for (auto& e : spec::kSuffixes) { bool h = spec::Spells(name, e.text); is_suf |= h; suf = sx_ite(h, e.value, suf); }
        if (!is_dir & !is_suf) { CHECK(failed, "unknown-dotted-name"); sx_reach("refused"); return; }
        const Token* t = take();
        if (t) {
          if (t->DirectiveName()) CHECK(is_dir & (*t->DirectiveName() == dir), "directive");
          else { CHECK(t->Suffix() != nullptr, "dotted-kind"); CHECK(!is_dir & is_suf & (*t->Suffix() == suf), "suffix"); }
        }
        sx_reach("dotted");
        continue;
      }
      const Token* t = take();
      if (!t) continue;
      bool is_m = false;
      uint64_t mn = 0;
      for (auto& e : spec::kMnemonics) { bool h = spec::Spells(name, e.text); is_m |= h; mn = sx_ite(h, e.value, mn); }
      u8 up = (u8)(c & ~32);
      bool is_reg = (name.size() == 1) & ((up == 'A') | (up == 'S') | (up == 'X') | (up == 'Y')) & (c != '_');
      bool ex = spec::Spells(name, "export"), no = spec::Spells(name, "noreturn"), yi = spec::Spells(name, "yields");
      if (t->Mnemonic()) CHECK(is_m & (*t->Mnemonic() == mn), "mnemonic");
      else if (t->Punctuation()) {
        auto want = sx_ite(is_reg, up, sx_ite(ex, P_export, sx_ite(no, P_noreturn, sx_ite(yi, P_yields, 0))));
        CHECK(!is_m & (want != 0) & ((uint64_t)*t->Punctuation() == want), "keyword");
      } else {
        CHECK(t->Identifier() != nullptr, "name-kind");
        CHECK(!(is_m | is_reg | ex | no | yi), "reserved-word");
        CHECK(t->Identifier()->size() == name.size(), "identifier-length");
        bool same = true;
        for (size_t i = 0; i < name.size(); i++) same &= (*t->Identifier())[i] == name[i];
        CHECK(same, "identifier");
      }
      sx_reach("name");
      continue;
    }
    CHECK(failed, "bad-character");
    sx_reach("refused");
    return;
  }
}
