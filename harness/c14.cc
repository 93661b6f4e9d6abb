// C14: error locations (parts 0, 1) and error-or-value (part 2).
#include <memory>
#include "nsasm/address.h"
#include "nsasm/error.h"
#include "sx.h"
using namespace nsasm;
static std::string Dec(int v) {
  bool neg = v < 0;
  uint32_t u = neg ? 0u - (uint32_t)v : (uint32_t)v;
  std::string r;
  do { r.insert(r.begin(), (char)('0' + u % 10)); u /= 10; } while (u);
  return neg ? "-" + r : r;
}
static std::string Hex6(uint32_t v) {
  std::string r = "0x";
  for (int i = 20; i >= 0; i -= 4) { uint32_t d = v >> i & 15; r += (char)sx_ite(d < 10, '0' + d, 'a' + d - 10); }
  return r;
}
static bool Same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
struct Model {
  std::string path;
  int kind = 0, off = 0;
  std::string Text(const std::string& msg) const {
    if (path.empty()) return msg;
    if (kind == 1) return path + ":" + Dec(off) + ": " + msg;
    if (kind == 2) return path + ":" + Hex6((uint32_t)off) + ": " + msg;
    return path + ": " + msg;
  }
};
static std::string Path() {
  int n = (int)sx_concretize(sx_range(0, (int)sx_param("pathlen"), "pathlen"));
  return sx_string(n, "path");
}
static int Line() { return sx_range(-(int)sx_param("maxline"), (int)sx_param("maxline"), "line"); }
static Location Update(Model& m) {
  switch (sx_concretize(sx_range(0, 4, "kind"))) {
    case 0: {
      std::string p = Path();
      if (!p.empty()) m.path = p;
      return Location(p);
    }
    case 1: {
      m.kind = 1; m.off = Line();
      return Location(m.off);
    }
    case 2: {
      std::string p = Path();
      if (!p.empty()) m.path = p;
      m.kind = 1; m.off = Line();
      return Location(p, m.off);
    }
    case 3: {
      uint32_t a = sx_u32("address");
      sx_assume(a < 0x1000000u);
      m.kind = 2; m.off = (int)a;
      if (sx_param("viaaddress")) return Address(a);
      return Location::FromAddress((int)a);
    }
    default: return Location();
  }
}
static void Report(const Error& e, const Model& m, const std::string& msg) {
  std::string got = e.ToString();
  CHECK(Same(got, m.Text(msg)), "error-text");
  sx_observe("size", got.size());
  if (m.path.empty()) sx_reach("bare");
  else if (m.kind == 1) sx_reach("line");
  else if (m.kind == 2) sx_reach("address");
  else sx_reach("path");
}
template <class T> static Error Give(const ErrorOr<T>& x) { return x.error(); }
static ErrorOr<void> Through(const ErrorOr<void>& v, Location a, Location b) {
  NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, a, b);
  return {};
}
static ErrorOr<void> Plain(const ErrorOr<void>& v) {
  NSASM_RETURN_IF_ERROR(v);
  return {};
}
extern "C" void harness() {
  unsigned n = sx_param("n");
  std::string msg = sx_string(2, "message");
  Model m;
  if (sx_param("part") == 0) {  // one location at a time
    Error e("%s", msg);
    for (unsigned i = 0; i < n; i++) e.SetLocation(Update(m));
    Report(e, m, msg);
  } else if (sx_param("part") == 1) {  // through the two-location forms and macros
    Error e("%s", msg);
    Location a = Update(m), b = Update(m);
    if (sx_bool("macro")) {
      ErrorOr<void> r = Through(ErrorOr<void>(e), a, b);
      CHECK(!r.ok(), "error-lost");
      Report(r.error(), m, msg);
      CHECK(Through(ErrorOr<void>(), a, b).ok(), "success-lost");
      CHECK(Plain(ErrorOr<void>()).ok(), "success-lost-plain");
      ErrorOr<void> q = Plain(r);
      CHECK(!q.ok(), "error-lost-plain");
      Report(q.error(), m, msg);
    } else {
      e.SetLocation(a, b);
      Report(e, m, msg);
    }
  } else if (sx_param("part") == 3) {  // a location updated as a value
    Location l = Update(m), r = Update(m);
    l.Update(r);
    Error e("%s", msg);
    e.SetLocation(l);
    Report(e, m, msg);
    // updating with itself or with nothing changes nothing
    std::string t = l.ToString();
    l.Update(l);
    CHECK(Same(l.ToString(), t), "self-update");
    l.Update(Location());
    CHECK(Same(l.ToString(), t), "empty-update");
  } else {
    // two containers holding a value or an error each
    std::string msg2 = sx_string(2, "message");
    int v = sx_int("v"), w = sx_int("v");
    bool ea = sx_bool("isError"), eb = sx_bool("isError");
    Error e1("%s", msg), e2("%s", msg2);
    e1.SetLocation(Update(m));
    ErrorOr<int> a = ea ? ErrorOr<int>(e1) : ErrorOr<int>(v);
    ErrorOr<int> b = eb ? ErrorOr<int>(e2) : ErrorOr<int>(w);
    CHECK(a.ok() == !ea, "ok");
    bool same = ea == eb && (ea ? Same(msg, msg2) : v == w);
    if (ea != eb || (!ea && !eb) || (ea && !Same(msg, msg2))) {
      CHECK((a == b) == same, "equality");
      CHECK((a != b) == !same, "inequality");
    }
    CHECK(a == a && !(a != a), "self-equality");
    ErrorOr<int> c = a;
    CHECK(c == a && c.ok() == a.ok(), "copy");
    c = b;
    CHECK(c == b && c.ok() == b.ok(), "assign");
    CHECK(a.ok() == !ea, "copy-changes-source");
    ErrorOr<int> d = std::move(c);
    CHECK(d == b, "move");
    if (!ea) {
      CHECK(*a == v, "value");
      *a = w;
      CHECK(*a == w, "value-assign");
      sx_reach("value");
    } else {
      Report(Give(a), m, msg);
      sx_reach("error");
    }
    ErrorOr<std::string> s = ea ? ErrorOr<std::string>(e1) : ErrorOr<std::string>(msg2);
    ErrorOr<std::string> s2 = s;
    CHECK(s == s2 && s2.ok() == !ea, "string-copy");
    if (!ea) {
      CHECK(Same(*s2, msg2) && s2->size() == 2, "string-value");
      std::string taken = *std::move(s2);
      CHECK(Same(taken, msg2), "string-move");
      CHECK(Same(*s, msg2), "string-source");
    }
    ErrorOr<std::unique_ptr<int>> p = ea ? ErrorOr<std::unique_ptr<int>>(e1) : ErrorOr<std::unique_ptr<int>>(std::make_unique<int>(v));
    CHECK(p.ok() == !ea, "pointer-ok");
    ErrorOr<std::unique_ptr<int>> q = std::move(p);
    CHECK(q.ok() == !ea, "pointer-move");
    if (!ea) {
      std::unique_ptr<int> u = *std::move(q);
      CHECK(u && *u == v, "pointer-value");
    } else Report(q.error(), m, msg);
    ErrorOr<void> x = ea ? ErrorOr<void>(e1) : ErrorOr<void>();
    ErrorOr<void> y = x;
    CHECK(y.ok() == !ea && y == x && !(y != x), "void-copy");
    if (ea) Report(y.error(), m, msg);
    ErrorOr<void> z = eb ? ErrorOr<void>(e2) : ErrorOr<void>();
    if (ea != eb) CHECK(x != z && !(x == z), "void-differs");
    y = z;
    CHECK(y.ok() == !eb, "void-assign");
  }
}
