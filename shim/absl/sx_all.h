// A small, header-only stand-in for the parts of Abseil that nsasm uses (and
// some more), built on the C++ standard library, so that the sources compile to
// self-contained LLVM IR. Containers keep insertion order and compare with ==,
// which is one of the iteration orders Abseil allows.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cstdlib>
#include <deque>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <ostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <stack>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#define ABSL_MUST_USE_RESULT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_NORETURN [[noreturn]]
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_CONST_INIT
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_ASSERT(x) assert(x)
#define ABSL_HARDENING_ASSERT(x) assert(x)
#define ABSL_DEPRECATED(m)
#define ABSL_GUARDED_BY(x)

extern "C" void sx_stdout(const char* p, size_t n);

namespace absl {
using std::bad_optional_access;
using std::bad_variant_access;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::in_place;
using std::in_place_index;
using std::in_place_index_t;
using std::in_place_t;
using std::in_place_type;
using std::in_place_type_t;
using std::make_optional;
using std::make_unique;
using std::monostate;
using std::nullopt;
using std::nullopt_t;
using std::optional;
using std::string_view;
using std::variant;
using std::variant_alternative;
using std::variant_size;
using std::visit;
using std::exchange;
using std::apply;
template <class T> using remove_cvref_t = std::remove_cvref_t<T>;
template <class T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
template <class T, class U> constexpr T implicit_cast(U&& u) { return static_cast<T>(u); }
template <class... F> struct Overload : F... { using F::operator()...; };
template <class... F> Overload(F...) -> Overload<F...>;

// ---- Span
template <typename T>
class Span {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T*;
  using reference = T&;
  using iterator = T*;
  using const_iterator = const T*;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  static constexpr size_t npos = ~size_t(0);
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <class V, class = std::enable_if_t<!std::is_same_v<std::decay_t<V>, Span> &&
                std::is_convertible_v<decltype(std::declval<V&>().data()), T*> && !std::is_array_v<V>>,
            class = decltype(std::declval<V&>().size())>
  constexpr Span(V& v) : p_(v.data()), n_(v.size()) {}
  template <class V, class = std::enable_if_t<!std::is_same_v<std::decay_t<V>, Span> && std::is_const_v<T> &&
                std::is_convertible_v<decltype(std::declval<const V&>().data()), T*>>,
            class = decltype(std::declval<const V&>().size()), class = void>
  constexpr Span(const V& v) : p_(v.data()), n_(v.size()) {}
  template <class U = T, class = std::enable_if_t<std::is_const_v<U>>>
  constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; }
  constexpr T& at(size_t i) const { if (i >= n_) __builtin_trap(); return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  constexpr auto rbegin() const { return std::reverse_iterator<T*>(end()); }
  constexpr auto rend() const { return std::reverse_iterator<T*>(begin()); }
  void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { n_ -= n; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t n) const { return Span(p_, n); }
  constexpr Span last(size_t n) const { return Span(p_ + n_ - n, n); }

 private:
  T* p_;
  size_t n_;
};
namespace sxi {
template <class A, class B>
bool SpanEq(const A& a, const B& b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}
}  // namespace sxi
template <class T> bool operator==(Span<T> a, Span<T> b) { return sxi::SpanEq(a, b); }
template <class T> bool operator==(Span<const T> a, Span<T> b) { return sxi::SpanEq(a, b); }
template <class T> bool operator==(Span<T> a, Span<const T> b) { return sxi::SpanEq(a, b); }
template <class T, class U, class = std::enable_if_t<std::is_convertible_v<const U&, Span<const T>> && !std::is_same_v<U, Span<const T>> && !std::is_same_v<U, Span<std::remove_const_t<T>>>>>
bool operator==(Span<T> a, const U& b) { return sxi::SpanEq(a, Span<const T>(b)); }
#if __cplusplus < 202002L
template <class T> bool operator!=(Span<T> a, Span<T> b) { return !(a == b); }
#endif
template <class T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class T> constexpr Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <class C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <class T> constexpr Span<const T> MakeConstSpan(const T* p, size_t n) { return Span<const T>(p, n); }
template <class T> constexpr Span<const T> MakeConstSpan(const T* b, const T* e) { return Span<const T>(b, e - b); }
template <class C> constexpr auto MakeConstSpan(const C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }

// ---- hashing (never called; AbslHashValue overloads only need to parse)
template <class T> struct Hash { size_t operator()(const T&) const { return 0; } };
struct HashState {
  template <class H, class... A> static H combine(H h, const A&...) { return h; }
};

// ---- containers
namespace sxi {
template <class K, class V, class KeyOf>
class Table {
 public:
  using key_type = K;
  using value_type = V;
  using reference = V&;
  using const_reference = const V&;
  using pointer = V*;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using List = std::vector<std::unique_ptr<V>>;
  template <class It, class R>
  struct Iter {
    using iterator_category = std::forward_iterator_tag;
    using value_type = V;
    using difference_type = ptrdiff_t;
    using pointer = R*;
    using reference = R&;
    It it{};
    Iter() {}
    explicit Iter(It i) : it(i) {}
    template <class I2, class R2> Iter(const Iter<I2, R2>& o) : it(o.it) {}
    R& operator*() const { return **it; }
    R* operator->() const { return it->get(); }
    Iter& operator++() { ++it; return *this; }
    Iter operator++(int) { Iter t = *this; ++it; return t; }
    friend bool operator==(const Iter& a, const Iter& b) { return a.it == b.it; }
    friend bool operator!=(const Iter& a, const Iter& b) { return a.it != b.it; }
  };
  using iterator = Iter<typename List::iterator, std::conditional_t<std::is_same_v<K, V>, const V, V>>;
  using const_iterator = Iter<typename List::const_iterator, const V>;
  Table() {}
  Table(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <class I> Table(I b, I e) { for (; b != e; ++b) insert(*b); }
  Table(const Table& o) { *this = o; }
  Table(Table&& o) : l_(std::move(o.l_)) { o.l_.clear(); }
  Table& operator=(const Table& o) {
    if (this != &o) { l_.clear(); for (auto& p : o.l_) l_.push_back(std::make_unique<V>(*p)); }
    return *this;
  }
  Table& operator=(Table&& o) { l_ = std::move(o.l_); o.l_.clear(); return *this; }
  iterator begin() { return iterator(l_.begin()); }
  iterator end() { return iterator(l_.end()); }
  const_iterator begin() const { return const_iterator(l_.begin()); }
  const_iterator end() const { return const_iterator(l_.end()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return l_.size(); }
  bool empty() const { return l_.empty(); }
  void clear() { l_.clear(); }
  void reserve(size_t) {}
  void rehash(size_t) {}
  template <class Q> iterator find(const Q& k) {
    for (auto it = l_.begin(); it != l_.end(); ++it) if (KeyOf()(**it) == k) return iterator(it);
    return end();
  }
  template <class Q> const_iterator find(const Q& k) const {
    for (auto it = l_.begin(); it != l_.end(); ++it) if (KeyOf()(**it) == k) return const_iterator(it);
    return end();
  }
  template <class Q> bool contains(const Q& k) const { return find(k) != end(); }
  template <class Q> size_t count(const Q& k) const { return contains(k); }
  std::pair<iterator, bool> insert(const V& v) { return emplace(v); }
  std::pair<iterator, bool> insert(V&& v) { return emplace(std::move(v)); }
  template <class P, class = std::enable_if_t<std::is_constructible_v<V, P&&>>> std::pair<iterator, bool> insert(P&& v) { return emplace(std::forward<P>(v)); }
  iterator insert(const_iterator, const V& v) { return emplace(v).first; }
  template <class I> void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) {
    auto p = std::make_unique<V>(std::forward<A>(a)...);
    auto it = find(KeyOf()(*p));
    if (it != end()) return {it, false};
    l_.push_back(std::move(p));
    return {iterator(l_.end() - 1), true};
  }
  template <class... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  template <class Q, class = std::enable_if_t<!std::is_convertible_v<const Q&, const_iterator>>> size_t erase(const Q& k) {
    auto it = find(k);
    if (it == end()) return 0;
    l_.erase(it.it);
    return 1;
  }
  void erase(iterator it) { l_.erase(it.it); }
  void swap(Table& o) { l_.swap(o.l_); }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (auto& p : a.l_) { auto it = b.find(KeyOf()(*p)); if (it == b.end() || !(*it == *p)) return false; }
    return true;
  }

 protected:
  List l_;
};
struct First { template <class P> auto& operator()(P& p) const { return p.first; } };
struct Self { template <class P> auto& operator()(P& p) const { return p; } };
template <class K, class M>
class Map : public Table<K, std::pair<const K, M>, First> {
  using B = Table<K, std::pair<const K, M>, First>;

 public:
  using mapped_type = M;
  using B::B;
  using iterator = typename B::iterator;
  Map() {}
  M& operator[](const K& k) {
    auto it = B::find(k);
    if (it != B::end()) return it->second;
    return B::emplace(std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>()).first->second;
  }
  template <class Q> M& at(const Q& k) { auto it = B::find(k); if (it == B::end()) __builtin_trap(); return it->second; }
  template <class Q> const M& at(const Q& k) const { auto it = B::find(k); if (it == B::end()) __builtin_trap(); return it->second; }
  template <class Q, class... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    auto it = B::find(k);
    if (it != B::end()) return {it, false};
    return B::emplace(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...));
  }
  template <class Q, class T> std::pair<iterator, bool> insert_or_assign(Q&& k, T&& v) {
    auto it = B::find(k);
    if (it != B::end()) { it->second = std::forward<T>(v); return {it, false}; }
    return B::emplace(std::forward<Q>(k), std::forward<T>(v));
  }
};
}  // namespace sxi
template <class K, class V, class H = void, class E = void, class A = void> using flat_hash_map = sxi::Map<K, V>;
template <class K, class V, class H = void, class E = void, class A = void> using node_hash_map = sxi::Map<K, V>;
template <class K, class H = void, class E = void, class A = void> using flat_hash_set = sxi::Table<K, K, sxi::Self>;
template <class K, class H = void, class E = void, class A = void> using node_hash_set = sxi::Table<K, K, sxi::Self>;
template <class K, class V, class C = std::less<K>> using btree_map = std::map<K, V, C>;
template <class K, class C = std::less<K>> using btree_set = std::set<K, C>;
template <class K, class V, class C = std::less<K>> using btree_multimap = std::multimap<K, V, C>;
template <class T, size_t N, class A = std::allocator<T>> using InlinedVector = std::vector<T>;
template <class T, size_t N = 0, class A = std::allocator<T>> using FixedArray = std::vector<T>;

template <class C, class T> bool c_linear_search(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class T> auto c_find(C& c, const T& v) { return std::find(std::begin(c), std::end(c), v); }
template <class C, class F> auto c_find_if(C& c, F f) { return std::find_if(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_any_of(const C& c, F f) { return std::any_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_all_of(const C& c, F f) { return std::all_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool c_none_of(const C& c, F f) { return std::none_of(std::begin(c), std::end(c), f); }
template <class C, class T> auto c_count(const C& c, const T& v) { return std::count(std::begin(c), std::end(c), v); }
template <class C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <class C, class F> void c_sort(C& c, F f) { std::sort(std::begin(c), std::end(c), f); }
template <class C, class D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template <class C, class O> auto c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }

// ---- strings
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isalpha(unsigned char c) { return ascii_isupper(c) || ascii_islower(c); }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isgraph(c) && !ascii_isalnum(c); }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline char ascii_tolower(unsigned char c) { return char(c | ((unsigned)ascii_isupper(c) << 5)); }
inline char ascii_toupper(unsigned char c) { return char(c & ~((unsigned)ascii_islower(c) << 5)); }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) c = ascii_tolower((unsigned char)c); }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) c = ascii_toupper((unsigned char)c); }
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); AsciiStrToLower(&r); return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); AsciiStrToUpper(&r); return r; }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s[0])) s.remove_prefix(1); return s; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripLeadingAsciiWhitespace(std::string* s) { std::string t(StripLeadingAsciiWhitespace(std::string_view(*s))); *s = t; }
inline void StripTrailingAsciiWhitespace(std::string* s) { std::string t(StripTrailingAsciiWhitespace(std::string_view(*s))); *s = t; }
inline void StripAsciiWhitespace(std::string* s) { std::string t(StripAsciiWhitespace(std::string_view(*s))); *s = t; }
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != std::string_view::npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != std::string_view::npos; }
inline bool StartsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (ascii_tolower(a[i]) != ascii_tolower(b[i])) return false;
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view s, std::string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view s, std::string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(s.size() - p.size()), p); }
inline bool ConsumePrefix(std::string_view* s, std::string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(std::string_view* s, std::string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
inline std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }

namespace sxi {
inline std::string UDec(unsigned long long v) {
  char b[24];
  int n = 24;
  do { b[--n] = char('0' + v % 10); v /= 10; } while (v);
  return std::string(b + n, 24 - n);
}
inline std::string IDec(long long v) { return v < 0 ? "-" + UDec(0ull - (unsigned long long)v) : UDec(v); }
struct Arg {
  enum K { I, U, C, S, D, P } k;
  unsigned long long u = 0;
  std::string_view s;
  unsigned size = 8;
  template <class T> static Arg Make(const T& t) {
    Arg a;
    using X = std::decay_t<T>;
    if constexpr (std::is_same_v<X, bool>) { a.k = I; a.u = t; a.size = 4; }
    else if constexpr (std::is_same_v<X, char>) { a.k = C; a.u = (unsigned long long)(long long)t; a.size = 1; }
    else if constexpr (std::is_enum_v<X>) { a.k = I; a.u = (unsigned long long)(long long)t; a.size = sizeof(X); }
    else if constexpr (std::is_integral_v<X>) { a.k = std::is_signed_v<X> ? I : U; a.u = std::is_signed_v<X> ? (unsigned long long)(long long)t : (unsigned long long)t; a.size = sizeof(X); }
    else if constexpr (std::is_floating_point_v<X>) { a.k = D; }
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { a.k = S; a.s = std::string_view(t); }
    else { a.k = P; }
    return a;
  }
};
inline std::string Format(const char* f, const Arg* a, size_t n) {
  std::string r;
  size_t ai = 0;
  for (; *f; f++) {
    if (*f != '%') { r.push_back(*f); continue; }
    f++;
    if (*f == '%') { r.push_back('%'); continue; }
    bool left = false, zero = false, plus = false, alt = false, space = false;
    for (;; f++) {
      if (*f == '-') left = true;
      else if (*f == '0') zero = true;
      else if (*f == '+') plus = true;
      else if (*f == '#') alt = true;
      else if (*f == ' ') space = true;
      else break;
    }
    auto num = [&](long long& out) {
      if (*f == '*') { out = ai < n ? (long long)a[ai++].u : 0; f++; return; }
      out = 0;
      while (*f >= '0' && *f <= '9') out = out * 10 + (*f++ - '0');
    };
    long long width = 0, prec = -1;
    num(width);
    if (width < 0) { left = true; width = -width; }
    if (*f == '.') { f++; num(prec); }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L' || *f == 'q') f++;
    if (!*f) break;
    char c = *f;
    std::string body;
    Arg x;
    if (ai < n) x = a[ai++]; else { r += "<?>"; continue; }
    if (c == 'v') c = x.k == Arg::S ? 's' : x.k == Arg::C ? 'c' : x.k == Arg::U ? 'u' : 'd';
    std::string sign;
    switch (c) {
      case 's':
        if (x.k == Arg::S) body = std::string(prec >= 0 && (size_t)prec < x.s.size() ? x.s.substr(0, prec) : x.s);
        zero = false;
        break;
      case 'c': body = std::string(1, (char)x.u); zero = false; break;
      case 'd': case 'i': {
        if (x.k == Arg::U) body = UDec(x.u);
        else {
          long long v = (long long)x.u;
          if (v < 0) sign = "-"; else if (plus) sign = "+"; else if (space) sign = " ";
          body = UDec(v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v);
        }
        break;
      }
      case 'u': {
        unsigned long long v = x.u;
        if (x.size < 8) v &= (1ull << (8 * x.size)) - 1;
        body = UDec(v);
        break;
      }
      case 'x': case 'X': case 'o': case 'b': {
        unsigned long long v = x.u;
        if (x.size < 8) v &= (1ull << (8 * x.size)) - 1;
        int sh = c == 'o' ? 3 : c == 'b' ? 1 : 4;
        unsigned digits = 0;
        unsigned want = (zero && !left) ? (unsigned)width : 0;
        if (prec > (long long)want) want = prec;
        char up = c == 'X' ? 'A' : 'a';
        std::string rev;
        for (;;) {
          // fixed-width numbers stay free of value-dependent branches
          if (digits >= (want ? want : 1) && v == 0) break;
          unsigned d = v & ((1u << sh) - 1);
          rev.push_back(char(d + '0' + (d > 9 ? up - '0' - 10 : 0)));
          v >>= sh;
          digits++;
        }
        body.assign(rev.rbegin(), rev.rend());
        if (alt && c != 'o') sign = c == 'X' ? "0X" : "0x";
        break;
      }
      default: body = "?"; break;
    }
    if (prec >= 0 && c != 's' && c != 'c') { zero = false; while ((long long)body.size() < prec) body.insert(body.begin(), '0'); }
    long long len = body.size() + sign.size();
    std::string pad = len < width ? std::string(width - len, zero && !left ? '0' : ' ') : std::string();
    if (left) r += sign + body + pad;
    else if (zero) r += sign + pad + body;
    else r += pad + sign + body;
  }
  return r;
}
struct Spec {
  const char* f;
  constexpr Spec(const char* s) : f(s) {}
  constexpr Spec(std::string_view s) : f(s.data()) {}
};
template <class... A> struct Id { using type = Spec; };
}  // namespace sxi
template <class... A> using FormatSpec = typename sxi::Id<A...>::type;

template <class... A>
std::string StrFormat(const FormatSpec<A...>& f, const A&... args) {
#ifdef SX_STUB_FORMAT
  (void)f; ((void)args, ...);
  return std::string("~");  // text is not the subject: any non-empty string
#else
  sxi::Arg a[sizeof...(A) + 1] = {sxi::Arg::Make(args)...};
  return sxi::Format(f.f, a, sizeof...(A));
#endif
}
template <class... A>
int PrintF(const FormatSpec<A...>& f, const A&... args) {
  std::string s = StrFormat(f, args...);
  sx_stdout(s.data(), s.size());
  return s.size();
}
template <class... A>
int FPrintF(FILE*, const FormatSpec<A...>& f, const A&... args) { std::string s = StrFormat(f, args...); return s.size(); }
template <class... A>
std::string& StrAppendFormat(std::string* d, const FormatSpec<A...>& f, const A&... args) { d->append(StrFormat(f, args...)); return *d; }

namespace sxi {
template <class T> void CatOne(std::string& r, const T& t) {
  using X = std::decay_t<T>;
  if constexpr (std::is_same_v<X, bool>) r += t ? "1" : "0";
  else if constexpr (std::is_same_v<X, char>) r.push_back(t);
  else if constexpr (std::is_enum_v<X>) r += IDec((long long)t);
  else if constexpr (std::is_integral_v<X>) { if constexpr (std::is_signed_v<X>) r += IDec(t); else r += UDec(t); }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) r += std::string_view(t);
  else r += std::string_view(t.Piece());
}
}  // namespace sxi
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8 };
struct Hex {
  std::string s;
  template <class T> explicit Hex(T v, PadSpec p = kNoPad) {
    unsigned long long u = (std::make_unsigned_t<T>)v;
    unsigned n = 0;
    std::string r;
    while (n < (unsigned)p || u) { unsigned d = u & 15; r.push_back(char(d + '0' + (d > 9 ? 39 : 0))); u >>= 4; n++; }
    s.assign(r.rbegin(), r.rend());
  }
  std::string_view Piece() const { return s; }
};
template <class... A> std::string StrCat(const A&... a) { std::string r; (sxi::CatOne(r, a), ...); return r; }
template <class... A> void StrAppend(std::string* d, const A&... a) { (sxi::CatOne(*d, a), ...); }
using AlphaNum = std::string_view;

struct AlphaNumFormatterImpl { template <class T> void operator()(std::string* o, const T& t) const { StrAppend(o, t); } };
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
template <class I, class F> std::string StrJoin(I b, I e, std::string_view sep, F&& f) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) { if (!first) r += sep; first = false; f(&r, *b); }
  return r;
}
template <class I, class = decltype(*std::declval<I>()), class = decltype(++std::declval<I&>())>
std::string StrJoin(I b, I e, std::string_view sep) { return StrJoin(b, e, sep, AlphaNumFormatter()); }
template <class C, class F, class = decltype(std::declval<const C&>().begin()), class = std::enable_if_t<!std::is_convertible_v<F, std::string_view>>>
std::string StrJoin(const C& c, std::string_view sep, F&& f) { return StrJoin(c.begin(), c.end(), sep, f); }
template <class C, class = decltype(std::declval<const C&>().begin())>
std::string StrJoin(const C& c, std::string_view sep) { return StrJoin(c.begin(), c.end(), sep, AlphaNumFormatter()); }

struct ByChar { char c; explicit ByChar(char x) : c(x) {} };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
namespace sxi {
struct Pieces {
  std::vector<std::string_view> v;
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  template <class C, class = decltype(std::declval<C&>().push_back(typename C::value_type(std::string_view())))>
  operator C() const { C c; for (auto& s : v) c.push_back(typename C::value_type(s)); return c; }
};
}  // namespace sxi
template <class P = AllowEmpty>
sxi::Pieces StrSplit(std::string_view s, char d, P p = P()) {
  sxi::Pieces r;
  size_t st = 0;
  for (size_t i = 0; i <= s.size(); i++)
    if (i == s.size() || s[i] == d) { auto x = s.substr(st, i - st); if (p(x)) r.v.push_back(x); st = i + 1; }
  return r;
}
template <class P = AllowEmpty> sxi::Pieces StrSplit(std::string_view s, ByChar d, P p = P()) { return StrSplit(s, d.c, p); }
template <class P = AllowEmpty>
sxi::Pieces StrSplit(std::string_view s, std::string_view d, P p = P()) {
  sxi::Pieces r;
  size_t st = 0;
  for (;;) {
    size_t i = s.find(d, st);
    auto x = s.substr(st, i == std::string_view::npos ? i : i - st);
    if (p(x)) r.v.push_back(x);
    if (i == std::string_view::npos) break;
    st = i + d.size();
  }
  return r;
}
namespace sxi {
template <class T> bool Atoi(std::string_view s, T* out, int base) {
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (base == 16 && s.size() >= 2 && s[0] == '0' && (s[1] | 32) == 'x') s.remove_prefix(2);
  if (s.empty()) { *out = 0; return false; }
  __int128 v = 0;
  for (char c : s) {
    int d = ascii_isdigit(c) ? c - '0' : ascii_isalpha(c) ? (c | 32) - 'a' + 10 : 99;
    if (d >= base) { *out = 0; return false; }
    v = v * base + d;
    if (v > ((__int128)1 << 70)) v = (__int128)1 << 70;
  }
  if (neg) v = -v;
  if (v > (__int128)std::numeric_limits<T>::max()) { *out = std::numeric_limits<T>::max(); return false; }
  if (v < (__int128)std::numeric_limits<T>::min()) { *out = std::numeric_limits<T>::min(); return false; }
  *out = (T)v;
  return true;
}
}  // namespace sxi
template <class T> bool SimpleAtoi(std::string_view s, T* out) { return sxi::Atoi(s, out, 10); }
template <class T> bool SimpleHexAtoi(std::string_view s, T* out) { return sxi::Atoi(s, out, 16); }
}  // namespace absl
