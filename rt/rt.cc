// Run-time support executed symbolically: C library and libstdc++ functions
// that are not available as IR. Plain, specification-like implementations.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include "sx.h"

extern "C" {
void* r_memchr(const void* p, int c, size_t n) __asm__("memchr");
int r_strcmp(const char* a, const char* b) __asm__("strcmp");
int r_strncmp(const char* a, const char* b, size_t n) __asm__("strncmp");
char* r_strchr(const char* s, int c) __asm__("strchr");
char* r_strrchr(const char* s, int c) __asm__("strrchr");
char* r_strstr(const char* h, const char* n) __asm__("strstr");
char* r_strcpy(char* d, const char* s) __asm__("strcpy");
int r_isdigit(int c) __asm__("isdigit");
int r_isupper(int c) __asm__("isupper");
int r_islower(int c) __asm__("islower");
int r_isalpha(int c) __asm__("isalpha");
int r_isalnum(int c) __asm__("isalnum");
int r_isspace(int c) __asm__("isspace");
int r_isxdigit(int c) __asm__("isxdigit");
int r_ispunct(int c) __asm__("ispunct");
int r_isprint(int c) __asm__("isprint");
int r_tolower(int c) __asm__("tolower");
int r_toupper(int c) __asm__("toupper");
int r_abs(int x) __asm__("abs");
unsigned long r_strtoul(const char* s, char** end, int base) __asm__("strtoul");
long r_strtol(const char* s, char** end, int base) __asm__("strtol");
long long r_strtoll(const char* s, char** e, int b) __asm__("strtoll");
unsigned long long r_strtoull(const char* s, char** e, int b) __asm__("strtoull");
long r___isoc23_strtol(const char* s, char** e, int b) __asm__("__isoc23_strtol");
unsigned long r___isoc23_strtoul(const char* s, char** e, int b) __asm__("__isoc23_strtoul");
long long r___isoc23_strtoll(const char* s, char** e, int b) __asm__("__isoc23_strtoll");
unsigned long long r___isoc23_strtoull(const char* s, char** e, int b) __asm__("__isoc23_strtoull");
int r_atoi(const char* s) __asm__("atoi");
void* r_memchr(const void* p, int c, size_t n) {
  auto b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void*)(b + i);
  return nullptr;
}
int r_strcmp(const char* a, const char* b) {
  for (;; a++, b++) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
}
int r_strncmp(const char* a, const char* b, size_t n) {
  for (; n; a++, b++, n--) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
  return 0;
}
char* r_strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
char* r_strrchr(const char* s, int c) {
  const char* r = nullptr;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* r_strstr(const char* h, const char* n) {
  for (;; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char*)h;
    if (!*h) return nullptr;
  }
}
char* r_strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
int r_isdigit(int c) { return c >= '0' && c <= '9'; }
int r_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int r_islower(int c) { return c >= 'a' && c <= 'z'; }
int r_isalpha(int c) { return r_isupper(c) || r_islower(c); }
int r_isalnum(int c) { return r_isalpha(c) || r_isdigit(c); }
int r_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int r_isxdigit(int c) { return r_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int r_ispunct(int c) { return c > 32 && c < 127 && !r_isalnum(c); }
int r_isprint(int c) { return c >= 32 && c < 127; }
int r_tolower(int c) { return c + (r_isupper(c) << 5); }
int r_toupper(int c) { return c - (r_islower(c) << 5); }
int r_abs(int x) { return x < 0 ? -x : x; }

static bool digitVal(char c, int base, int* out) {
  unsigned u = (unsigned char)c, l = u | 32;  // branch-free: one decision per character
  bool dig = (u >= '0') & (u <= '9'), let = (l >= 'a') & (l <= 'z');
  unsigned d = (unsigned)sx_ite(dig, u - '0', sx_ite(let, l - 'a' + 10, 99));
  *out = (int)d;
  return d < (unsigned)base;
}
static unsigned long parseU(const char* s, char** end, int base, bool* neg, bool* overflow) {
  const char* start = s;
  while (r_isspace((unsigned char)*s)) s++;
  *neg = false;
  if (*s == '-' || *s == '+') { *neg = *s == '-'; s++; }
  int d;
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x' && digitVal(s[2], 16, &d)) { s += 2; base = 16; }
  if (base == 0) base = s[0] == '0' ? 8 : 10;
  unsigned long v = 0;
  bool any = false;
  *overflow = false;
  while (digitVal(*s, base, &d)) {
    unsigned long m;
    if (__builtin_mul_overflow(v, (unsigned long)base, &m) || __builtin_add_overflow(m, (unsigned long)d, &v)) *overflow = true;
    any = true;
    s++;
  }
  if (end) *end = (char*)(any ? s : start);
  return v;
}
unsigned long r_strtoul(const char* s, char** end, int base) {
  bool neg, ov;
  unsigned long v = parseU(s, end, base, &neg, &ov);
  if (ov) return ~0ul;
  return neg ? 0 - v : v;
}
long r_strtol(const char* s, char** end, int base) {
  bool neg, ov;
  unsigned long v = parseU(s, end, base, &neg, &ov);
  if (ov || v > 0x7ffffffffffffffful + (neg ? 1 : 0)) return neg ? (long)(1ul << 63) : 0x7fffffffffffffffl;
  return neg ? (long)(0 - v) : (long)v;
}
long r___isoc23_strtol(const char* s, char** e, int b) { return r_strtol(s, e, b); }
unsigned long r___isoc23_strtoul(const char* s, char** e, int b) { return r_strtoul(s, e, b); }
long long r_strtoll(const char* s, char** e, int b) { return r_strtol(s, e, b); }
long long r___isoc23_strtoll(const char* s, char** e, int b) { return r_strtol(s, e, b); }
unsigned long long r_strtoull(const char* s, char** e, int b) { return r_strtoul(s, e, b); }
unsigned long long r___isoc23_strtoull(const char* s, char** e, int b) { return r_strtoul(s, e, b); }
int r_atoi(const char* s) { return (int)r_strtol(s, nullptr, 10); }
static int gErrno;
int* __errno_location() { return &gErrno; }
int __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char*) {}

// sscanf with one conversion: %x, %d, %i, %u
int __sx_sscanf3(const char* s, const char* f, void* out) {
  int base = f[1] == 'x' || f[1] == 'X' ? 16 : f[1] == 'i' ? 0 : 10;
  const char* t = s;
  while (r_isspace((unsigned char)*t)) t++;
  if (!*t) return -1;
  char* end;
  bool neg, ov;
  unsigned long v = parseU(s, &end, base, &neg, &ov);
  if (end == s) return 0;
  long r;
  if (f[1] == 'd' || f[1] == 'i') r = ov || v > 0x7ffffffffffffffful ? (neg ? (long)(1ul << 63) : 0x7fffffffffffffffl) : neg ? -(long)v : (long)v;
  else r = ov ? -1 : neg ? (long)(0 - v) : (long)v;
  *(int*)out = (int)r;
  return 1;
}

// ---- dynamic_cast over single inheritance
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern void* _ZTVN10__cxxabiv117__class_type_infoE[];
struct TI { void** vptr; const char* name; TI* base; };
void* __dynamic_cast(const void* src, const TI*, const TI* dst, ptrdiff_t) {
  void** vt = *(void***)src;
  ptrdiff_t top = (ptrdiff_t)vt[-2];
  TI* t = (TI*)vt[-1];
  while (t) {
    if (t == dst) return (char*)src + top;
    if (t->vptr == &_ZTVN10__cxxabiv120__si_class_type_infoE[2]) t = t->base;
    else if (t->vptr == &_ZTVN10__cxxabiv117__class_type_infoE[2]) t = nullptr;
    else abort();
  }
  return nullptr;
}
}  // extern "C"

// ---- libstdc++ internals (unbalanced but ordered trees)
namespace std {
typedef _Rb_tree_node_base N;
static N* inc(N* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static N* dec(N* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_GLIBCXX_PURE N* _Rb_tree_increment(N* x) throw() { return inc(x); }
_GLIBCXX_PURE const N* _Rb_tree_increment(const N* x) throw() { return inc((N*)x); }
_GLIBCXX_PURE N* _Rb_tree_decrement(N* x) throw() { return dec(x); }
_GLIBCXX_PURE const N* _Rb_tree_decrement(const N* x) throw() { return dec((N*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  N* rep;  // subtree that takes z's place
  if (!z->_M_left) rep = z->_M_right;
  else if (!z->_M_right) rep = z->_M_left;
  else {
    N* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
    rep = y;
  }
  N* p = z->_M_parent;
  if (p == &h) h._M_parent = rep;
  else if (p->_M_left == z) p->_M_left = rep;
  else p->_M_right = rep;
  if (rep) rep->_M_parent = p;
  N* root = h._M_parent;
  if (!root) { h._M_left = &h; h._M_right = &h; }
  else {
    N* m = root; while (m->_M_left) m = m->_M_left; h._M_left = m;
    m = root; while (m->_M_right) m = m->_M_right; h._M_right = m;
  }
  return z;
}
namespace __detail {
struct _SxList { _SxList *next, *prev; };
}
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
}  // namespace std
extern "C" {
struct SxL { SxL *next, *prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(SxL* self, SxL* pos) {
  self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self;
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(SxL* self) { self->prev->next = self->next; self->next->prev = self->prev; }
struct SxPolicy { float maxload; size_t next; };
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(SxPolicy* p, size_t n) {
  size_t k = 13;
  while (k < n) k = k * 2 + 1;
  p->next = k;
  return k;
}
struct SxPair { uint64_t first; size_t second; };
SxPair _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(SxPolicy* p, size_t bkt, size_t elt, size_t ins) {
  if (elt + ins <= bkt && bkt > 1) return {0, 0};
  size_t k = 13;
  while (k < elt + ins) k = k * 2 + 1;
  if (k < bkt) k = bkt;
  p->next = k;
  return {1, k};
}
}
