// Harness interface. The same harness source is executed symbolically by
// engine/symx and compiled natively (SX_NATIVE) to replay concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>

#if defined(__clang__)
#define SX_NOMERGE __attribute__((nomerge))
#else
#define SX_NOMERGE
#endif
extern "C" {
uint64_t sx_sym(uint64_t width, const char* name);             // fresh value of that many bits
void sx_sym_bytes(void* p, size_t n, const char* name);        // fresh bytes
void sx_assume(int cond);                                      // precondition
SX_NOMERGE void sx_check(int cond, const char* label);                    // the property
SX_NOMERGE void sx_fail(const char* label);                               // property broken here
SX_NOMERGE void sx_reach(const char* label);                              // reachability witness
uint64_t sx_param(const char* name);                           // case parameter (concrete)
SX_NOMERGE void sx_observe(const char* name, uint64_t v);                 // compared when paths are replayed
uint64_t sx_concretize(uint64_t v);                            // explore each value separately
void sx_stop();                                                // end this path (success)
void sx_print(const char* n, uint64_t v);
#ifdef SX_NATIVE
size_t sx_native_array(const char* name, std::vector<uint8_t>* out, size_t size);
#else
void* sx_sym_array(size_t cap, size_t size, const char* name);
void* sx_zero_array(size_t cap, size_t size, const char* name);
#endif
}

// A byte vector of symbolic size (<= cap) and symbolic content.
inline std::vector<uint8_t> sx_vector(size_t cap, size_t size, const char* name) {
  std::vector<uint8_t> v;
#ifdef SX_NATIVE
  (void)cap;
  sx_native_array(name, &v, size);
#else
  uint8_t* p = (uint8_t*)sx_sym_array(cap, size, name);
  struct Raw { uint8_t *b, *e, *c; } raw{p, p + size, p + size};
  static_assert(sizeof(raw) == sizeof(v));
  __builtin_memcpy((void*)&v, &raw, sizeof raw);
#endif
  return v;
}
inline uint32_t sx_u32(const char* n) { return (uint32_t)sx_sym(32, n); }
inline int sx_int(const char* n) { return (int)(uint32_t)sx_sym(32, n); }
inline uint8_t sx_u8(const char* n) { return (uint8_t)sx_sym(8, n); }
inline uint16_t sx_u16(const char* n) { return (uint16_t)sx_sym(16, n); }
inline bool sx_bool(const char* n) { return sx_sym(1, n) & 1; }
inline int sx_range(int lo, int hi, const char* n) {  // inclusive
  if (lo == hi) return lo;
  int v = sx_int(n);
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
// A string of concrete length with arbitrary bytes.
inline std::string sx_string(size_t n, const char* name) {
  std::string s(n, '?');
  if (n) sx_sym_bytes(&s[0], n, name);
  return s;
}
// Branch-free helpers keep specifications from forking.
inline uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { uint64_t m = 0 - (uint64_t)c; return (a & m) | (b & ~m); }
#define CHECK(c, l) sx_check((c) ? 1 : 0, l)
extern "C" void harness();
