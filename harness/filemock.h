// Model of the C file interface: one input file of arbitrary size and content,
// one output file; every operation may fail. The repository's files are
// linked with fopen & co. replaced by these.
#pragma once
#include <cstdio>
#include <string>
#include <vector>
#include "sx.h"
namespace fm {
inline std::vector<uint8_t> in;       // content of the readable file
inline uint64_t in_size;
inline bool may_fail;                 // environment faults enabled
inline bool one_fault;              // at most one fault, short reads are empty or one byte short
inline bool failed;                   // some operation failed on this run
inline bool exists = true;
struct F { int open; bool write; uint64_t pos; bool eof; std::string path; };
inline F files[4];
inline int nfiles;
inline std::vector<uint8_t> out;      // bytes written
inline int bad_use;                   // operations on closed or null files
inline int opened, closed;
inline bool fault(const char* n) {
  if (!may_fail || (one_fault && failed)) return false;
  bool f = sx_bool(n);
  failed |= f;
  return f;
}
inline F* get(FILE* f) {
  F* x = (F*)f;
  if (!x || x->open != 1) { bad_use++; sx_fail("io-on-closed-file"); }
  return x;
}
}  // namespace fm
#ifdef SX_NATIVE
#define FM_NAME(n)           // the objects under test get fopen & co. renamed
#else
#define FM_NAME(n) __asm__(n)
#endif
extern "C" {
FILE* sx_fopen(const char*, const char* mode) FM_NAME("fopen");
int sx_fclose(FILE* p) FM_NAME("fclose");
int sx_fseek(FILE* p, long off, int whence) FM_NAME("fseek");
int sx_fseeko(FILE* p, long off, int whence) FM_NAME("fseeko");
void sx_rewind(FILE* p) FM_NAME("rewind");
long sx_ftell(FILE* p) FM_NAME("ftell");
long sx_ftello(FILE* p) FM_NAME("ftello");
size_t sx_fread(void* d, size_t sz, size_t n, FILE* p) FM_NAME("fread");
size_t sx_fwrite(const void* s, size_t sz, size_t n, FILE* p) FM_NAME("fwrite");
int sx_feof(FILE* p) FM_NAME("feof");
int sx_ferror(FILE* p) FM_NAME("ferror");
int sx_fflush(FILE*) FM_NAME("fflush");
FILE* sx_fopen(const char* path, const char* mode) {
  if (fm::fault("fopen")) return nullptr;
  if (mode[0] == 'r' && !fm::exists) { fm::failed = true; return nullptr; }
  if (fm::nfiles == 4) sx_fail("too-many-files");
  fm::F* f = &fm::files[fm::nfiles++];
  f->open = 1;
  f->path = path;
  f->write = mode[0] == 'w';
  if (f->write) fm::out.clear();
  fm::opened++;
  return (FILE*)f;
}
int sx_fclose(FILE* p) {
  fm::F* f = fm::get(p);
  f->open = 2;
  fm::closed++;
  return f->write && fm::fault("fclose") ? EOF : 0;
}
int sx_fseek(FILE* p, long off, int whence) {
  fm::F* f = fm::get(p);
  if (fm::fault("fseek")) return -1;
  f->pos = whence == SEEK_SET ? off : whence == SEEK_CUR ? f->pos + off : fm::in_size + off;
  return 0;
}
int sx_fseeko(FILE* p, long off, int whence) { return sx_fseek(p, off, whence); }
void sx_rewind(FILE* p) { sx_fseek(p, 0, SEEK_SET); }
long sx_ftell(FILE* p) {
  fm::F* f = fm::get(p);
  if (fm::fault("ftell")) return -1;
  return f->pos;
}
long sx_ftello(FILE* p) { return sx_ftell(p); }
size_t sx_fread(void* d, size_t sz, size_t n, FILE* p) {
  fm::F* f = fm::get(p);
  size_t want = sz * n, left = f->pos < fm::in_size ? fm::in_size - f->pos : 0;
  size_t got = sx_ite(want < left, want, left);
  if (fm::fault("fread")) {  // a short read of any length
    size_t g = sx_sym(32, "short");
    sx_assume(g < want);
    if (fm::one_fault) {
      sx_assume((g == 0) | (g == want - 1));
      g = sx_concretize(g);
    }
    got = sx_ite(g < got, g, got);
  }
  if (got < want) f->eof = true;
  memcpy(d, fm::in.data() + f->pos, got);
  f->pos += got;
  return sz == 1 ? got : sz ? got / sz : 0;
}
size_t sx_fwrite(const void* s, size_t sz, size_t n, FILE* p) {
  fm::F* f = fm::get(p);
  (void)f;
  size_t want = sz * n;
  if (fm::fault("fwrite")) return 0;
  size_t old = fm::out.size();
  if (old == 0) {
    fm::out.assign((const uint8_t*)s, (const uint8_t*)s + want);
  } else {
    std::vector<uint8_t> j(old + want);
    memcpy(j.data(), fm::out.data(), old);
    memcpy(j.data() + old, s, want);
    fm::out = std::move(j);
  }
  return n;
}
int sx_feof(FILE* p) { return fm::get(p)->eof; }
int sx_ferror(FILE* p) { fm::get(p); return 0; }
int sx_fflush(FILE*) { return fm::fault("fflush") ? EOF : 0; }
}
