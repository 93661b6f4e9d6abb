// Included before files that use C++ streams: std::ifstream, std::cin and
// std::cout come from the harness. Natively, the real ones are used.
#pragma once
#include <fstream>
#include <iostream>
#ifndef SX_NATIVE
#include <cstring>
#include <iomanip>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
// What a stream reads: -1 at the end, -2 where reading fails.
int sx_stream_open(const char* path);  // 0, or the reason why not
int sx_stream_get(int where, size_t pos);
extern "C" void sx_stdout(const char* p, size_t n);
namespace std {
class sx_istream {
 public:
  bool good() const { return !state_; }
  bool bad() const { return state_ & 1; }
  bool fail() const { return state_ & 3; }
  bool eof() const { return state_ & 4; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  void clear() { state_ = 0; }
  size_t gcount() const { return count_; }
  int peek() {
    if (state_) return -1;
    int c = sx_stream_get(where_, pos_);
    if (c < 0) state_ |= c == -1 ? 4 : 1;
    return c < 0 ? -1 : c;
  }
  int get() {
    count_ = 0;
    if (state_) { state_ |= 2; return -1; }
    int c = peek();
    if (c < 0) { state_ |= 2; return -1; }
    pos_++;
    count_ = 1;
    return c;
  }
  sx_istream& get(char& c) {
    int v = get();
    if (v >= 0) c = (char)v;
    return *this;
  }
  sx_istream& read(char* p, long n) {
    size_t k = 0;
    for (; (long)k < n; k++) {
      int c = get();
      if (c < 0) break;
      p[k] = (char)c;
    }
    count_ = k;
    return *this;
  }
  void Line(std::string& s, char delim) {
    if (state_) { state_ |= 2; return; }
    s.clear();
    for (bool any = false;; any = true) {
      int c = sx_stream_get(where_, pos_);
      if (c == -2) { state_ |= 1; return; }
      if (c == -1) { state_ |= any ? 4 : 6; return; }
      pos_++;
      if ((char)c == delim) return;
      s.push_back((char)c);
    }
  }
  explicit sx_istream(int where) : where_(where) {}
 protected:
  int where_ = 0, state_ = 0;
  size_t pos_ = 0, count_ = 0;
};
class sx_ifstream : public sx_istream {
 public:
  sx_ifstream() : sx_istream(1) {}
  explicit sx_ifstream(const char* p, std::ios_base::openmode = std::ios_base::in) : sx_istream(1) { open(p); }
  explicit sx_ifstream(const std::string& p, std::ios_base::openmode = std::ios_base::in) : sx_istream(1) { open(p.c_str()); }
  void open(const char* p) {
    open_ = sx_stream_open(p) == 0;
    if (!open_) state_ |= 2;
  }
  void open(const std::string& p) { open(p.c_str()); }
  bool is_open() const { return open_; }
  void close() { if (!open_) state_ |= 2; open_ = false; }
 private:
  bool open_ = false;
};
inline sx_istream& getline(sx_istream& s, std::string& l, char delim = '\n') { s.Line(l, delim); return s; }
inline sx_ifstream& getline(sx_ifstream& s, std::string& l, char delim = '\n') { s.Line(l, delim); return s; }
inline sx_istream sx_cin(0);
struct sx_ostream {
  sx_ostream& write(const char* p, long n) { sx_stdout(p, n); return *this; }
  sx_ostream& put(char c) { return write(&c, 1); }
  sx_ostream& flush() { return *this; }
  sx_ostream& operator<<(const char* p) { return write(p, strlen(p)); }
  sx_ostream& operator<<(const std::string& s) { return write(s.data(), s.size()); }
  sx_ostream& operator<<(std::string_view s) { return write(s.data(), s.size()); }
  sx_ostream& operator<<(char c) { return write(&c, 1); }
  template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
  sx_ostream& operator<<(T v) { return *this << std::to_string(v); }
  explicit operator bool() const { return true; }
  sx_ostream& operator<<(std::ostream& (*f)(std::ostream&)) {
    if (f == (std::ostream& (*)(std::ostream&))std::endl) put('\n');
    return *this;
  }
};
inline sx_ostream sx_cout;
}  // namespace std
#define ifstream sx_ifstream
#define cin sx_cin
#define cout sx_cout
#define istream sx_istream
#define ostream sx_ostream
#endif
