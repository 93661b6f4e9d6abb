// Native side of the harness interface: replays recorded inputs.
//   SX_REPLAY=<file>   one or more records; each record starts with "record <id>"
// For each record a child process runs harness(); prints "RESULT <id> <code> <text>".
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include "sx.h"

static std::map<std::string, uint64_t> gVar, gParam;
static std::map<std::string, std::pair<uint64_t, std::map<uint64_t, uint8_t>>> gArr;
static std::vector<std::pair<std::string, uint64_t>> gObs;
static std::map<std::string, unsigned> gCount;
static size_t gObsPos = 0;
static std::string key(const char* n) { return std::string(n) + "#" + std::to_string(gCount[n]++); }
static int gOutFd = 1;
static void say(const std::string& s) { if (write(gOutFd, s.data(), s.size()) < 0) {} }

extern "C" {
uint64_t sx_sym(uint64_t w, const char* name) {
  uint64_t v = gVar[key(name)];
  return w >= 64 ? v : v & ((1ull << w) - 1);
}
void sx_sym_bytes(void* p, size_t n, const char* name) {
  std::string k = key(name);
  for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = gVar[k + "[" + std::to_string(i) + "]"];
}
size_t sx_native_array(const char* name, std::vector<uint8_t>* out, size_t size) {
  auto& a = gArr[key(name)];
  out->assign(size, 0);
  for (auto& kv : a.second) if (kv.first < size) (*out)[kv.first] = kv.second;
  return size;
}
void sx_assume(int c) { if (!c) { say("ASSUME-FAILED\n"); _exit(78); } }
void sx_check(int c, const char* l) { if (!c) { say(std::string("CHECK-FAILED ") + l + "\n"); _exit(77); } }
void sx_fail(const char* l) { say(std::string("CHECK-FAILED ") + l + "\n"); _exit(77); }
void sx_reach(const char*) {}
uint64_t sx_param(const char* n) {
  auto it = gParam.find(n);
  if (it == gParam.end()) { say("missing param\n"); _exit(79); }
  return it->second;
}
void sx_observe(const char* n, uint64_t v) {
  if (gObs.empty() && gObsPos == 0) return;
  if (gObsPos >= gObs.size() || gObs[gObsPos].first != n || gObs[gObsPos].second != v) {
    say("OBSERVE-MISMATCH " + std::string(n) + " native " + std::to_string(v) + " expected " +
        (gObsPos < gObs.size() ? gObs[gObsPos].first + " " + std::to_string(gObs[gObsPos].second) : "nothing") + "\n");
    _exit(80);
  }
  gObsPos++;
}
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_stop() { say("STOPPED\n"); _exit(0); }
void sx_print(const char* n, uint64_t v) { if (getenv("SX_TRACE")) fprintf(stderr, "PRINT %s %lu\n", n, v); }
#ifndef SX_OWN_STDOUT
void sx_stdout(const char* p, size_t n) { (void)p; (void)n; }
#endif
}

static int runOne(const std::string& id, const std::vector<std::string>& lines) {
  gVar.clear(); gArr.clear(); gObs.clear(); gCount.clear(); gObsPos = 0;
  for (auto& l : lines) {
    std::istringstream is(l);
    std::string k, n;
    is >> k >> n;
    if (k == "var") { uint64_t v; is >> v; gVar[n] = v; }
    else if (k == "param") { uint64_t v; is >> v; gParam[n] = v; }
    else if (k == "obs") { uint64_t v; is >> v; gObs.push_back({n, v}); }
    else if (k == "arr") {
      auto& a = gArr[n];
      is >> a.first;
      std::string t;
      while (is >> t) { auto e = t.find('='); a.second[std::stoull(t.substr(0, e))] = (uint8_t)std::stoul(t.substr(e + 1)); }
    }
  }
  int p[2];
  if (pipe(p)) return 1;
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    gOutFd = p[1];
    dup2(p[1], 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    alarm(60);
    harness();
    say("DONE\n");
    _exit(0);
  }
  close(p[1]);
  std::string text;
  char buf[4096];
  ssize_t r;
  while ((r = read(p[0], buf, sizeof buf)) > 0) if (text.size() < 20000) text.append(buf, r);
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  for (char& ch : text) if (ch == '\n') ch = '|';
  if (text.size() > 1500) text = text.substr(0, 1500);
  printf("RESULT %s %d %s\n", id.c_str(), code, text.c_str());
  return code;
}
int main(int argc, char** argv) {
  const char* f = argc > 1 ? argv[1] : getenv("SX_REPLAY");
  if (!f) { fprintf(stderr, "usage: %s replay-file\n", argv[0]); return 2; }
  std::ifstream in(f);
  if (!in) { fprintf(stderr, "cannot open %s\n", f); return 2; }
  std::string l, id = "0";
  std::vector<std::string> cur, all;
  bool any = false;
  int worst = 0;
  while (std::getline(in, l)) {
    if (l.compare(0, 7, "record ") == 0) {
      if (any) worst |= runOne(id, cur);
      any = true;
      id = l.substr(7);
      cur.clear();
    } else cur.push_back(l);
  }
  if (any) worst |= runOne(id, cur);
  return worst ? 1 : 0;
}
