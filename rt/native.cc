// Native runtime of a harness: replays one witness against the real code.
// usage: prog INPUTS [PARAM...]    INPUTS: one integer per line, in the order asked for
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <vector>
#include "vsym.h"
static std::vector<long long> in_; static size_t pos_; static std::vector<int> par_;
static unsigned long long fill_; static bool filling_;      // VS_FILL: beyond the inputs of a path prefix, go on with arbitrary values
static unsigned lcg() { fill_ = fill_ * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(fill_ >> 33); }
static bool spent() { return filling_ && pos_ >= in_.size(); }
static int next(const char *name) {
  if (spent()) { unsigned r = lcg() % 64; return r < 60 ? (int)(lcg() % 4) : r == 60 ? -1 : r == 61 ? (int)(lcg() % 300) : (int)lcg(); }
  if (pos_ >= in_.size()) { printf("OUT-OF-INPUTS %s\n", name); fflush(stdout); _Exit(78); }
  return (int)in_[pos_++];
}
extern "C" {
void vs_main();
int vs_in_int(const char *n) { return next(n); }
int vs_in_range(const char *n, int lo, int hi) { int v = spent() ? (int)(lo + (long long)(lcg() % ((unsigned long long)((long long)hi - lo) + 1))) : next(n); if (v < lo || v > hi) { printf("INPUT-OUT-OF-RANGE %s %d\n", n, v); fflush(stdout); _Exit(78); } return v; }
int vs_in_choose(const char *n, int lo, int hi) { return vs_in_range(n, lo, hi); }
int vs_param(int i, int d) { return i < (int)par_.size() ? par_[i] : d; }
void vs_assume_(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(77); } }
void vs_check_(int c, const char *m) { if (!c) { printf("CHECK-FAILED %s\n", m); fflush(stdout); _Exit(42); } }
void vs_reach(const char *t) { printf("REACH %s\n", t); }
void vs_observe(const char *t, int64_t v) { printf("OBS %s %lld\n", t, (long long)v); fflush(stdout); }
int vs_concretize(int v) { return v; }
int vs_is_symbolic_run() { return 0; }
int rand() noexcept { return spent() ? (int)(lcg() & 0x7fffffff) : next("rand"); }
}
static std::ostringstream cap_;
std::ostream &vs_ostream() { cap_.str(""); cap_.clear(); return cap_; }
std::string vs_ostream_text() { return cap_.str(); }
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); long long v; while (f >> v) in_.push_back(v);
  if (const char *e = getenv("VS_FILL")) { filling_ = true; fill_ = strtoull(e, nullptr, 10) * 2654435761ull + 12345; for (int i = 0; i < 4; i++) lcg(); }
  for (int i = 2; i < argc; i++) par_.push_back(atoi(argv[i]));
  struct Q : std::streambuf { int overflow(int c) override { return c; } } q; std::cout.rdbuf(&q);
  vs_main();
  printf("DONE %zu/%zu\n", pos_, in_.size());
  return 0;
}
