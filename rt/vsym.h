// Interface between a harness and the two ways it is run: symbolically by
// engine/vsym, or natively (rt/native.cc) on the concrete values of a witness.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <iosfwd>

extern "C" {
int vs_in_int(const char *name);                          // any 32-bit value
int vs_in_range(const char *name, int lo, int hi);        // any value of [lo,hi], stays symbolic
int vs_in_choose(const char *name, int lo, int hi);       // one path per value of [lo,hi]
int vs_param(int i, int dflt);                            // shape parameter of this run
void vs_assume_(int c);
void vs_check_(int c, const char *msg);
void vs_reach(const char *tag);                           // vacuity guard: at least one path must get here
void vs_observe(const char *tag, int64_t v);              // compared between engine and native replay
int vs_concretize(int v);
int vs_is_symbolic_run();
}
#define ASSUME(c) vs_assume_((c) ? 1 : 0)
#define CHECK(c, msg) vs_check_((c) ? 1 : 0, msg)

typedef std::vector<int> IntSeq_;
static inline IntSeq_ in_seq(const char *name, int len, int lo, int hi) {
  IntSeq_ v; v.reserve((size_t)len + 1);
  for (int i = 0; i < len; i++) v.push_back(vs_in_range(name, lo, hi));
  return v;
}
static inline IntSeq_ in_seq_any(const char *name, int len) {
  IntSeq_ v; v.reserve((size_t)len + 1);
  for (int i = 0; i < len; i++) v.push_back(vs_in_int(name));
  return v;
}
static inline void observe_seq(const char *tag, const IntSeq_ &v) {
  vs_observe(tag, (int64_t)v.size());
  for (int x : v) vs_observe(tag, x);
}
// an output stream whose text can be read back
std::ostream &vs_ostream();
std::string vs_ostream_text();
