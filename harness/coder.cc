// Symbol coder (P20).  params: 0 sequences, 1 length, 2 length of the probe, 3 fixed symbols (with repetitions) encoded first
#include "common.h"
#include "seq_coder.h"
#include <unordered_map>
using namespace vgram_core;
extern "C" void vs_main() {
  int K = vs_param(0, 2), L = vs_param(1, 3), P = vs_param(2, 2), pre = vs_param(3, 0);
  SeqCoder c; Seq order; std::unordered_map<int, int> where; bool big = pre > 3000; auto find = [&](int x) { if (big) { auto it = where.find(x); return it == where.end() ? order.size() : (size_t)it->second; } size_t j = 0; while (j < order.size() && order[j] != x) j++; return j; }; auto note = [&](int x) { if (big) where[x] = (int)order.size(); order.push_back(x); }; Seqs ins, codes; Seq first; unsigned s = 7; for (int i = 0; i < pre; i++) { s = s * 1664525u + 1013904223u; first.push_back(i % 5 == 4 ? first[(s >> 16) % (unsigned)i] : i % 7 == 3 ? -(int)(s >> 4) : i % 11 == 5 ? 2147483647 - i : i); }
  if (pre) K++;
  auto some = [&](const char *n, int l) { if (!big) return in_seq_any(n, l); Seq q; for (int i = 0; i < l; i++) { int c = vs_in_choose(n, 0, 3); q.push_back(c == 3 ? -123456789 : first[(size_t)(pre - 1) / 2 * (size_t)c]); } return q; };
  for (int k = 0; k < K; k++) {
    Seq q = pre && k == 0 ? first : some("q", L), e = c.encode(q); int L = (int)q.size();
    CHECK(e.size() == q.size(), "one code per symbol");
    for (int i = 0; i < L; i++) { size_t j = find(q[(size_t)i]); if (j == order.size()) note(q[(size_t)i]); CHECK(e[(size_t)i] == (int)j, "codes are dense and given in order of first appearance"); }
    ins.push_back(q); codes.push_back(e);
    for (size_t i = 0; i < ins.size(); i++) CHECK(eq(c.decode(codes[i]), ins[i]), "decoding gives the symbols back");
  }
  std::unordered_map<int, int> m = c.code_map(); CHECK(m.size() == order.size(), "the code map has every symbol once");
  Seq p = some("p", P), im = c.encode_immutable(p), need;
  for (int x : p) { size_t j = find(x); if (j < order.size()) need.push_back((int)j); }
  CHECK(eq(im, need), "immutable encoding keeps known symbols in order and drops the others");
  CHECK(c.code_map().size() == order.size(), "immutable encoding learns nothing");
  for (size_t j = 0; j < order.size(); j++) { auto it = m.find(order[j]); CHECK(it != m.end() && it->second == (int)j, "the code map agrees with the codes"); }
  Seq again = c.encode(p); for (size_t i = 0; i < ins.size(); i++) { CHECK(eq(c.encode(ins[i]), codes[i]), "codes never change"); CHECK(eq(c.decode(codes[i]), ins[i]), "decoding gives the symbols back"); }
  CHECK(eq(c.decode(again), p), "decoding gives the symbols back"); CHECK(eq(c.encode_immutable(p), again), "symbols are known once they were encoded");
  if (im.size() < p.size()) vs_reach("unknown");
  observe_seq("im", im); vs_reach("end");
}
