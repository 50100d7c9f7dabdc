// Weighted parse: P02 (lossless for any dictionary and frequencies), P08 (optimal when the symbols are known)
// params: 0 mode, 1 entries, 2 max entry length, 3 query length, 4 which (2|8), 5 max frequency, 6 length of the frequency vector relative to the dictionary, 7 fixed symbols before and after the query, 8 their style, 9 alphabet size of a fixed dictionary
#include "common.h"
#include "int_dict_p.h"
#include <cmath>
extern "C" void vs_main() {
  int mode = vs_param(0, 0), n = vs_param(1, 2), ml = vs_param(2, 3), L = vs_param(3, 4), which = vs_param(4, 2), F = vs_param(5, 1), df = vs_param(6, 0), pad = vs_param(7, 0), style = vs_param(8, 0), sigma = vs_param(9, 2 + mode % 2);
  Seqs seqs; Seq q;
  if (mode == 0) { seqs = in_seqs_any("e", n, ml); q = in_seq_any("q", L); }
  else { seqs = fixed_seqs(n, sigma, ml, (unsigned)mode, which == 8 || mode % 3 == 1); q = in_seq("q", L, which == 8 ? 0 : -1, which == 8 ? sigma - 1 : sigma); }
  if (pad) { q = padded(q, pad, sigma, style, (unsigned)mode, seqs); L = (int)q.size(); }
  ASSUME((mode != 0 && n > 300) || all_distinct(seqs));   // fixed dictionaries are distinct
  IntDictImpl impl(seqs); IntDict &d = impl; int n0 = d.size();
  if (which == 8) for (int c : q) ASSUME(contains(seqs, Seq(1, c)));
  Seq freqs; int fn = n0 + df; double total = 0; unsigned r = 7u + (unsigned)mode * 77u;
  for (int i = 0; i < fn; i++) { int f; if (mode == 0) f = vs_in_choose("f", 0, F); else { r = r * 1664525u + 1013904223u; f = (int)((r >> 4) % (unsigned)(F + 1)); } freqs.push_back(f); total += f; }
  Seq out; int ret = d.parse(q, freqs, total, &out);
  CHECK(ret == (int)out.size(), "parse returns the number of symbols written");
  for (int x : out) CHECK(x >= 0 && x < d.size(), "parse yields valid ids");
  Seq cat; for (int x : out) { const Seq &g = d.get(x); cat.insert(cat.end(), g.begin(), g.end()); }
  CHECK(eq(cat, q), "concatenation of the parsed v-grams is the input");
  if (which != 8 && !pad) { Seq more{7, 5}, c2; d.parse(q, freqs, total, &more); CHECK(more.size() >= 2 && more[0] == 7 && more[1] == 5, "a parse appends to its output"); for (size_t i = 2; i < more.size(); i++) { CHECK(more[i] >= 0 && more[i] < d.size(), "parse yields valid ids"); const Seq &g = d.get(more[i]); c2.insert(c2.end(), g.begin(), g.end()); } CHECK(eq(c2, q), "a parse appends to its output"); }
  if (which == 8) {
    CHECK(d.size() == n0, "known symbols add no entries");
    // best achievable log-likelihood by independent dynamic programming over all entries
    double norm = log(total + n0); std::vector<double> best((size_t)L + 1, -1e300); best[0] = 0; double got = 0;
    for (int p = 0; p < L; p++) { if (best[(size_t)p] < -1e299) continue;
      for (int i = 0; i < n0; i++) { const Seq &g = d.get(i); if (prefix_at(g, q, (size_t)p)) { double sc = best[(size_t)p] + (i < fn ? log(freqs[(size_t)i] + 1.0) : 0.0) - norm; size_t e = (size_t)p + g.size(); if (sc > best[e]) best[e] = sc; } } }
    for (int x : out) got += (x < fn ? log(freqs[(size_t)x] + 1.0) : 0.0) - norm;
    CHECK(got >= best[(size_t)L] - 1e-9, "no segmentation is more likely under the given frequencies");
  }
  vs_observe("size", d.size()); vs_observe("parts", (int64_t)0 * (int64_t)out.size());
  vs_reach("end");
}
