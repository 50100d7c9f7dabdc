// Greedy parse: P01 (lossless), P03 (longest match), P07 (extension), by vs_param(2)
// params: 0 mode (0 symbolic dictionary, k>0 fixed dictionary no. k), 1 entries, 2 max entry length, 3 query length, 4 which, 5 fixed symbols before and after the query, 6 their style, 7 alphabet size of a fixed dictionary (default 2 or 3)
#include "common.h"
#include "int_dict_p.h"
extern "C" void vs_main() {
  int mode = vs_param(0, 0), n = vs_param(1, 2), ml = vs_param(2, 3), L = vs_param(3, 4), which = vs_param(4, 1), pad = vs_param(5, 0), style = vs_param(6, 0), sigma = vs_param(7, 2 + mode % 2);
  Seqs seqs; Seq q;
  if (mode == 0) { seqs = in_seqs_any("e", n, ml); q = in_seq_any("q", L); }
  else { seqs = fixed_seqs(n, sigma, ml, (unsigned)mode, mode % 3 == 1); q = in_seq("q", L, -1, sigma); }
  if (pad) q = padded(q, pad, sigma, style, (unsigned)mode, seqs);
  ASSUME((mode != 0 && n > 300) || all_distinct(seqs));   // fixed dictionaries are distinct
  IntDictImpl impl(seqs); IntDict &d = impl;
  int n0 = d.size(); Seqs before = d.alphabet();
  Seq out; int ret = d.parse(q, &out, nullptr);
  CHECK(ret == (int)out.size(), "parse returns the number of symbols written");
  for (int x : out) CHECK(x >= 0 && x < d.size(), "parse yields valid ids");
  if (which == 1) {
    Seq cat; for (int x : out) { const Seq &g = d.get(x); cat.insert(cat.end(), g.begin(), g.end()); }
    CHECK(eq(cat, q), "concatenation of the parsed v-grams is the input");
    if (!pad) { Seq more{7, 5}; d.parse(q, &more, nullptr); CHECK(more.size() == out.size() + 2 && more[0] == 7 && more[1] == 5 && eq(Seq(more.begin() + 2, more.end()), out), "a parse appends to its output"); }
  } else if (which == 3) {
    size_t pos = 0;
    for (int x : out) {
      const Seq &g = d.get(x); CHECK(prefix_at(g, q, pos), "each v-gram occurs at its position");
      for (int i = 0; i < n0; i++) if (before[(size_t)i].size() > g.size()) CHECK(!prefix_at(before[(size_t)i], q, pos), "no longer v-gram starts here");
      pos += g.size();
    }
    CHECK(pos == q.size(), "the whole input is covered");
  } else {
    CHECK(d.size() >= n0, "the dictionary does not shrink");
    for (int i = 0; i < n0; i++) CHECK(eq(d.get(i), before[(size_t)i]), "existing entries keep their ids");
    for (int i = n0; i < d.size(); i++) {
      CHECK(d.get(i).size() == 1, "added entries are single symbols"); CHECK(d.parent(i) == -1, "added entries have no parent");
      for (int j = 0; j < i; j++) CHECK(!eq(d.get(j), d.get(i)), "no symbol gets two entries");
      bool used = false; for (int x : out) if (x == i) used = true;
      CHECK(used, "entries are added for symbols of the input only");
    }
    int n1 = d.size(); Seq out2; d.parse(q, &out2, nullptr);
    CHECK(d.size() == n1, "a repeated parse adds nothing"); CHECK(eq(out, out2), "a repeated parse gives the same result");
    for (int i = 0; i < n1; i++) { int s = d.search(d.get(i)); CHECK(s == i, "every entry is found under its own id"); }
    if (n1 > n0) vs_reach("extended");
    Seqs mid = d.alphabet(); Seq rev(q.rbegin(), q.rend()), out3; d.parse(rev, &out3, nullptr);
    CHECK(d.size() >= n1, "the dictionary does not shrink");
    for (int i = 0; i < n1; i++) CHECK(eq(d.get(i), mid[(size_t)i]), "existing entries keep their ids");
    for (int i = n1; i < d.size(); i++) { CHECK(d.get(i).size() == 1, "added entries are single symbols"); for (int j = 0; j < i; j++) CHECK(!eq(d.get(j), d.get(i)), "no symbol gets two entries"); }
    Seq cat; for (int x : out3) { const Seq &g = d.get(x); cat.insert(cat.end(), g.begin(), g.end()); }
    CHECK(eq(cat, rev), "parses after an extension are lossless");
  }
  vs_observe("size", d.size()); observe_seq("out", out);
  vs_reach("end");
}
