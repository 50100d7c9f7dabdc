// Statistics dictionary: P10 (frequency accounting), P11 (priors belong to their entries), P12 (code length), P13 (enough)
// params: 0 which, 1 entries, 2 max entry length, 3 query length, 4 number of parses, 5 variant, 6 repetitions of each parse, 7 number of a fixed dictionary (0: symbolic), 8 fixed symbols before and after each query, 9 their style, 10 all parses append to one output
#include "common.h"
#include "stat_dict_p.h"
#include <cmath>
static double lik(const Seqs &dict, const Seq &f, const Seq &q, double total, std::vector<double> *bests) {
  size_t L = q.size(); std::vector<double> b(L + 1, -1e300); b[0] = 0; double norm = log(total + (double)dict.size());
  for (size_t p = 0; p < L; p++) { if (b[p] < -1e299) continue; for (size_t i = 0; i < dict.size(); i++) if (prefix_at(dict[i], q, p)) { double sc = b[p] + log(f[i] + 1.0) - norm; if (sc > b[p + dict[i].size()]) b[p + dict[i].size()] = sc; } }
  if (bests) *bests = b; return b[L];
}
extern "C" void vs_main() {
  int which = vs_param(0, 10), n = vs_param(1, 2), ml = vs_param(2, 2), L = vs_param(3, 3), K = vs_param(4, 2), var = vs_param(5, 0), rep = vs_param(6, 1), fix = vs_param(7, 0), pad = vs_param(8, 0), style = vs_param(9, 0), app = vs_param(10, 0);
  auto dictionary = [&]() { Seqs s = fix ? fixed_seqs(n, 2 + fix % 2, ml, (unsigned)fix, fix % 3 == 1) : in_seqs_any("e", n, ml); ASSUME(all_distinct(s)); return s; };
  auto query = [&](int l) { Seq q = fix ? in_seq("q", l, -1, 2 + fix % 2) : in_seq_any("q", l); return pad ? padded(q, pad, 2 + fix % 2, style, (unsigned)fix) : q; };
  if (which == 10) {
    Seqs seqs = dictionary();
    StatDictImpl s(seqs); std::vector<int> count((size_t)n, 0); Seq kept;
    for (int i = 0; i < n; i++) CHECK(s.freq(i) == 0, "frequencies start at zero");
    for (int k = 0; k < K; k++) {
      bool upd = var == 1 ? vs_in_choose("op", 0, 1) : 0;
      if (upd) { static const int dfs[7] = {0, 1, 2, 255, 70000, 50000000, 1000000007}; int id = vs_in_choose("id", 0, n + 1), f = dfs[vs_in_choose("df", 0, rep > 1 ? 6 : 2)]; s.update_symbol(id, f); if ((size_t)id >= count.size()) count.resize((size_t)id + 1, 0); count[(size_t)id] += f; vs_reach("update"); }
      else {
       Seq q = query(L); for (int rr = 0; rr < rep; rr++) { Seq out; if (app) { Seq all = kept; s.parse(q, &all); CHECK(all.size() >= kept.size() && eq(Seq(all.begin(), all.begin() + (long)kept.size()), kept), "what the output held before stays"); out.assign(all.begin() + (long)kept.size(), all.end()); kept = all; vs_reach("appended"); } else { int r = s.parse(q, &out); CHECK(r == (int)out.size(), "parse returns the number of symbols written"); }
        Seq cat; for (int x : out) { CHECK(x >= 0 && x < s.size(), "parse yields valid ids"); const Seq &g = s.get(x); cat.insert(cat.end(), g.begin(), g.end()); if ((size_t)x >= count.size()) count.resize((size_t)x + 1, 0); count[(size_t)x]++; }
        CHECK(eq(cat, q), "concatenation of the parsed v-grams is the input");
      } }
      for (int i = 0; i < (int)count.size() + 2; i++) CHECK(s.freq(i) == (i < (int)count.size() ? count[(size_t)i] : 0), "a frequency is the number of occurrences emitted or reported");
    }
    vs_observe("size", s.size());
  } else if (which == 11) {
    // symbols 0..2 plus n longer entries; frequencies in several orders
    Seqs seqs = {{0}, {1}, {2}}; Seqs more = in_seqs("e", n, ml, 0, 2); for (auto &x : more) { ASSUME(x.size() > 1); seqs.push_back(x); }
    ASSUME(all_distinct(seqs)); Seq f; double tot = 0; for (size_t i = 0; i < seqs.size(); i++) { int v = i < 3 ? (int)i * 2 * std::max(var, 1) : 0; if (i >= 3) { int k = vs_in_choose("f", 0, var > 3 ? 3 : 2); v = k == 3 ? var / 2 : k * 5 * std::max(var, 1); } f.push_back(v); tot += v; }
    Seq q = in_seq("q", L, 0, 2);
    Seqs s2; Seq f2; size_t rot = (size_t)vs_in_choose("rot", 0, (int)seqs.size() - 1); bool rev = vs_in_choose("rev", 0, 1);
    for (size_t i = 0; i < seqs.size(); i++) { size_t k = (i + rot) % seqs.size(); if (rev) k = seqs.size() - 1 - k; s2.push_back(seqs[k]); f2.push_back(f[k]); }
    StatDictImpl a(seqs, 0.002, &f), b(s2, 0.002, &f2); Seq oa, ob; a.parse(q, &oa); b.parse(q, &ob);
    CHECK(eq(oa, ob), "the order in which entries and frequencies are given does not matter");
    double best = lik(seqs, f, q, tot, nullptr), got = 0;
    for (int x : oa) { const Seq &g = a.get(x); for (size_t i = 0; i < seqs.size(); i++) if (eq(seqs[i], g)) got += log(f[i] + 1.0) - log(tot + (double)seqs.size()); }
    CHECK(got >= best - 1e-9, "the parse is the most likely one under the given frequencies");
    for (int i = 0; i < (int)seqs.size(); i++) { int c = 0; for (int x : oa) c += x == i; CHECK(a.freq(i) == c, "prior frequencies do not count as occurrences"); }
    observe_seq("out", oa);
  } else if (which == 12) {
    Seqs seqs = dictionary(); StatDictImpl s(seqs); double chars = 0; Seq kept;
    for (int k = 0; k < K; k++) {
      int len = vs_in_choose("len", 0, L); Seq q = query(len); for (int rr = 0; rr < rep; rr++) { Seq out; s.parse(q, app ? &kept : &out); chars += (double)q.size(); } if (chars == 0) continue;
      double tot = 0, h = 0; CHECK(s.size() >= (int)seqs.size(), "the dictionary does not shrink"); for (int i = 0; i < s.size(); i++) tot += s.freq(i);
      for (int i = 0; i < s.size(); i++) if (s.freq(i) > 0) h -= s.freq(i) * log(s.freq(i) / tot);
      double got = s.code_length_per_char();
      CHECK(fabs(got - h / chars) <= 1e-9 * (1 + fabs(h)), "code length per character is the entropy of the emitted v-grams");
      CHECK(got >= -1e-9, "code length is not negative");
      vs_reach("measured");
    }
  } else {
    Seqs seqs = {{1}, {2}}; int m = vs_in_range("m", 1, 40), c1 = vs_in_range("c1", 0, 12), c2 = vs_in_range("c2", 0, 12); double mp = m / 20.0; int pr = vs_in_choose("p", 1, 19);
    if (var == 1) {   // realistic probabilities, counts around the bound
      static const double mps[8] = {0.002, 0.001, 0.0005, 0.00003, 0.3, 1.0, 0.0000001, 0.00000001}; mp = mps[vs_in_choose("mp", 0, 7)]; double nd = -log(pr / 20.0) / mp; c1 = (int)nd - 3 + vs_in_choose("d1", 0, 5); if (c1 < 0) c1 = 0; c2 = vs_in_choose("d2", 0, 3); }
    StatDictImpl s(seqs, mp); double prob = pr / 20.0, need = -log(prob) / mp;
    CHECK(!s.enough(prob), "nothing seen is never enough");
    s.update_symbol(0, c1); bool e1 = s.enough(prob); if (c1 > need + 1e-6) CHECK(e1, "more occurrences than the bound are enough"); if (c1 < need - 1e-6) CHECK(!e1, "fewer occurrences than the bound are not enough");
    s.update_symbol(1, c2); bool e2 = s.enough(prob); if (c1 + c2 > need + 1e-6) CHECK(e2, "more occurrences than the bound are enough"); if (c1 + c2 < need - 1e-6) CHECK(!e2, "fewer occurrences than the bound are not enough");
    CHECK(!e1 || e2, "enough stays enough"); if (e1) CHECK(s.enough((pr + 1) / 20.0), "a weaker confidence needs no more");
    if (e2) vs_reach("enough");
  }
  vs_reach("end");
}
