// Any history of builder calls is survived and leaves a consistent dictionary (P19).
// params: 0 kind (0 empty, 1 alphabet given as a dictionary of symbolic entries, 2 restored from symbolic entries), 1 entries, 2 max entry length, 3 operations, 4 sequence length, 5 declared size, 6 min probability /1000, 7 operations mask, 8 repeat
#include "common.h"
#include "int_vgram_builder_p.h"
#include "int_dict_p.h"
#include <cmath>
extern "C" void vs_main() {
  int kind = vs_param(0, 2), n = vs_param(1, 1), ml = vs_param(2, 2), K = vs_param(3, 3), L = vs_param(4, 2), size = vs_param(5, 4), mp = vs_param(6, 1000), mask = vs_param(7, 7), rep = vs_param(8, 1);
  Seqs e; if (kind) { e = in_seqs_any("e", n, ml); ASSUME(all_distinct(e)); }
  std::shared_ptr<IntVGramBuilder> b;
  if (kind == 0) b.reset(new IntVGramBuilderImpl(size, 0));
  else if (kind == 1) { IntDictImpl d(e); b.reset(new IntVGramBuilderImpl((const IntDict &)d, size, 0)); }
  else { IntDictImpl d(e); Seq f; for (int i = 0; i < n; i++) f.push_back(i + 1); b.reset(new IntVGramBuilderImpl(d, f, e, mp / 1000.0, 0)); }
  std::shared_ptr<IntDict> cur = b->result();
  for (int k = 0; k < K; k++) {
    int op = mask == 1 ? 0 : vs_in_choose("op", 0, 2); if (!((mask >> op) & 1)) ASSUME(false);
    if (op == 0) { int l = vs_in_choose("len", 0, L); Seq q = in_seq_any("q", l); for (int r = 0; r < rep; r++) b->accept(q); }
    else if (op == 1) { Seq f; b->result_freqs(&f); CHECK((int)f.size() == b->result()->size(), "one frequency per v-gram"); for (int x : f) CHECK(x >= 0, "frequencies are not negative"); }
    else { Seq q = in_seq_any("p", L), out; auto d = b->result(); d->parse(q, &out, nullptr); Seq cat; for (int x : out) { CHECK(x >= 0 && x < d->size(), "parse yields valid ids"); const Seq &g = d->get(x); cat.insert(cat.end(), g.begin(), g.end()); } CHECK(eq(cat, q), "concatenation of the parsed v-grams is the input"); }
    auto d = b->result(); CHECK(d != nullptr, "there is always a result");
    if (d != cur) { vs_reach("rebuilt"); cur = d; }
    Seqs now = d->alphabet(); CHECK((int)now.size() == d->size(), "the alphabet has one entry per id");
    CHECK(all_distinct(now), "no duplicates in the dictionary");
    for (int i = 0; i < d->size(); i++) {
      CHECK(!now[(size_t)i].empty(), "a v-gram is not empty"); CHECK(d->search(d->get(i)) == i, "every v-gram is found under its id");
      int p = d->parent(i); CHECK(p >= -1 && p < d->size(), "a parent is an id or -1"); if (p >= 0) CHECK(d->get(p).size() < now[(size_t)i].size() && prefix_at(d->get(p), now[(size_t)i], 0), "a parent is a proper prefix");
    }
    CHECK(b->alpha()->size() == d->size(), "the alphabet is that of the result");
    double p = b->get_min_probability(); CHECK(p > 0 || kind != 2, "the minimal probability is positive");
    vs_observe("size", d->size());
  }
  vs_reach("end");
}
