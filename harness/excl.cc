// Search and greedy parse with exclusions (P04)
// params: 0 mode, 1 entries, 2 max entry length, 3 query length, 4 fixed symbols before and after the query, 5 their style, 6 symbols added by a parse before
#include "common.h"
#include "int_dict_p.h"
extern "C" void vs_main() {
  int mode = vs_param(0, 0), n = vs_param(1, 2), ml = vs_param(2, 2), L = vs_param(3, 3), pad = vs_param(4, 0), style = vs_param(5, 0), grow = vs_param(6, 0);
  Seqs seqs; Seq q; if (mode == 0) { seqs = in_seqs_any("e", n, ml); q = in_seq_any("q", L); } else { seqs = fixed_seqs(n, 2 + mode % 2, ml, (unsigned)mode, mode % 3 == 1); q = in_seq("q", L, 0, 2); }
  if (pad) q = padded(q, pad, 2 + mode % 2, style, (unsigned)mode, seqs);
  ASSUME((mode != 0 && n > 300) || all_distinct(seqs));   // fixed dictionaries are distinct
  IntDictImpl impl(seqs); IntDict &d = impl;
  if (grow) { Seq g = in_seq_any("g", grow), o; if (pad && vs_in_choose("gp", 0, 1)) g.push_back(q[0]); d.parse(g, &o, nullptr); seqs = d.alphabet(); if (d.size() > n) vs_reach("grown"); }
  std::unordered_set<int> ex; std::vector<bool> out((size_t)d.size(), false);
  if (mode == 0) { for (int i = 0; i < d.size(); i++) if (vs_in_choose("x", 0, 1)) { ex.insert(i); out[(size_t)i] = true; } }
  else { int part = d.size() > 40 ? d.size() / 8 : 1, a = vs_in_choose("xa", 0, (d.size() - 1) / part) * part, st = vs_in_choose("st", 1, 3); for (int i = a; i < d.size(); i += st) { ex.insert(i); out[(size_t)i] = true; } }
  if (vs_in_choose("far", 0, 1)) ex.insert(1000);
  auto longest = [&](size_t pos) { int b = -1; for (int i = 0; i < (int)seqs.size(); i++) if (!out[(size_t)i] && prefix_at(d.get(i), q, pos) && (b < 0 || d.get(i).size() > d.get(b).size())) b = i; return b; };
  size_t k = ex.size(); int got = d.search(q, &ex), need = q.empty() ? -1 : longest(0);
  CHECK(got == need, "search finds the longest entry that is not excluded"); CHECK(d.size() == (int)seqs.size(), "a search with exclusions adds nothing"); CHECK(ex.size() == k, "the exclusions are not changed");
  Seq r, e; d.parse(q, &r, &ex); size_t pos = 0; while (pos < q.size()) { int b = longest(pos); if (b < 0) pos++; else { e.push_back(b); pos += d.get(b).size(); } }
  CHECK(eq(r, e), "a parse with exclusions takes the longest allowed entry and skips what none matches"); CHECK(d.size() == (int)seqs.size(), "a parse with exclusions adds nothing");
  if (got >= 0) vs_reach("found"); else vs_reach("none");
  observe_seq("r", r); vs_reach("end");
}
