// Vocabulary builder.  params: 0 which, 1 kind, 2 alphabet size sigma, 3 sequences, 4 length of a sequence, 5 declared size, 6 max accepts, 7 min probability in 1/1000 (restored builders), 8 rebuilds to watch, 9 schedule (0 in turn, k: all but the first once in k times), 10 fixed training sequences, 11 their length, 12 declared alphabet size if larger (fixed symbols are the largest of it), negative: declared alphabet smaller than the symbols used
//  kind 0: empty builder, 1: declared alphabet (symbols), 2: declared alphabet (dictionary), 3: restored from a dictionary with frequencies and minimal probability, 4: declared alphabet with longer v-grams, 5: restored the way models are (all v-grams given as alphabet, declared size)
// which: 43 repetition is learned, 14 expansion, 15 reduction, 16 minimal probability, 17 result frequencies, 12 code length, 18 determinism and verbosity, 19 any history is survived
#include "common.h"
#include "int_vgram_builder_p.h"
#include "int_dict_p.h"
#include <cmath>
static bool substring(const Seq &w, const Seqs &data) { for (auto &s : data) for (size_t p = 0; p + w.size() <= s.size(); p++) if (prefix_at(w, s, p)) return true; return false; }
template <class B> auto restored(int, const IntDict &d, const Seq &f, const Seqs &al, double mp, int verbose, int size) -> decltype(new B(d, f, al, mp, verbose, size)) { return new B(d, f, al, mp, verbose, size); }
template <class B> B *restored(long, const IntDict &d, const Seq &f, const Seqs &al, double mp, int verbose, int) { return new B(d, f, al, mp, verbose); }   // no declared size to restore
static std::shared_ptr<IntVGramBuilder> make(int kind, int sigma, int size, int mp, int verbose, Seq *fr = nullptr) {
  typedef std::shared_ptr<IntVGramBuilder> P;
  Seq al; for (int i = 0; i < sigma; i++) al.push_back(i);
  if (kind == 0) return P(new IntVGramBuilderImpl(size, verbose));
  if (kind == 1) return P(new IntVGramBuilderImpl(al, size, verbose));
  if (kind == 2) { IntDictImpl d(al); return P(new IntVGramBuilderImpl((const IntDict &)d, size, verbose)); }
  Seqs e; for (int i = 0; i < sigma; i++) e.push_back(Seq(1, i));
  if (kind == 4) { e.push_back({0, 1}); e.push_back({1, 0}); e.push_back({0, 1, 0}); e.push_back({1, 1, 0}); e.push_back({0, 1, 1}); IntDictImpl d(e); return P(new IntVGramBuilderImpl((const IntDict &)d, size, verbose)); }
  Seqs base = e; e.push_back({0, 1}); e.push_back({1, 0, 1}); IntDictImpl d(e); Seq f; for (int i = 0; i < d.size(); i++) f.push_back(fr ? (*fr)[(size_t)i] : i);
  if (kind == 5) return P(restored<IntVGramBuilderImpl>(0, d, f, e, mp / 1000.0, verbose, size)); return P(new IntVGramBuilderImpl(d, f, base, mp / 1000.0, verbose));
}
extern "C" void vs_main() {
  int which = vs_param(0, 14), kind = vs_param(1, 1), sigma = vs_param(2, 2), S = vs_param(3, 2), L = vs_param(4, 3), size = vs_param(5, 6), M = vs_param(6, 2000), mp = vs_param(7, 2), R = vs_param(8, 1), sched = vs_param(9, 0), FX = vs_param(10, 0), FL = vs_param(11, 12), DA = vs_param(12, 0), decl = DA < 0 ? -DA : std::max(sigma, DA);
  Seqs data; for (int i = 0; i < S; i++) data.push_back(sigma ? in_seq("s", L, 0, sigma - 1) : in_seq_any("s", L));
  for (int i = 0; i < FX; i++) { Seqs w = fixed_seqs(5, sigma, 4, (unsigned)(FX * 7), false); Seq t; unsigned r = (unsigned)i * 97u + 5u; while ((int)t.size() < FL) { r = r * 1664525u + 1013904223u; const Seq &x = w[(r >> 16) % w.size()]; t.insert(t.end(), x.begin(), x.end()); } if (DA > 0) for (int &x : t) x = DA - 1 - x; data.insert(data.begin(), t); }   // alphabet size 0: any 32-bit symbols
  Seq syms; if (sigma) for (int i = 0; i < std::max(sigma, DA); i++) syms.push_back(i); else for (auto &q : data) for (int x : q) { bool k = false; for (int y : syms) if (y == x) k = true; if (!k) syms.push_back(x); }
  if (which == 43) for (size_t i = 0; i < data[0].size(); i++) for (size_t j = 0; j < i; j++) ASSUME(data[0][i] != data[0][j]);
  auto b = make(kind, decl, size, mp, 0);
  std::shared_ptr<IntDict> cur = b->result(); double prevp = kind == 3 || kind == 5 ? mp / 1000.0 : 0.002; int rebuilds = 0, at = 0;
  if (which == 18) {
    int al = decl; auto c = make(kind, al, size, mp, vs_in_choose("verbose", 1, 2)), e = make(kind, al, size, mp, 0);
    for (at = 0; at < M; at++) { const Seq &q = data[(size_t)at % data.size()]; b->accept(q); c->accept(q); e->accept(q); if (b->result() != cur) { cur = b->result(); if (++rebuilds >= R) break; } }
    Seq fb, fc, fe; b->result_freqs(&fb); c->result_freqs(&fc); e->result_freqs(&fe);
    Seqs x = b->result()->alphabet(), y = c->result()->alphabet(), z = e->result()->alphabet(); bool sy = x.size() == y.size(), sz = x.size() == z.size();
    CHECK(sy && sz, "builders fed the same data learn the same dictionary");
    for (size_t i = 0; i < x.size(); i++) { CHECK(eq(x[i], y[i]), "verbosity does not change the dictionary"); CHECK(eq(x[i], z[i]), "the same data gives the same dictionary"); }
    CHECK(eq(fb, fc), "verbosity does not change the frequencies"); CHECK(eq(fb, fe), "the same data gives the same frequencies");
    CHECK(b->get_min_probability() == c->get_min_probability() && b->get_min_probability() == e->get_min_probability(), "the same data gives the same minimal probability");
    if (rebuilds) vs_reach("rebuilt"); vs_reach("end"); return;
  }
  Seqs since;        // accepted since the current dictionary was installed
  std::vector<int> seen(data.size(), 0);
  for (at = 0; at < M; at++) {
    size_t di = sched ? (at % sched == sched - 1 ? 1 + (size_t)(at / sched) % (data.size() - 1) : 0) : (size_t)at % data.size(); const Seq &q = data[di]; seen[di] = 1; std::shared_ptr<IntDict> old = cur;
    b->accept(q); cur = b->result(); CHECK(cur != nullptr, "there is always a result");
    double p = b->get_min_probability();
    if (which == 16) { CHECK(p > 0, "the minimal probability is positive"); CHECK(p <= prevp, "the minimal probability never grows"); }
    prevp = p;
    if (which == 17 && (at < 4 || at % 64 == 0)) { Seq f; int n = b->result_freqs(&f); CHECK(n == (int)f.size(), "result_freqs returns the number of frequencies"); CHECK((int)f.size() == cur->size(), "one frequency per v-gram"); for (int x : f) CHECK(x >= 0, "frequencies are not negative"); }
    if (which == 12 && (cur != old || since.size() < 3 || since.size() % 256 == 0)) {
      Seq f; b->result_freqs(&f); double tot = 0, h = 0, chars = 0; for (int i = 0; i < cur->size(); i++) { tot += f[(size_t)i]; chars += (double)f[(size_t)i] * (double)cur->get(i).size(); } for (int x : f) if (x > 0) h -= x * log(x / tot);
      if (chars > 0) { double got = b->code_length(); CHECK(fabs(got - h / chars) <= 1e-9 * (1 + fabs(h)), "a builder's code length is the entropy of the v-grams it counted"); vs_reach("measured"); }
    }
    if (cur == old) { since.push_back(q); 
      if (which == 17 && (since.size() == 1 || since.size() == 2 || since.size() == 3) && (kind != 3 && kind != 5)) {
        Seq f; b->result_freqs(&f); std::vector<int> need(syms.size(), 0), got(syms.size(), 0);
        for (auto &s : since) for (int x : s) for (size_t k = 0; k < syms.size(); k++) if (syms[k] == x) need[k]++;
        for (int i = 0; i < cur->size(); i++) for (int x : cur->get(i)) for (size_t k = 0; k < syms.size(); k++) if (syms[k] == x) got[k] += f[(size_t)i];
        CHECK(eq(need, got), "the v-grams counted spell exactly the symbols accepted"); vs_reach("counted");
      }
      continue; }
    rebuilds++;
    Seqs was = old->alphabet(), now = cur->alphabet(); Bag wb(was), nb(now);
    CHECK(all_distinct(now), "a rebuilt dictionary has no duplicates");
    for (auto &g : now) CHECK(!g.empty(), "a v-gram is not empty");
    if (which == 14) {
      if (rebuilds == 1 && kind != 3 && kind != 5) {   // the first rebuild is an expansion
        for (auto &g : was) CHECK(nb.has(g), "expansion keeps every v-gram");
        size_t added = 0;
        for (auto &g : now) if (!wb.has(g)) {
          added++; bool split = false;
          for (size_t k = 1; k < g.size() && !split; k++) split = wb.has(Seq(g.begin(), g.begin() + (long)k)) && wb.has(Seq(g.begin() + (long)k, g.end()));
          CHECK(split, "a new v-gram is the concatenation of two known ones");
          CHECK(substring(g, data), "a new v-gram occurs in the data");
        }
        if (added) vs_reach("expanded");
      } else for (auto &g : now) {
        bool old_one = g.size() == 1 || wb.has(g); CHECK(old_one || substring(g, data), "every learned v-gram occurs in the data");
        if (!old_one && (kind == 3 || kind == 5 || rebuilds > 2)) {   // one expansion and one reduction since the last result
          bool split = false; for (size_t k = 1; k < g.size() && !split; k++) split = (k == 1 || wb.has(Seq(g.begin(), g.begin() + (long)k))) && (k + 1 == g.size() || wb.has(Seq(g.begin() + (long)k, g.end())));
          CHECK(split, "a new v-gram is the concatenation of two known ones"); if (g.size() > 8) vs_reach("long");
        }
      }
    } else if (which == 15) {
      bool reduced = kind == 3 || kind == 5 || rebuilds % 2 == 0 || rebuilds > 1;
      if (reduced) {
        int multi = 0; for (auto &g : now) multi += g.size() > 1;
        int alone = 0; std::vector<int> due(syms.size(), 0); for (size_t j = 0; j < syms.size(); j++) due[j] = kind != 0 && syms[j] < decl;      // declared symbols, and those that occurred before the dictionary was built
        for (size_t j = 0; j < syms.size(); j++) { for (size_t k = 0; k < data.size() && !due[j]; k++) if (seen[k]) for (int y : data[k]) if (y == syms[j]) due[j] = 1; alone += due[j]; }
        CHECK((int)now.size() <= std::max(kind == 3 || kind == 5 ? std::max(kind == 5 ? size : 0, sigma + 2) : size, alone), "the dictionary does not exceed the declared size");
        if (rebuilds >= 2) for (size_t j = 0; j < syms.size(); j++) { int x = syms[j];
          if (due[j]) CHECK(nb.has(Seq(1, x)), "every symbol keeps an entry of its own"); }
        for (auto &g : was) if (g.size() == 1) CHECK(nb.has(g), "single symbols are never dropped");
        if (rebuilds == 2 && kind != 3 && kind != 5) for (auto &g : now) CHECK(wb.has(g), "reduction only removes");
        vs_reach("reduced"); if (multi) vs_reach("multi");
      }
    } else if (which == 43) {
      int kinds = 0; for (size_t j = 0; j < syms.size(); j++) { bool in = false; for (auto &d : data) for (int y : d) if (y == syms[j]) in = true; kinds += in; }
      if (kinds > 1 && (kind == 3 || kind == 5 || rebuilds > 1)) { Seq out; cur->parse(data[0], &out); CHECK(out.size() < data[0].size(), "a sequence seen over and over is spelled with fewer v-grams than symbols"); vs_reach("learned"); }
    } else if (which == 17) {
      Seq f; b->result_freqs(&f); CHECK((int)f.size() == cur->size(), "one frequency per v-gram"); for (int x : f) CHECK(x == 0, "a new dictionary starts with no occurrences");
    }
    for (int i = 0; i < cur->size(); i++) CHECK(cur->search(cur->get(i)) == i, "every v-gram is found under its id");
    auto al = b->alpha(); CHECK(al->size() == cur->size(), "the alphabet is that of the result");
    since.clear();
    if (rebuilds >= R) break;
  }
  vs_observe("rebuilds", rebuilds); vs_observe("at", at);
  if (rebuilds >= R) vs_reach("rebuilt");
  vs_reach("end");
}
