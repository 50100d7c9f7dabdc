// Public models.  params: 0 which, 1 mode (0 a model trained from nothing, 1 a model restored from a dictionary),
// 2 alphabet size (symbols 0..sigma-1, 0: any 32-bit symbols), 3 sequences, 4 length of a sequence, 5 declared size, 6 passes over the sequences / operations, 7 min probability in 1/1000 (restored), 8 probe length, 9 variant, 10 fixed training sequences, 11 their length, 12 fixed long v-grams of a restored model, 13 alphabet of the fixed sequences (100 and more: each symbol in turn), 14 the larger of the frequencies a restored model is given
// which: 25 fit, 26 alphabet/frequencies, 27 stream parse, 28 save/load stream, 29 save/load int model, 30 save/load text models, 31 text transform, 32 text stream, 33 id strings
#include "models.h"
#include "int_vgram_builder_p.h"
#include "int_dict_p.h"
extern "C" void vs_main() {
  int which = vs_param(0, 26), mode = vs_param(1, 0), sigma = vs_param(2, 2), S = vs_param(3, 2), L = vs_param(4, 2), size = vs_param(5, 6), M = vs_param(6, 3), mp = vs_param(7, 1000), P = vs_param(8, 2), var = vs_param(9, 0), FX = vs_param(10, 0), FL = vs_param(11, 20), XT = vs_param(12, 0), FK = vs_param(13, 4), BF = vs_param(14, 0); Seqs fixed = fixed_data(FX, FL, FK, which >= 30 && which <= 32);
  auto probe = [&](int l) { if (FK < 100) return in_seq_any("q", l); Seq q; for (int i = 0; i < l; i++) { int c = vs_in_choose("q", 0, 2); q.push_back(c == 2 ? 123456789 : fixed[0][(fixed[0].size() - 1) * (size_t)c]); } q.insert(q.end(), fixed[0].begin(), fixed[0].end()); return q; };   // a few symbols and known data if the alphabet is large
  if (which >= 26 && which <= 28) {
    std::shared_ptr<IntStreamVGram> m; Seq known; Seqs since;
    if (mode == 0) m = std::make_shared<IntStreamVGram>(size, 0);
    else { Parts p = parts(sigma ? sigma : 2, var, 3, BF ? BF : 5, 0, XT); m = std::make_shared<IntStreamVGram>(p.coder, p.freqs, p.alphabet, size, mp / 1000.0); known = p.known;
      Seqs al = m->alphabet(); Seq f = m->freqs(); Seqs given; for (auto &x : p.alphabet) given.push_back(p.coder->decode(x)); same_alphabet(given, p.freqs, al, f); }
    Seqs data; for (int i = 0; i < S; i++) data.push_back(mode ? in_seq_any("s", L) : input("s", L, sigma));
    if (mode && sigma) for (auto &s : data) for (int &x : s) { int k = vs_in_choose("k", -1, sigma - 1); if (k >= 0) x = known[(size_t)k]; else for (int y : known) ASSUME(x != y); }
    data.insert(data.begin(), fixed.begin(), fixed.end());
    if (which == 26) {
      bool upd = mode == 1; long tokens = 0; auto code = [&](const Seq &q) { Seq r; for (int x : q) for (size_t k = 0; k < known.size(); k++) if (known[k] == x) r.push_back((int)k); return r; };
      std::shared_ptr<IntVGramBuilder> ref; std::shared_ptr<IntDict> rd; Seq rf;   // what training alone does with the same data
      if (mode == 0) ref = std::make_shared<IntVGramBuilderImpl>(size, 0);
      for (int k = 0; k < M; k++) {
        int op = vs_in_choose("op", 0, upd ? 2 : 1);
        if (op == 0) { const Seq &q = data[(size_t)k % data.size()]; learn(known, q); Seq cq = code(q); for (int r = 0; r < P; r++) { m->accept(q); if (ref) ref->accept(cq); if (tokens <= 1100) since.push_back(q); tokens += (long)q.size(); } }
        else if (op == 1) { m->update_dict(); upd = true; vs_reach("updated"); if (mode == 0 && tokens <= 1100) spells(m->alphabet(), m->freqs(), since, "the frequencies after an update count the symbols accepted");
          if (ref) { rd = ref->result(); rf.clear(); ref->result_freqs(&rf); if (tokens > 1100) vs_reach("rebuilt"); Seqs al = m->alphabet(), ra; for (auto &g : rd->alphabet()) { Seq w; for (int x : g) w.push_back(known[(size_t)x]); ra.push_back(w); } same_alphabet(ra, rf, al, m->freqs()); } }
        else { Seq q = data[(size_t)(k + 1) % data.size()]; m->parse(q); if (rd) { Seq t; long tot = 0; for (int x : rf) tot += x; rd->parse(code(q), rf, (double)tot, &t); } }
        if (upd) { Seqs al = m->alphabet(); Seq f = m->freqs(); CHECK(al.size() == f.size(), "one frequency per v-gram"); CHECK(all_distinct(al), "no v-gram is listed twice"); for (int x : f) CHECK(x >= 0, "frequencies are not negative"); for (auto &g : al) { CHECK(!g.empty(), "a v-gram is not empty"); CHECK(eq(known_part(g, known), g), "v-grams consist of symbols accepted"); } }
      }
    } else {
      for (int k = 0; k < M; k++) for (auto &q : data) { m->accept(q); learn(known, q); }
      if (mode == 0 || vs_in_choose("upd", 0, 1)) m->update_dict();
      Seq q = probe(P); int late = which == 27 && var >= 0 && mode == 0 ? vs_in_choose("late", 0, var == 3 ? 2 : 1) : 0;
      if (late) { if (var == 3) { Seq first = m->parse(q); CHECK(eq(cat_of(m->alphabet(), first), known_part(q, known)), "the parsed v-grams spell the known symbols of the input"); } Seq n = input("late", 1, sigma); m->accept(n); learn(known, n); if (late == 2) m->update_dict(); vs_reach("late"); }
      if (which == 27) {
        Seq ids = m->parse(q); Seqs al = m->alphabet(); CHECK(eq(cat_of(al, ids), known_part(q, known)), "the parsed v-grams spell the known symbols of the input");
        if (ids.size() < q.size()) vs_reach("shorter");
        Seq again = m->parse(q); CHECK(eq(ids, again), "parsing again gives the same"); CHECK(m->alphabet().size() == al.size(), "parsing again adds nothing"); for (size_t i = 0; i < al.size(); i++) CHECK(eq(m->alphabet()[i], al[i]), "ids keep their meaning");
        vs_observe("n", (int)ids.size() * 0);
      } else {
        if (vs_in_choose("grow", 0, 1)) m->parse(Seq(known.rbegin(), known.rend()));
        older_file("model.json"); m->save("model.json"); std::shared_ptr<IntStreamVGram> l = Loader::load_int_stream_vgram("model.json");
        same_alphabet(m->alphabet(), m->freqs(), l->alphabet(), l->freqs());
        auto ca = m->get_coder()->code_map(), cb = l->get_coder()->code_map(); CHECK(ca.size() == cb.size(), "the loaded model knows the same symbols"); for (int x : known) { auto ia = ca.find(x), ib = cb.find(x); CHECK(ia != ca.end() && ib != cb.end() && ia->second == ib->second, "the loaded model knows the same symbols"); }
        Seq ia = m->parse(q), ib = l->parse(q); CHECK(eqs(vgrams(m->alphabet(), ia), vgrams(l->alphabet(), ib)), "the loaded model parses alike");
        l->save("model2.json"); std::shared_ptr<IntStreamVGram> l2 = Loader::load_int_stream_vgram("model2.json"); same_alphabet(l->alphabet(), l->freqs(), l2->alphabet(), l2->freqs());
        Seq i2 = l2->parse(q); CHECK(eqs(vgrams(l2->alphabet(), i2), vgrams(l->alphabet(), ib)), "the loaded model parses alike");
        Seq q2 = data.empty() ? q : data[0]; l->accept(q2); l->update_dict(); CHECK(l->alphabet().size() == l->freqs().size(), "a loaded model can be trained on"); Seq i3 = l->parse(q2); CHECK(eq(cat_of(l->alphabet(), i3), q2), "a loaded model can be trained on");
      }
    }
    vs_reach("end"); return;
  }
  if (which == 25 || which == 29 || which == 33) {
    Seqs data; for (int i = 0; i < S; i++) { int l = var == 2 ? vs_in_choose("len", 0, L) : L; data.push_back(mode ? Seq() : input("s", l, sigma)); }
    std::shared_ptr<IntVGram> m; Seq known; Parts p;
    bool piecewise = which == 29 && var == 5;   // trained by accept and update_dict instead of fit
    if (mode == 0) m = std::make_shared<IntVGram>(size, M, 0);
    else {
      p = parts(sigma, var, 3, BF ? BF : 3, 0, XT); known = p.known; bool fitted = true, fc = mode == 2;
      m = std::make_shared<IntVGram>(p.coder, p.freqs, p.alphabet, size, mp / 1000.0, fitted, fc);
      Seqs given; for (auto &x : p.alphabet) given.push_back(p.coder->decode(x)); same_alphabet(given, p.freqs, m->alphabet(), m->freqs());
      for (auto &s : data) for (int i = 0; i < L; i++) { int k = vs_in_choose("k", which == 25 && mode == 1 ? -1 : 0, sigma - 1); s.push_back(k < 0 ? 100000 : known[(size_t)k]); }
    }
    if (mode == 0) data.insert(data.begin(), fixed.begin(), fixed.end());
    for (auto &s : data) learn(known, s);
    Seqs al0; Seq f0; if (mode) { al0 = m->alphabet(); f0 = m->freqs(); }
    if (piecewise) { for (int k = 0; k < M; k++) for (auto &s : data) m->accept(s); m->update_dict(); } else
    if (mode != 2 || which == 25) CHECK(m->fit(data) == m.get(), "fit returns the model");
    Seqs al = m->alphabet(); Seq f = m->freqs(); CHECK(al.size() == f.size(), "one frequency per v-gram"); CHECK(all_distinct(al), "no v-gram is listed twice");
    if (which == 25) {
      if (mode == 2) same_alphabet(al0, f0, al, f);
      else spells(al, f, data, "after fit the frequencies count the training data");
      for (int x : known) CHECK(contains(al, Seq(1, x)) , "every training symbol is a v-gram");
      if (mode == 1) for (auto &g : al0) CHECK(contains(al, g), "recounting keeps the v-grams");
      m->fit(data); same_alphabet(al, f, m->alphabet(), m->freqs()); Seqs other; other.push_back(Seq(2, 99)); m->fit(other); same_alphabet(al, f, m->alphabet(), m->freqs());
      Seqs r = m->transform(data); CHECK(r.size() == data.size(), "one result per sequence"); for (size_t i = 0; i < r.size(); i++) CHECK(eq(cat_of(al, r[i]), data[i]), "training data is parsed without loss");
      bool multi = false; for (auto &g : al) if (g.size() > 1) multi = true; if (multi) vs_reach("multi");
    } else if (which == 29) {
      if (vs_in_choose("late", 0, 1)) { Seq n; n.push_back(-777777); n.push_back(777777); m->accept(n); m->parse(Seq(n.rbegin(), n.rend())); al = m->alphabet(); f = m->freqs(); vs_reach("late"); }
      older_file("model.json"); m->save("model.json"); std::shared_ptr<IntVGram> l(Loader::load_int_vgram("model.json"));
      same_alphabet(al, f, l->alphabet(), l->freqs()); Seqs in = data; in.push_back(probe(P)); if (piecewise) in.push_back(vs_in_choose("w", 0, 1) ? in_seq("w", 3, 0, 1) : Seq());
      Seqs a = m->transform(in), b = l->transform(in); for (size_t i = 0; i < in.size(); i++) CHECK(eqs(vgrams(m->alphabet(), a[i]), vgrams(l->alphabet(), b[i])), "the loaded model transforms alike");
      Seqs al1 = l->alphabet(); Seq f1 = l->freqs(); if (!piecewise) l->fit(in); same_alphabet(al1, f1, l->alphabet(), l->freqs());   // it is fitted already
      IntStreamVGram *base = m.get(); base->save("model2.json"); std::shared_ptr<IntVGram> l2(Loader::load_int_vgram("model2.json")); same_alphabet(al, f, l2->alphabet(), l2->freqs());
    } else {
      Seqs in = data; in.push_back(Seq()); in.push_back(probe(P)); Seqs a = m->transform(in); Strs t = m->transform_to_string(in); CHECK(a.size() == in.size() && t.size() == in.size(), "one result per sequence");
      for (size_t i = 0; i < in.size(); i++) { Seq one = m->parse(in[i]); CHECK(eq(one, a[i]), "a batch is transformed like its sequences one by one"); std::string e; for (int x : a[i]) e += " " + std::to_string(x); if (a[i].empty()) { e = "-1"; vs_reach("empty"); } CHECK(same(t[i], e), "ids are written in order, each after a space; no ids as -1"); CHECK(eq(cat_of(m->alphabet(), a[i]), known_part(in[i], known)), "the v-grams spell the known symbols of the input"); }
    }
    vs_observe("n", (int)al.size()); vs_reach("end"); return;
  }
  // text models
  Strs data; std::string seen; for (int i = 0; i < S; i++) { data.push_back(text("c", L, var)); }
  for (auto &q : fixed) data.insert(data.begin(), letters(q)); for (auto &s : data) seen += norm(s);
  Strs probes = data; probes.push_back(text("p", P, 1)); probes.push_back("");
  if (which == 32 && mode == 9) {
    int a = vs_in_choose("a", 0, 1), b = vs_in_choose("b", 0, 1), c = vs_in_choose("c", 0, 1); bool threw = false;
    try { if (c) { StringStreamVGram x(size, 0, a, b); } else { StringStreamVGram x(std::make_shared<IntStreamVGram>(size, 0), std::make_shared<CharTokenizer>(), a, b); } } catch (std::invalid_argument &) { threw = true; }
    CHECK(threw == (a && b), "contradictory options are rejected, others accepted"); if (threw) vs_reach("rejected"); vs_reach("end"); return;
  }
  if (which == 32 && mode == 8) {   // words as tokens
    StringStreamVGram m(size, 0, false, true); std::string s = data[0]; for (int k = 0; k < M; k++) m.accept(s); m.update_dict(); std::string cat, need; for (char c : s) if (c != ' ') need.push_back(c);
    for (auto &x : m.parse(s)) cat += x; CHECK(same(cat, need), "the parsed v-grams spell the words"); CHECK(m.alphabet().size() == m.freqs().size(), "one frequency per v-gram"); vs_reach("end"); return;
  }
  if (which == 31 && mode == 7) {   // words as tokens
    int ctor = vs_in_choose("ctor", 0, 2); std::shared_ptr<StringVGram> m; if (ctor == 0) m = std::make_shared<StringVGram>(size, M, new WordTokenizer(), 0); else if (ctor == 1) m = std::make_shared<StringVGram>(size, M, new WordTokenizer()); else m = std::make_shared<StringVGram>(std::make_shared<IntVGram>(size, M, 0), std::make_shared<WordTokenizer>());
    CHECK(m->fit(data) == m.get(), "fit returns the model"); CHECK(m->alphabet().size() == m->freqs().size(), "one frequency per v-gram"); Strs known; std::string cur; for (auto &s : data) { for (char c : s + " ") if (c == ' ') { if (!cur.empty()) known.push_back(cur); cur.clear(); } else cur.push_back(c); }
    Strs in = data; in.push_back(" zz" + data[0] + "  zz "); in.push_back(""); Strs r = m->transform(in); CHECK(r.size() == in.size(), "one result per text");
    for (size_t k = 0; k < in.size() && k < r.size(); k++) { std::string need, got; for (char c : in[k] + " ") if (c == ' ') { bool kn = false; for (auto &x : known) if (same(x, cur)) kn = true; if (kn) need += cur; cur.clear(); } else cur.push_back(c); for (char c : r[k]) if (c != ' ') got.push_back(c); CHECK(same(got, need), "the pieces spell the known words"); if (got.size() + 2 < in[k].size()) vs_reach("unknown"); }
    vs_reach("end"); return;
  }
  if (which == 32 || (which == 30 && mode == 1)) {
    bool inner = which == 32 && mode == 7; int ctor = inner ? vs_in_choose("ctor", 0, 1) : 0; std::shared_ptr<StringStreamVGram> mp_ = ctor ? std::make_shared<StringStreamVGram>(std::make_shared<IntStreamVGram>(size, 0), std::make_shared<CharTokenizer>(), inner, false) : std::make_shared<StringStreamVGram>(size, 0, inner); StringStreamVGram &m = *mp_; for (int k = 0; k < M; k++) for (auto &s : data) m.accept(s); m.update_dict();
    std::shared_ptr<StringStreamVGram> l; if (which == 30) { older_file("model.json"); m.save("model.json"); l = Loader::load_string_stream_vgram("model.json"); }
    Strs al = m.alphabet(); CHECK(al.size() == m.freqs().size(), "one frequency per v-gram"); for (size_t i = 0; i < al.size(); i++) for (size_t j = 0; j < i; j++) CHECK(!same(al[i], al[j]), "no v-gram is listed twice");
    if (l) { Strs lal = l->alphabet(); Seq fa = m.freqs(), fb = l->freqs(); CHECK(al.size() == lal.size(), "the loaded model has the same v-grams"); for (size_t i = 0; i < al.size(); i++) { int at = -1; for (size_t j = 0; j < lal.size(); j++) if (same(al[i], lal[j])) at = (int)j; CHECK(at >= 0, "the loaded model has the same v-grams"); CHECK(fa[i] == fb[(size_t)at], "the loaded model has the same frequencies"); } }
    for (auto &s : probes) {
      std::string cat; Strs r = m.parse(s); for (auto &x : r) { cat += x; bool in = false; for (auto &y : m.alphabet()) if (same(x, y)) in = true; CHECK(in, "every piece is in the alphabet"); }
      CHECK(same(cat, keep(norm(s), seen)), "the pieces spell the known characters of the normalised text"); if (cat.size() < norm(s).size()) vs_reach("unknown");
      if (l) { Strs b = l->parse(s); CHECK(b.size() == r.size(), "the loaded model parses alike"); for (size_t i = 0; i < r.size() && i < b.size(); i++) CHECK(same(r[i], b[i]), "the loaded model parses alike"); }
    }
    if (l) { l->accept(data[0]); l->update_dict(); std::string cat; for (auto &x : l->parse(data[0])) cat += x; CHECK(same(cat, norm(data[0])), "a loaded model can be trained on"); }
  } else {
    StringVGram m(size, M, 0); CHECK(m.fit(data) == &m, "fit returns the model"); Strs al = m.alphabet(); Seq f = m.freqs(); CHECK(al.size() == f.size(), "one frequency per v-gram");
    for (size_t i = 0; i < al.size(); i++) for (size_t j = 0; j < i; j++) CHECK(!same(al[i], al[j]), "no v-gram is listed twice");
    for (char c : seen) { int need = 0, got = 0; for (char d : seen) need += d == c; for (size_t i = 0; i < al.size() && i < f.size(); i++) for (char d : al[i]) got += d == c ? f[i] : 0; CHECK(need == got, "after fit the frequencies count the training text"); }
    std::shared_ptr<StringVGram> l; if (which == 30) { older_file("model.json"); m.save("model.json"); l.reset(Loader::load_string_vgram("model.json")); Strs lal = l->alphabet(); Seq fb = l->freqs(); CHECK(al.size() == lal.size() && fb.size() == f.size(), "the loaded model has the same v-grams"); for (size_t i = 0; i < al.size(); i++) { int at = -1; for (size_t j = 0; j < lal.size(); j++) if (same(al[i], lal[j])) at = (int)j; CHECK(at >= 0, "the loaded model has the same v-grams"); CHECK(f[i] == fb[(size_t)at], "the loaded model has the same frequencies"); } }
    Strs r = m.transform(probes); CHECK(r.size() == probes.size(), "one result per text");
    for (size_t k = 0; k < probes.size() && k < r.size(); k++) {
      std::string need = keep(norm(probes[k]), seen), got, piece; bool ok = true; Strs pieces;
      for (size_t i = 0; i <= r[k].size(); i++) { if (i == r[k].size() || r[k][i] == ' ') { if (!r[k].empty() && piece.empty()) ok = false; if (!piece.empty()) pieces.push_back(piece); piece.clear(); } else { piece.push_back(r[k][i]); got.push_back(r[k][i]); } }
      CHECK(ok, "pieces are separated by single spaces"); CHECK(same(got, need), "the pieces spell the known characters of the normalised text"); for (auto &x : pieces) { bool in = false; for (auto &y : al) if (same(x, y)) in = true; CHECK(in, "every piece is in the alphabet"); }
      if (got.size() < norm(probes[k]).size()) vs_reach("unknown"); if (pieces.size() > 1) vs_reach("many"); for (auto &x : pieces) if (x.size() > 1) vs_reach("multi");
    }
    if (l) { Strs b = l->transform(probes); CHECK(b.size() == r.size(), "the loaded model transforms alike"); for (size_t k = 0; k < r.size() && k < b.size(); k++) CHECK(same(r[k], b[k]), "the loaded model transforms alike"); l->fit(data); Seq f2 = l->freqs(); CHECK(f2.size() == f.size(), "a loaded model stays fitted"); }
  }
  vs_reach("end");
}
