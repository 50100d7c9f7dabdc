// Public models, second part.  params: 0 which, 1 mode (0 new int stream, 1 restored int stream, 2 new int batch, 3 restored int batch, 4 text batch, 5 text stream),
// 2 alphabet size (0: any 32-bit symbols), 3 sequences, 4 their length, 5 declared size, 6 passes, 7 probe length, 8 v-grams of a restored model, 9 fixed long ones, 10 fixed training sequences, 11 their length, 12 their alphabet, 13 the larger of the frequencies a restored model is given, 14 fixed training sequences of one known symbol each
// which: 37 saved file, 38 training on, 39 interruption, 40 independent models, 41 ids until the next update, 42 most likely parse, 43 repetition is learned (6 accepts before the model is saved, 7 accepts afterwards; 4 length; 8 symbols the second sequence shares; mode 3: not saved and loaded)
#include "models.h"
#include "int_vgram_builder_p.h"
#include <cmath>
#include <fstream>
struct Interrupted : IntVGram {
  int at; mutable int calls = 0; Interrupted(int size, int it, int at) : IntVGram(size, it, 0), at(at) {}
  bool isTerminated() const override { return at >= 0 && calls++ >= at; }
};
static double ll(const Seqs &al, const Seq &f, const Seq &q, Seq *ids) {   // best likelihood of q, or of the given segmentation
  double tot = 0; for (int x : f) tot += x; double norm = log(tot + (double)al.size());
  if (ids) { double r = 0; for (int x : *ids) r += log(f[(size_t)x] + 1.0) - norm; return r; }
  std::vector<double> b(q.size() + 1, -1e300); b[0] = 0;
  for (size_t p = 0; p < q.size(); p++) { if (b[p] < -1e299) continue; for (size_t i = 0; i < al.size(); i++) if (prefix_at(al[i], q, p)) { double s = b[p] + log(f[i] + 1.0) - norm; if (s > b[p + al[i].size()]) b[p + al[i].size()] = s; } }
  return b[q.size()];
}
extern "C" void vs_main() {
  int which = vs_param(0, 37), mode = vs_param(1, 0), sigma = vs_param(2, 2), S = vs_param(3, 1), L = vs_param(4, 2), size = vs_param(5, 6), M = vs_param(6, 1), P = vs_param(7, 2), V = vs_param(8, 0), XT = vs_param(9, 0), FX = vs_param(10, 0), FL = vs_param(11, 20), FK = vs_param(12, 4), BF = vs_param(13, 3), ONE = vs_param(14, 0); double mp0 = 1.0;
  if (which == 43) {   // what repeats is learned, before and after saving and loading, and the size is respected
    auto different = [&](const char *n) { Seq q = in_seq_any(n, L); for (int i = 0; i < L; i++) for (int j = 0; j < i; j++) ASSUME(q[(size_t)i] != q[(size_t)j]); return q; };
    auto learned = [&](const IntStreamVGram &m, const Seq &q, int times, const Seq &known) {
      Seqs al = m.alphabet(); CHECK((int)al.size() <= std::max(size, (int)known.size()), "the dictionary does not exceed its declared size"); for (int x : known) { bool own = false; for (auto &g : al) if (g.size() == 1 && g[0] == x) own = true; CHECK(own, "every symbol keeps an entry of its own"); }
      if (times * L >= 4500) { if (size > (int)known.size()) { CHECK(m.parse(q).size() < q.size(), "a sequence seen over and over is spelled with fewer v-grams than symbols"); vs_reach("learned"); } } };
    Seq q = different("q"), known; learn(known, q);
    std::shared_ptr<IntStreamVGram> m = mode == 0 || mode == 3 ? std::make_shared<IntStreamVGram>(size, 0) : std::make_shared<IntVGram>(size, 1, 0);
    for (int i = 0; i < M; i++) m->accept(q);
    m->update_dict(); learned(*m, q, M, known);
    if (mode == 3) ; else if (mode == 0) { m->save("model.json"); m = Loader::load_int_stream_vgram("model.json"); } else { IntVGram *b = (IntVGram *)m.get(); b->save("model.json"); m = mode == 2 ? Loader::load_int_stream_vgram("model.json") : std::shared_ptr<IntStreamVGram>(Loader::load_int_vgram("model.json")); }
    Seq r = q; if (V < L) { r = different("r"); for (int i = 0; i < V; i++) ASSUME(r[(size_t)i] == q[(size_t)(L - 1 - i)]); for (int i = V; i < L; i++) for (int x : q) ASSUME(r[(size_t)i] != x); learn(known, r); }
    for (int i = 0; i < P; i++) m->accept(r);
    m->update_dict(); learned(*m, r, P, known);
    vs_observe("n", (int)m->alphabet().size());
    vs_reach("end"); return;
  }
  bool textual = mode >= 4; Seqs data = fixed_data(FX, FL, FK, textual); Strs texts; for (auto &q : data) texts.push_back(letters(q));
  if (textual) for (int i = 0; i < S; i++) texts.push_back(text("c", L, sigma == 0 ? 1 : 0)); else for (int i = 0; i < S; i++) data.push_back(input("s", L, sigma));
  Parts p; if (mode == 1 || mode == 3) { p = parts(2, V, 3, BF, 0, XT); for (auto &s : data) for (int &x : s) { int k = vs_in_choose("k", -1, 1); x = k < 0 ? -100000 : p.known[(size_t)k]; } for (int i = 0; i < ONE; i++) data.push_back(Seq(1, p.known[(size_t)i % 2])); static const double mps[3] = {1.0, 0.0005, 0.00003}; if (which == 37) mp0 = mps[vs_in_choose("mp", 0, 2)]; }
  bool given = mode == 1 || mode == 3; std::shared_ptr<IntStreamVGram> m; std::shared_ptr<IntVGram> b; std::shared_ptr<StringVGram> tb; std::shared_ptr<StringStreamVGram> ts; Seq known = p.known; std::string seen;
  auto feed = [&](IntStreamVGram &x) { for (int k = 0; k < M; k++) for (auto &q : data) x.accept(q); x.update_dict(); };
  if (which == 39) {
    int at = vs_in_choose("at", 0, M * (int)data.size() + (int)data.size()); Interrupted x(size, M, at); Interrupted *i = &x; for (auto &q : data) learn(known, q);
    IntVGram *r = x.fit(data); bool during = at < M * (int)data.size();
    if (during) { CHECK(r == nullptr, "an interrupted fit says so"); vs_reach("interrupted"); } else CHECK(r == i, "fit returns the model");
    int calls = x.calls; CHECK(calls <= M * (int)data.size() + (int)data.size(), "fit asks at most once per sequence and pass"); x.at = -1;
    if (during) { CHECK(x.fit(data) == i, "an interrupted fit can be done again"); spells(x.alphabet(), x.freqs(), data, "after fit the frequencies count the training data"); }
    if (!during && at < (M + 1) * (int)data.size()) { known.clear(); for (auto &c : x.get_coder()->code_map()) known.push_back(c.first); }   // the count of the data was cut short
    Seqs al = x.alphabet(); CHECK(al.size() == x.freqs().size(), "one frequency per v-gram"); CHECK(all_distinct(al), "no v-gram is listed twice");
    Seqs in = data; in.push_back(in_seq_any("q", P)); Seqs full = x.transform(in); Strs fs = x.transform_to_string(in); CHECK(full.size() == in.size() && fs.size() == in.size(), "one result per sequence");
    for (size_t k = 0; k < in.size(); k++) CHECK(eq(cat_of(al, full[k]), known_part(in[k], known)), "the v-grams spell the known symbols of the input");
    x.calls = 0; x.at = vs_in_choose("at2", 0, (int)in.size()); Seqs part = x.transform(in); int n2 = x.at; CHECK(part.size() <= in.size() && (n2 < (int)in.size() || part.size() == in.size()), "an interrupted transform is a beginning of the whole one"); for (size_t k = 0; k < part.size(); k++) CHECK(eq(part[k], full[k]), "an interrupted transform is a beginning of the whole one");
    x.calls = 0; Strs ps = x.transform_to_string(in); CHECK(ps.size() <= in.size(), "an interrupted transform is a beginning of the whole one"); for (size_t k = 0; k < ps.size(); k++) CHECK(same(ps[k], fs[k]), "an interrupted transform is a beginning of the whole one");
    vs_reach("end"); return;
  }
  if (which == 40 && !textual) {   // alone, and together with another model that gets other data
    auto make = [&](int verbose) -> std::shared_ptr<IntStreamVGram> { if (mode == 0) return std::make_shared<IntStreamVGram>(size, verbose); auto c = std::make_shared<SeqCoder>(); c->encode(p.known); return std::make_shared<IntStreamVGram>(c, p.freqs, p.alphabet, size, 1.0); };
    auto x = make(0), y = make(M > 20 ? vs_in_choose("verbose", 1, 2) : 1), o = make(0); Seqs other = fixed_data(M > 20 ? 3 : 1, 24, 9); while (other.size() < 3) other.insert(other.begin(), in_seq_any("o", 2)); Seq q = in_seq_any("q", P);
    for (int k = 0; k < M; k++) for (auto &s : data) x->accept(s); x->update_dict(); Seq ix = x->parse(q);
    for (int k = 0; k < M; k++) for (size_t i = 0; i < data.size(); i++) { o->accept(other[(size_t)k % 3]); y->accept(data[i]); if (k % 8 == 0) { o->update_dict(); o->parse(other[1]); } }
    y->update_dict(); o->update_dict(); o->accept(q); Seq iy = y->parse(q); o->parse(q);
    CHECK(eqs(x->alphabet(), y->alphabet()), "a model depends on its own data only"); CHECK(eq(x->freqs(), y->freqs()), "a model depends on its own data only"); CHECK(eq(ix, iy), "a model depends on its own data only"); CHECK(eq(x->parse(q), ix), "a model depends on its own data only");
    vs_reach("end"); return;
  }
  if (which == 40) {
    StringStreamVGram x(size, 0), y(size, 2), o(size, 0, false, true); std::string q = text("p", P, 1); for (auto &t : texts) x.accept(t); x.update_dict(); Strs rx = x.parse(q);
    for (auto &t : texts) { o.accept("b a"); y.accept(t); o.accept(q); } y.update_dict(); o.update_dict(); o.parse("a"); Strs ry = y.parse(q);
    CHECK(samev(x.alphabet(), y.alphabet()), "a model depends on its own data only"); CHECK(eq(x.freqs(), y.freqs()), "a model depends on its own data only"); CHECK(samev(rx, ry), "a model depends on its own data only"); vs_reach("end"); return;
  }
  // ---- make and train the model
  if (mode == 0) m = std::make_shared<IntStreamVGram>(size, 0); else if (mode == 1) m = std::make_shared<IntStreamVGram>(p.coder, p.freqs, p.alphabet, size, mp0);
  else if (mode == 2) { b = std::make_shared<IntVGram>(size, M, 0); m = b; } else if (mode == 3) { b = std::make_shared<IntVGram>(p.coder, p.freqs, p.alphabet, size, mp0, true, vs_in_choose("fc", 0, 1) == 1); m = b; }
  if (mode == 4) { tb = std::make_shared<StringVGram>(size, M, 0); tb->fit(texts); } else if (mode == 5) { ts = std::make_shared<StringStreamVGram>(size, 0); for (int k = 0; k < M; k++) for (auto &t : texts) ts->accept(t); ts->update_dict(); }
  else if (b) { if (mode != 3 || which != 42 || vs_in_choose("fit", 0, 1)) b->fit(data); } else if (mode == 0 || vs_in_choose("train", 0, 1)) { feed(*m); given = false; }
  if (!textual && mode != 1) for (auto &q : data) learn(known, q); else if (mode == 1) for (auto &x : m->get_coder()->code_map()) learn(known, Seq(1, x.first));
  if (which == 37) {
    older_file("model.json"); if (tb) tb->save("model.json"); else if (ts) ts->save("model.json"); else m->save("model.json");
    Seqs al; Seq f; Strs tal; if (tb) { tal = tb->alphabet(); f = tb->freqs(); } else if (ts) { tal = ts->alphabet(); f = ts->freqs(); } else { al = m->alphabet(); f = m->freqs(); }
    json j; { std::ifstream file("model.json"); file >> j; }
    CHECK(j["size"].get<int>() == size, "the file has the declared size"); double mp = j["min_prob"].get<double>(); CHECK(mp > 0 && mp <= 1, "the file has the minimal probability"); if (given) CHECK(mp == mp0, "the file has the minimal probability");
    if (mode == 0) { IntVGramBuilderImpl ref(size, 0); Seq ks; for (int k = 0; k < M; k++) for (auto &q : data) { learn(ks, q); Seq c; for (int x : q) for (size_t i = 0; i < ks.size(); i++) if (ks[i] == x) c.push_back((int)i); ref.accept(c); } ref.result(); CHECK(ref.get_min_probability() == mp, "the file has the minimal probability"); }   // what training alone ends with
    Seq coder; if (!j["coder"].is_null()) coder = j["coder"].get<Seq>();   // an empty list is written as null
    CHECK(j["alphabet"].size() == f.size(), "the file lists every v-gram once");
    if (!textual) { CHECK(coder.size() == m->get_coder()->code_map().size(), "the file lists every symbol once"); for (auto &x : m->get_coder()->code_map()) CHECK(x.second >= 0 && x.second < (int)coder.size() && coder[(size_t)x.second] == x.first, "symbols are listed in the order of their codes"); }
    std::vector<int> hit(f.size(), 0);
    for (auto &w : j["alphabet"]) {
      Seq v = w["vec"].get<Seq>(), sy; for (int x : v) { CHECK(x >= 0 && x < (int)coder.size(), "v-grams are written with codes of listed symbols"); sy.push_back(coder[(size_t)x]); } int at = -1;
      if (!textual) { for (size_t i = 0; i < al.size(); i++) if (eq(al[i], sy)) at = (int)i; } else { std::string t = w["text"].get<std::string>(); for (size_t i = 0; i < tal.size(); i++) if (same(tal[i], t)) at = (int)i; CHECK(t.size() == v.size(), "a text has one character per symbol"); }
      CHECK(at >= 0, "the file lists every v-gram once"); hit[(size_t)at]++; CHECK(w["freq"].get<int>() == f[(size_t)at], "each v-gram has its frequency");
    }
    for (int h : hit) CHECK(h == 1, "the file lists every v-gram once");
    if (!textual) { auto l = b ? std::shared_ptr<IntStreamVGram>(Loader::load_int_vgram("model.json")) : Loader::load_int_stream_vgram("model.json"); l->save("model2.json"); json k; { std::ifstream file("model2.json"); file >> k; } CHECK(k["size"].get<int>() == size, "saved again, the file has the declared size"); CHECK(k["min_prob"].get<double>() == mp, "saved again, the file has the minimal probability"); CHECK(k["alphabet"].size() == al.size(), "saved again, the file lists every v-gram once"); }
    if (tb || b) { CHECK(j["fitted"].get<bool>() && j["freqs_computed"].get<bool>(), "a fitted model is marked as such"); vs_reach("flags"); } if (textual) vs_reach("text"); else CHECK(j["alphabet"].size() == al.size(), "the file lists every v-gram once");
  } else if (which == 38) {   // a model that was fitted or restored is trained on
    Seq q = in_seq_any("t", P), pr = in_seq_any("q", 1); pr.push_back(q.empty() ? 0 : q[0]); int rounds = vs_in_choose("rounds", 1, 2);
    for (int r = 0; r < rounds; r++) { for (int k = 0; k < (r ? 3 : 1); k++) { m->accept(q); for (auto &s : data) m->accept(s); } for (auto &s : data) learn(known, s); learn(known, q); if (vs_in_choose("parse", 0, 1)) m->parse(q); m->update_dict(); }
    Seqs al = m->alphabet(); Seq f = m->freqs(); CHECK(al.size() == f.size(), "one frequency per v-gram"); CHECK(all_distinct(al), "no v-gram is listed twice"); for (int x : f) CHECK(x >= 0, "frequencies are not negative");
    for (auto &g : p.alphabet) if (g.size() == 1) CHECK(contains(al, p.coder->decode(g)), "symbols stay v-grams"); for (int x : q) CHECK(eq(cat_of(al, m->parse(Seq(1, x))), Seq(1, x)), "new symbols are learned");
    Seqs in = data; in.push_back(q); in.push_back(pr); for (auto &s : in) CHECK(eq(cat_of(m->alphabet(), m->parse(s)), known_part(s, known)), "the parsed v-grams spell the known symbols of the input");
    if (b) { Seqs t = b->transform(in); for (size_t i = 0; i < in.size(); i++) CHECK(eq(cat_of(m->alphabet(), t[i]), known_part(in[i], known)), "the parsed v-grams spell the known symbols of the input"); }
    m->save("model.json"); auto l = mode >= 2 ? std::shared_ptr<IntStreamVGram>(Loader::load_int_vgram("model.json")) : Loader::load_int_stream_vgram("model.json"); same_alphabet(m->alphabet(), m->freqs(), l->alphabet(), l->freqs());
  } else if (which == 41) {
    Seqs al = m->alphabet(); Seq f = m->freqs(), q = in_seq_any("q", P), ids = m->parse(q); Seqs was = vgrams(m->alphabet(), ids);
    Seqs more; for (int i = 0; i < 2; i++) more.push_back(in_seq_any("m", M > 20 ? 1 - i : 1 + i));
    for (int k = 0; k < (M > 20 ? 2 : 3); k++) {
      int op = M > 20 && k == 0 ? 0 : vs_in_choose("op", 0, 3); if (op == 0) { for (int r = 0; r < (M > 20 ? M : 1); r++) { m->accept(more[(size_t)k % 2]); if (M > 20) for (auto &s : data) m->accept(s); } } else if (op == 1) m->parse(more[(size_t)(k + 1) % 2]); else if (op == 2) m->save("model.json"); else { m->alphabet(); m->freqs(); m->get_coder(); }
      Seqs now = m->alphabet(); Seq g = m->freqs(); CHECK(now.size() >= al.size() && g.size() == now.size(), "v-grams do not vanish between updates"); for (size_t i = 0; i < al.size(); i++) { CHECK(eq(now[i], al[i]), "ids keep their meaning until the next update"); CHECK(g[i] == f[i], "frequencies are those of the last update"); } for (size_t i = al.size(); i < now.size(); i++) CHECK(g[i] == 0 && now[i].size() == 1, "only single symbols without occurrences are added"); for (int x : ids) CHECK(x < (int)now.size(), "ids stay valid"); CHECK(eqs(vgrams(now, ids), was), "ids keep their meaning until the next update");
    }
    CHECK(eqs(vgrams(m->alphabet(), m->parse(Seq())), Seqs()), "nothing is parsed into nothing");
  } else {
    Seqs al = m->alphabet(); Seq f = m->freqs(), q; if (P < 0) { q = data[0]; q.resize((size_t)std::min((int)q.size(), -P)); for (int i = 0; i < 2; i++) q.push_back(known[(size_t)vs_in_choose("w", 0, (int)known.size() - 1)]); } else for (int i = 0; i < P; i++) q.push_back(known[(size_t)vs_in_choose("w", 0, (int)known.size() - 1)]);
    for (int x : q) ASSUME(contains(al, Seq(1, x))); Seq ids = m->parse(q); CHECK(eq(cat_of(al, ids), q), "the parsed v-grams spell the input"); CHECK(m->alphabet().size() == al.size(), "known symbols add nothing");
    double got = ll(al, f, q, &ids), best = ll(al, f, q, nullptr); CHECK(got >= best - 1e-9, "no other segmentation is more likely under the frequencies shown"); if (ids.size() < q.size()) vs_reach("shorter");
  }
  vs_reach("end");
}
