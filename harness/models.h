// Shared by the harnesses of the public models: reference functions and ways to make models and data.
#pragma once
#include "common.h"
#include "loader.h"
#include "saver.h"
#include <memory>
using namespace vgram_core;
typedef std::vector<std::string> Strs;
static inline bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static inline Seq cat_of(const Seqs &al, const Seq &ids) { Seq r; for (int x : ids) { CHECK(x >= 0 && x < (int)al.size(), "ids are ids of the alphabet"); r.insert(r.end(), al[(size_t)x].begin(), al[(size_t)x].end()); } return r; }
static inline Seq known_part(const Seq &q, const Seq &known) { Seq r; for (int x : q) for (int k : known) if (k == x) { r.push_back(x); break; } return r; }
static inline void learn(Seq &known, const Seq &q) { for (int x : q) { bool k = false; for (int y : known) if (y == x) k = true; if (!k) known.push_back(x); } }
static inline Seq input(const char *n, int L, int sigma) { return sigma ? in_seq(n, L, 0, sigma - 1) : in_seq_any(n, L); }
static inline bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static inline std::string norm(const std::string &s) { std::string r; for (char c : s) if (alnum(c)) r.push_back(c >= 'A' && c <= 'Z' ? (char)(c + 32) : c); return r; }
static inline std::string keep(const std::string &s, const std::string &known) { std::string r; for (char c : s) { bool k = false; for (char x : known) if (x == c) k = true; if (k) r.push_back(c); } return r; }
static inline std::string text(const char *n, int L, int kind) { // 0: a few letters and noise, 1: any byte
  std::string s; for (int i = 0; i < L; i++) { if (kind == 1) s.push_back((char)vs_in_range(n, -128, 127)); else { static const char t[6] = {'a', 'b', 'A', ' ', '7', '.'}; s.push_back(t[vs_in_choose(n, 0, kind == 2 ? 1 : 3)]); } } return s; }
// spells: frequencies times v-grams give the symbols of the data
static inline void spells(const Seqs &al, const Seq &f, const Seqs &data, const char *msg) {
  CHECK(f.size() == al.size(), "one frequency per v-gram"); Seq syms; for (auto &s : data) learn(syms, s); for (auto &g : al) learn(syms, g);
  for (int x : syms) { int need = 0, got = 0; for (auto &s : data) for (int y : s) need += y == x; for (size_t i = 0; i < al.size() && i < f.size(); i++) for (int y : al[i]) if (y == x) got += f[i]; CHECK(need == got, msg); }
}
static inline void same_alphabet(const Seqs &a, const Seq &fa, const Seqs &b, const Seq &fb) {
  CHECK(a.size() == b.size(), "the loaded model has the same v-grams"); CHECK(fa.size() == a.size() && fb.size() == b.size(), "one frequency per v-gram");
  for (size_t i = 0; i < a.size(); i++) { int at = -1; for (size_t j = 0; j < b.size(); j++) if (eq(a[i], b[j])) at = (int)j; CHECK(at >= 0, "the loaded model has the same v-grams"); CHECK(fa[i] == fb[(size_t)at], "the loaded model has the same frequencies"); }
}
static inline void older_file(const std::string &n) { IntStreamVGram o(5, 0); o.accept(Seq(2, 424242)); o.update_dict(); o.save(n); }   // a model saved before under the same name
static inline Seqs vgrams(const Seqs &al, const Seq &ids) { Seqs r; for (int x : ids) { CHECK(x >= 0 && x < (int)al.size(), "ids are ids of the alphabet"); r.push_back(al[(size_t)x]); } return r; }
static inline bool eqs(const Seqs &a, const Seqs &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
struct Parts { std::shared_ptr<SeqCoder> coder; Seq freqs; Seqs alphabet; Seq known; };
// a dictionary to restore from: singles for every code and some longer v-grams, listed in some order
static inline Parts parts(int ncodes, int n, int ml, int maxf, int textual, int extra = 0) {
  Parts p; p.coder = std::make_shared<SeqCoder>(); Seq syms; for (int i = 0; i < ncodes; i++) syms.push_back(textual ? i : 10 + 7 * ((i * 5) % ncodes)); p.coder->encode(syms); p.known = syms;
  Seqs all; for (int i = 0; i < ncodes; i++) all.push_back(Seq(1, i));
  for (int i = 0; i < n; i++) { int len = vs_in_choose("elen", 2, ml); Seq e = in_seq("e", len, 0, ncodes - 1); for (auto &x : e) x = vs_concretize(x); all.push_back(e); }
  static const int xs[5][14] = {{5, 0, 1, 0, 1, 1}, {4, 1, 1, 1, 1}, {4, 0, 1, 0, 1}, {12, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0, 1, 0}, {8, 1, 0, 0, 0, 0, 0, 0, 0}}; for (int k = 0; k < extra && k < 5; k++) all.push_back(Seq(xs[k] + 1, xs[k] + 1 + xs[k][0]));
  ASSUME(all_distinct(all)); int rot = vs_in_choose("rot", 0, (int)all.size() - 1);
  for (size_t i = 0; i < all.size(); i++) { p.alphabet.push_back(all[(i + (size_t)rot) % all.size()]); p.freqs.push_back((int)i < n + 1 ? vs_in_choose("f", 0, 1) * maxf : (int)i); }
  return p;
}

// fixed training sequences of the given length over k spread-out symbols (negative ones included), made of a few repeated words (each sequence of words of its own if k < 0)
static inline int spread(int i) { return (i % 2 ? -1 : 1) * (i * 7919 + 3); }
static inline Seqs fixed_data(int n, int len, int k, bool plain = false) {
  Seqs r; if (n == 0) return r; if (k >= 100) { for (int i = 0; i < n; i++) { Seq t; for (int j = 0; j < len; j++) t.push_back(spread((i * len + j) % k)); r.push_back(t); } return r; }   // a large alphabet
  bool own = k < 0; if (own) k = -k; Seqs w = fixed_seqs(5, k, 4, (unsigned)(k * 7 + 1), false);
  for (int i = 0; i < n; i++) { if (own) w = fixed_seqs(3, k, 3, (unsigned)(k * 7 + 31 * i), false); Seq t; unsigned s = (unsigned)i * 97u + 5u; while ((int)t.size() < len) { s = s * 1664525u + 1013904223u; for (int x : w[(s >> 16) % w.size()]) t.push_back(plain ? x : spread(x)); } r.push_back(t); }
  return r;
}
static inline std::string letters(const Seq &q) { std::string s; for (int x : q) { s.push_back((char)('a' + x % 26)); if (x % 3 == 1) s.push_back(' '); } return s; }
static inline bool samev(const Strs &a, const Strs &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
