// Reference functions shared by the harnesses: straight-line definitions of the
// notions the properties are stated in.  They never call the code under test.
#pragma once
#include "vsym.h"
#include <vector>
#include <string>
#include <unordered_set>
#include <set>
#include <algorithm>
typedef std::vector<int> Seq;
typedef std::vector<Seq> Seqs;

static inline bool eq(const Seq &a, const Seq &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false;
  return true;
}
// does p start at position pos of s?
static inline bool prefix_at(const Seq &p, const Seq &s, size_t pos) {
  if (pos + p.size() > s.size()) return false;
  for (size_t i = 0; i < p.size(); i++) if (p[i] != s[pos + i]) return false;
  return true;
}
static inline bool lex_less(const Seq &a, const Seq &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (a[i] < b[i]) return true; if (b[i] < a[i]) return false; }
  return a.size() < b.size();
}
// n sequences, lengths 1..maxlen, any 32-bit elements
static inline Seqs in_seqs_any(const char *name, int n, int maxlen) {
  Seqs r;
  for (int i = 0; i < n; i++) { int len = vs_in_choose("len", 1, maxlen); r.push_back(in_seq_any(name, len)); }
  return r;
}
static inline Seqs in_seqs(const char *name, int n, int maxlen, int lo, int hi) {
  Seqs r;
  for (int i = 0; i < n; i++) { int len = vs_in_choose("len", 1, maxlen); r.push_back(in_seq(name, len, lo, hi)); }
  return r;
}
static inline bool all_distinct(const Seqs &v) {
  if (v.size() > 2000) { Seqs s = v; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) if (s[i - 1] == s[i]) return false; return true; }   // only fixed data is that large
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (eq(v[i], v[j])) return false;
  return true;
}
// a fixed dictionary over {0..sigma-1}: n distinct sequences of length 1..maxlen in a scrambled order; all symbols included if full
static inline Seqs fixed_seqs(int n, int sigma, int maxlen, unsigned seed, bool full) {
  Seqs r; unsigned s = seed * 2654435761u + 12345u;
  if (seed >= 100) {   // chains: one long sequence after the other, with its beginnings of every length but a few
    if (full) for (int i = 0; i < sigma; i++) r.push_back(Seq(1, i));
    std::set<Seq> have;
    while ((int)r.size() < n) {
      Seq q; int skip = 0;
      while ((int)q.size() < maxlen && (int)r.size() < n) { s = s * 1664525u + 1013904223u; q.push_back((int)((s >> 16) % (unsigned)sigma)); if (skip) skip--; else { if (!(full && q.size() == 1)) { if (have.insert(q).second) r.insert(r.begin() + (long)((s >> 8) % (r.size() + 1)), q); } if ((s >> 4) % 7u == 0) skip = 2; } }
    }
    return r;
  }
  if (full) for (int i = sigma - 1; i >= 0; i--) r.push_back(Seq(1, i));
  int tries = 0; std::set<Seq> have(r.begin(), r.end());
  while ((int)r.size() < n && tries++ < (n > 1000 ? 200000 : 20000)) {
    s = s * 1664525u + 1013904223u; int len = 1 + (int)((s >> 16) % (unsigned)maxlen); Seq q;
    if (maxlen > 9 && r.size() > 4 && (s >> 5) % 3u) { const Seq &b = r[(s >> 9) % r.size()]; if ((int)b.size() < maxlen) q.assign(b.begin(), b.end()); len = std::min((int)q.size() + 1 + len % 4, maxlen); }   // long v-grams extend others
    for (int i = (int)q.size(); i < len; i++) { s = s * 1664525u + 1013904223u; q.push_back((int)((s >> 16) % (unsigned)sigma)); }
    if (have.insert(q).second) { size_t at = r.size() ? (s >> 8) % r.size() : 0; if (n > 1000) { r.push_back(q); r[at].swap(r.back()); } else r.insert(r.begin() + (long)at, q); }
  }
  return r;
}
// q between two fixed stretches of pad symbols each: pseudo-random over {0..sigma-1} (style 0), pairwise different and unknown to any fixed dictionary (style 1), both alternating with repetitions (style 2), or v-grams of a dictionary one after the other (style 3)
static inline Seq padded(const Seq &q, int pad, int sigma, int style, unsigned seed, const Seqs &words = Seqs()) {
  Seq r; unsigned s = seed * 747796405u + 2891336453u;
  for (int side = 0; side < 2; side++) {
    if (style == 3) { size_t want = r.size() + (size_t)pad; while (r.size() < want) { s = s * 1664525u + 1013904223u; const Seq &w = words[(s >> 16) % words.size()]; r.insert(r.end(), w.begin(), w.end()); } }
    else for (int i = 0; i < pad; i++) { s = s * 1664525u + 1013904223u; int v = (int)((s >> 16) % (unsigned)sigma); if (style == 1) v = 1000 + 17 * (i + side * pad); if (style == 2 && i % 2) v = -5 - (int)((s >> 8) % 7u); r.push_back(v); }
    if (side == 0) r.insert(r.end(), q.begin(), q.end());
  }
  return r;
}
// a set of sequences; large ones (fixed data) are searched quickly
struct Bag { Seqs v; Bag(const Seqs &x) : v(x) { if (v.size() > 2000) std::sort(v.begin(), v.end()); } bool has(const Seq &q) const { if (v.size() > 2000) return std::binary_search(v.begin(), v.end(), q); for (auto &x : v) if (eq(x, q)) return true; return false; } };
static inline bool contains(const Seqs &v, const Seq &q) { for (auto &x : v) if (eq(x, q)) return true; return false; }
static inline void observe_seqs(const char *tag, const Seqs &v) { vs_observe(tag, (int64_t)v.size()); for (auto &x : v) observe_seq(tag, x); }
static inline void in_string(std::string *out, const char *name, int len, int lo, int hi) { for (int i = 0; i < len; i++) out->push_back((char)vs_in_range(name, lo, hi)); }
