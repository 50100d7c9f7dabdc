// Tokenizers: 21 codes, 22 character normalisation, 23 word splitting, 24 batches
// params: 0 which, 1 kind (0 char, 1 word), 2 strings, 3 length, 4 loaded map entries, 5 fixed characters before and after every text (21: fixed words first; 24: fixed texts first)
#include "common.h"
#include "tokenizers/char_tokenizer.h"
#include "tokenizers/word_tokenizer.h"
#include <memory>
using namespace vgram_core;
typedef std::vector<std::string> Strs;
static bool seq_s(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static std::string noise(int n, unsigned s) { std::string r; static const char t[] = "abcXYZ09 .,_-\t\n  aaab\x80\xff@[`{/:"; for (int i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; r.push_back(t[(s >> 16) % (n > 99 && i > n / 3 ? 7 : sizeof(t) - 1)]); } return r; }
static std::string text(const char *nm, int L, int pad = 0) { std::string s = noise(pad, 3); for (int i = 0; i < L; i++) s.push_back((char)vs_in_range(nm, -128, 127)); return s + noise(pad, 8); }
static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static std::string norm(const std::string &s) { std::string r; for (char c : s) if (alnum(c)) r.push_back(c >= 'A' && c <= 'Z' ? (char)(c + 32) : c); return r; }
static Strs words(const std::string &s) { Strs r; std::string c; for (char x : s) { if (x == ' ') { if (!c.empty()) r.push_back(c); c.clear(); } else c.push_back(x); } if (!c.empty()) r.push_back(c); return r; }
extern "C" void vs_main() {
  int which = vs_param(0, 21), kind = vs_param(1, 0), K = vs_param(2, 2), L = vs_param(3, 2), N = vs_param(4, 0), pad = vs_param(5, 0);
  std::unordered_map<std::string, int> m; Strs mk; Seq mc;
  for (int i = 0; i < N; i++) { std::string key; if (kind == 0) key.push_back((char)vs_in_range("key", 'a', 'd')); else key = std::string("w") + (char)('a' + i); for (auto &x : mk) ASSUME(!seq_s(x, key)); int code = vs_in_range("code", 0, 9); for (int x : mc) ASSUME(x != code); mk.push_back(key); mc.push_back(code); m[key] = code; }
  std::shared_ptr<BaseTokenizer> t;
  if (kind == 0) t.reset(N ? new CharTokenizer(m) : new CharTokenizer()); else t.reset(N ? new WordTokenizer(m) : new WordTokenizer());
  if (which == 21) {
    Strs tok = mk; Seq code = mc; Strs texts; Seqs ids;
    if (pad) K++;
    for (int k = 0; k < K; k++) {
      std::string s; if (pad && k == 0) { for (int i = 0; i < pad; i++) { if (kind == 0) s.push_back((char)('!' + i % 94)); else { s += i % 9 == 8 ? "  w" : " "; if (i % 7 == 5) s += std::string((size_t)(40 + i % 90), (char)('p' + i % 3)); s += std::to_string(i * 37 % 1000); } } } else if (kind == 0 && N) { for (int i = 0; i < L; i++) s.push_back((char)vs_in_range("c", 'a', 'f')); } else if (kind == 1) { for (int i = 0; i < L; i++) { int w = vs_in_range("w", 0, 3); if (i) s += ' '; s += 'w'; s += (char)('a' + w); } } else s = text("c", L);
      Strs parts; if (kind == 0) { for (char c : norm(s)) parts.push_back(std::string(1, c)); } else parts = words(s);
      Seq r = t->transform(s); CHECK(r.size() == parts.size(), "one code per token");
      std::string cat;
      for (size_t i = 0; i < parts.size() && i < r.size(); i++) {
        cat += parts[i]; bool known = false;
        for (size_t j = 0; j < tok.size(); j++) { bool same = seq_s(tok[j], parts[i]); known = known || same; CHECK(same == (code[j] == r[i]), "equal tokens have equal codes, different tokens different ones"); }
        if (!known) { tok.push_back(parts[i]); code.push_back(r[i]); if (N) vs_reach("new"); }
      }
      texts.push_back(cat); ids.push_back(r);
      for (size_t i = 0; i < texts.size(); i++) CHECK(seq_s(t->decode(ids[i]), texts[i]), "decoding gives the tokens back");
    }
    Seq odd = ids[0]; int free = 0; for (int x : code) if (x >= free) free = x + 1; odd.insert(odd.begin(), free + vs_in_choose("more", 0, 1)); odd.push_back(-1); CHECK(seq_s(t->decode(odd), texts[0]), "codes that were never given are skipped");
    for (auto &x : ids) observe_seq("ids", x);
  } else if (which == 22) {
    CharTokenizer c; for (int k = 0; k < K; k++) { std::string s = text("c", L, pad), n = c.normalize(s), e = norm(s); CHECK(seq_s(n, e), "letters are lowercased, digits kept, everything else removed"); CHECK(seq_s(c.normalize(n), n), "normalisation is idempotent"); Strs p = c.tokenize(n); CHECK(p.size() == n.size(), "one token per character"); for (size_t i = 0; i < p.size(); i++) CHECK(p[i].size() == 1 && p[i][0] == n[i], "tokens are the characters in order"); Seq r = c.transform(s); CHECK(r.size() == e.size(), "one code per remaining character"); CHECK(seq_s(c.decode(r), e), "decoding gives the normalised text"); }
  } else if (which == 23) {
    WordTokenizer w; std::string s = text("c", L, pad); Strs p = w.tokenize(s), e = words(s); CHECK(p.size() == e.size(), "one token per word"); for (size_t i = 0; i < p.size() && i < e.size(); i++) CHECK(seq_s(p[i], e[i]), "tokens are the maximal runs without spaces"); CHECK(seq_s(w.normalize(s), s), "words are taken as they are"); vs_observe("n", (int)p.size()); if (p.size() > 1) vs_reach("many");
    Seq r = w.transform(s); CHECK(r.size() == e.size(), "one code per word"); std::string cat; for (auto &x : e) cat += x; CHECK(seq_s(w.decode(r), cat), "decoding gives the words");
  } else {
    Strs in; for (int k = 0; k < pad; k++) in.push_back(k % 5 == 3 ? "same " + std::to_string(100 + k % 40) : k % 11 == 9 ? in[(size_t)k / 2] : noise(k % 7, (unsigned)k)); for (int k = 1; k < pad; k += 10) { in.push_back("equal length " + std::to_string(100 + k % 800)); in.push_back("equal length " + std::to_string(101 + k % 800)); } for (int k = 0; k < K; k++) { int l = vs_in_choose("l", 0, L); in.push_back(text("c", l)); }
    std::shared_ptr<BaseTokenizer> u; if (kind == 0) u.reset(new CharTokenizer()); else u.reset(new WordTokenizer());
    Seqs a = t->transform(in), b; for (auto &s : in) b.push_back(u->transform(s));
    CHECK(a.size() == in.size(), "one result per text"); for (size_t i = 0; i < a.size() && i < b.size(); i++) CHECK(eq(a[i], b[i]), "a batch is tokenised like its texts one by one");
    Strs x = t->decode(a); CHECK(x.size() == a.size(), "one text per sequence"); for (size_t i = 0; i < x.size() && i < b.size(); i++) CHECK(seq_s(x[i], u->decode(b[i])), "a batch is decoded like its sequences one by one");
  }
  vs_reach("end");
}
