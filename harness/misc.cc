// 34 rendering of sequences, 35 generic encoder, 36 hash of sequences, 09 copies of dictionaries, 05/06 construction
// params: 0 which, 1.. sizes
#include "common.h"
#include "int_dict_p.h"
#include "list_dict.h"
#include "vector_hash.h"
#include <ostream>
#include <unordered_map>
static std::string num(int v) { long long x = v; bool neg = x < 0; if (neg) x = -x; std::string r; do { r.insert(r.begin(), (char)('0' + x % 10)); x /= 10; } while (x); if (neg) r.insert(r.begin(), '-'); return r; }
static int pick() { int c = vs_in_choose("c", 0, 6); static const int v[7] = {0, 7, -3, 10, 123456, 2147483647, (-2147483647 - 1)}; return v[c]; }
static bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
extern "C" void vs_main() {
  int which = vs_param(0, 34), n = vs_param(1, 2), L = vs_param(2, 2), mode = vs_param(3, 0);
  if (which == 34) {
    Seq s; std::string e = "("; int pad = vs_param(4, 0); for (int i = 0; i < n + pad; i++) { int v = i >= n ? (int)((unsigned)i * 2654435761u) >> (i % 32) : mode ? vs_in_range("v", -12, 112) : pick(); s.push_back(v); if (i) e += " "; e += mode ? std::string() : num(v); } e += ")";
    std::string t = to_string(s); std::ostream &o = vs_ostream(); o << s; std::string u = vs_ostream_text();
    CHECK(same(t, u), "both renderings agree");
    if (!mode) CHECK(same(t, e), "a sequence is rendered as (a b c)");
    else { // parse it back
      size_t p = 0; CHECK(t.size() >= 2 && t[0] == '(', "a sequence is rendered as (a b c)"); p = 1;
      for (int i = 0; i < n; i++) { bool neg = t[p] == '-'; if (neg) p++; int x = 0, dg = 0; while (p < t.size() && t[p] >= '0' && t[p] <= '9') { x = x * 10 + (t[p] - '0'); p++; dg++; } CHECK(dg > 0, "numbers have digits"); CHECK((neg ? -x : x) == s[(size_t)i], "numbers read back"); if (i + 1 < n) { CHECK(t[p] == ' ', "numbers are separated by one space"); p++; } }
      CHECK(p + 1 == t.size() && t[p] == ')', "the rendering ends with )");
    }
    vs_observe("len", (int)t.size());
  } else if (which == 35) {
    Encoder<int> en; Seq order; CHECK(en.size() == 0, "a new encoder is empty"); int pad = vs_param(4, 0); std::unordered_map<int, int> where; bool big = pad > 3000; auto find = [&](int x) { if (big) { auto it = where.find(x); return it == where.end() ? order.size() : (size_t)it->second; } size_t j = 0; while (j < order.size() && order[j] != x) j++; return j; };
    if (pad) { Seq q, out; for (int i = 0; i < pad; i++) q.push_back(i % 4 == 3 ? q[(size_t)i / 2] : i * 7919 * (i % 2 ? -1 : 1)); en.encode(q, &out); CHECK((int)out.size() == pad, "one code per item is appended"); for (int i = 0; i < pad; i++) { size_t j = find(q[(size_t)i]); if (j == order.size()) { if (big) where[q[(size_t)i]] = (int)j; order.push_back(q[(size_t)i]); } CHECK(out[(size_t)i] == (int)j, "codes are dense and given in order of first appearance"); } CHECK(en.size() == (int)order.size(), "size counts the distinct items"); }
    for (int k = 0; k < n; k++) { Seq q = big ? Seq() : in_seq_any("q", L), out; if (big) for (int i = 0; i < L; i++) { int c = vs_in_choose("c", 0, 3); q.push_back(c == 3 ? 123456789 : order[(order.size() - 1) / 2 * (size_t)c]); } out.push_back(-7); en.encode(q, &out); CHECK((int)out.size() == L + 1 && out[0] == -7, "one code per item is appended");
      for (int i = 0; i < L; i++) { size_t j = find(q[(size_t)i]); if (j == order.size()) { if (big) where[q[(size_t)i]] = (int)j; order.push_back(q[(size_t)i]); } CHECK(out[(size_t)i + 1] == (int)j, "codes are dense and given in order of first appearance"); } CHECK(en.size() == (int)order.size(), "size counts the distinct items"); }
    Encoder<std::string> es; std::vector<std::string> w; for (int i = 0; i < L; i++) { std::string x(1, (char)vs_in_range("ch", 'a', 'd')); w.push_back(x); } Seq out; es.encode(w, &out); CHECK((int)out.size() == L, "one code per item is appended"); for (int i = 0; i < L; i++) for (int j = 0; j < i; j++) CHECK(same(w[(size_t)i], w[(size_t)j]) == (out[(size_t)i] == out[(size_t)j]), "codes separate items");
  } else if (which == 36) {
    Seq a = in_seq_any("a", n), b; b.reserve(64); for (int i = 0; i < n; i++) b.push_back(vs_in_int("b")); VectorHash h; bool e = eq(a, b);
    if (e) { CHECK(h(a) == h(b), "equal sequences have equal hashes"); vs_reach("equal"); }
    Seq g = a; g.push_back(1); g.pop_back(); CHECK(h(g) == h(a), "a hash depends on the elements only");
    for (int x : a) CHECK(x == x, "");
  } else if (which == 9) {
    int pad = vs_param(4, 0); Seqs seqs = mode ? fixed_seqs(n, 3, 6, (unsigned)mode, mode % 2 == 1) : in_seqs_any("e", n, 2); ASSUME(all_distinct(seqs)); IntDictImpl a(seqs); Seq q = mode ? in_seq("q", L, -1, 4) : in_seq_any("q", L), o1, o2, o3; IntDict &A = a; if (pad) q = padded(q, pad, 5, 2, 3);
    int pre = vs_in_choose("pre", 0, 1); if (pre) { Seq t; A.parse(q, &t, nullptr); }
    IntDictImpl c(a); IntDict &C = c; CHECK(C.size() == A.size(), "a copy has the same entries"); for (int i = 0; i < A.size(); i++) { CHECK(eq(A.get(i), C.get(i)), "a copy has the same entries"); CHECK(A.parent(i) == C.parent(i), "a copy has the same parents"); }
    Seqs before = A.alphabet(); Seq q2 = mode ? in_seq("r", L, -2, 3) : in_seq_any("r", L); if (pad) q2 = padded(q2, pad, 4, 2, 9); C.parse(q2, &o1, nullptr); CHECK(A.size() == (int)before.size(), "a copy is independent of the original"); for (size_t i = 0; i < before.size(); i++) CHECK(eq(A.get((int)i), before[i]), "a copy is independent of the original");
    A.parse(q2, &o2, nullptr); CHECK(eq(o1, o2), "a copy parses like the original"); CHECK(A.size() == C.size(), "a copy grows like the original"); for (int i = 0; i < A.size(); i++) { CHECK(eq(A.get(i), C.get(i)), "a copy grows like the original"); CHECK(C.search(C.get(i)) == i, "entries of a copy are found"); }
  } else {
    Seqs seqs; if (mode == 0) seqs = in_seqs_any("e", n, L); else { seqs = fixed_seqs(n, 2 + mode % 2, L, (unsigned)mode, false); for (int i = 0; i < (n > 20000 ? 1 : 3); i++) { int len = 1 + (mode + i) % 3; seqs.insert(seqs.begin() + i * 2, in_seq("e", len, 0, 2)); } }
    if (n > 300) { Seqs t = seqs; std::sort(t.begin(), t.end()); for (size_t i = 1; i < t.size(); i++) ASSUME(!eq(t[i - 1], t[i])); } else ASSUME(all_distinct(seqs));
    IntDictImpl d(seqs); CHECK(d.size() == (int)seqs.size(), "one entry per sequence given");
    for (int i = 0; i + 1 < d.size(); i++) CHECK(lex_less(d.get(i), d.get(i + 1)), "entries are in lexicographic order");
    for (auto &s : seqs) { int i = d.search(s, nullptr); CHECK(i >= 0 && i < (int)seqs.size() && eq(d.get(i), s), "every sequence given is found"); }
    CHECK(d.size() == (int)seqs.size(), "looking up entries adds nothing"); const Seqs &al = d.alphabet(); CHECK(al.size() == seqs.size(), "the alphabet lists the entries"); for (int i = 0; i < d.size(); i++) CHECK(eq(al[(size_t)i], d.get(i)), "the alphabet lists the entries by id");
    if (which == 6) for (int i = 0; i < d.size(); i++) {
      int best = -1;
      if (n > 300) { const Seq &g = d.get(i); for (int l = (int)g.size() - 1; l > 0 && best < 0; l--) { Seq h(g.begin(), g.begin() + l); auto it = std::lower_bound(al.begin(), al.begin() + i, h); if (it != al.begin() + i && eq(*it, h)) best = (int)(it - al.begin()); } }
      else for (int j = 0; j < d.size(); j++) if (j != i && d.get(j).size() < d.get(i).size() && prefix_at(d.get(j), d.get(i), 0) && (best < 0 || d.get(j).size() > d.get(best).size())) best = j;
      CHECK(d.parent(i) == best, "a parent is the longest entry that is a proper prefix"); if (best >= 0) vs_reach("parent"); vs_observe("parent", d.parent(i));
    }
    if (which == 5 && mode == 0) { Seqs r(seqs.rbegin(), seqs.rend()); IntDictImpl f(r); CHECK(f.size() == d.size(), "the order given does not matter"); for (int i = 0; i < d.size(); i++) CHECK(eq(f.get(i), d.get(i)), "the order given does not matter");
      bool singles = true; for (auto &s : seqs) singles = singles && s.size() == 1; if (singles) { Seq fl; for (auto &s : seqs) fl.push_back(s[0]); IntDictImpl g(fl); CHECK(g.size() == d.size(), "symbols can be given directly"); for (int i = 0; i < d.size(); i++) CHECK(eq(g.get(i), d.get(i)), "symbols can be given directly"); } }
  }
  vs_reach("end");
}
