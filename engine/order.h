// A decision procedure for the order constraints that dominate this code base
// (x<y, x==y, x!=y, comparisons with constants): difference-bound matrices over
// mathematical integers with the variables' machine ranges.  It only ever answers
// UNSAT from a subset of the path condition, and SAT with a model that satisfies
// the whole of it; everything else goes to Z3.
#pragma once
#include "expr.h"

struct Ord {
  struct Lin { int n; i64 off; };
  struct Ne { int i, j; i64 c; };          // v_i - v_j != c
  std::vector<Expr *> v{nullptr};          // node 0 is the constant zero
  std::vector<i64> d{0}; int cap = 1;      // d[i*cap+j]: v_i - v_j <= d
  std::vector<Ne> ne; bool bad = false;
  i64 &D(int i, int j) { return d[(size_t)i * cap + j]; }
  int n() const { return (int)v.size(); }
  static bool baseRange(Expr *e, i64 &lo, i64 &hi) {
    if (e->k != K_VAR) return false;
    if (e->w > 32 && !e->ranged) return false;
    rangeOf(e, lo, hi);
    return lo > -(1LL << 40) && hi < (1LL << 40);
  }
  int node(Expr *e) {
    for (int i = 1; i < n(); i++) if (v[i] == e) return i;
    i64 lo, hi; if (!baseRange(e, lo, hi)) return -1;
    if (e->w == 1) return -1;
    int k = n(); v.push_back(e);
    if (k >= cap) { int nc = cap * 2 + 4; std::vector<i64> t((size_t)nc * nc, 0); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) t[(size_t)i * nc + j] = D(i, j); d.swap(t); cap = nc; }
    for (int i = 0; i < k; i++) { D(k, i) = hi + D(0, i); D(i, k) = D(i, 0) - lo; }
    D(k, 0) = hi; D(0, k) = -lo; D(k, k) = 0;
    return k;
  }
  // signed value of e as node + offset, if that is exact
  bool lin(Expr *e, Lin &r) {
    switch (e->k) {
      case K_CONST: r = {0, sxt(e->c, e->w)}; return r.off > -(1LL << 40) && r.off < (1LL << 40);
      case K_VAR: { int k = node(e); if (k < 0) return false; r = {k, 0}; return true; }
      case K_SEXT: return lin(e->a, r);
      case K_ZEXT: if (!lin(e->a, r)) return false; return lo(r) >= 0;
      case K_EXTRACT: { if (e->c != 0 || !lin(e->a, r)) return false; return fits(r, e->w); }
      case K_ADD: { if (!isC(e->b) || !lin(e->a, r)) return false; i64 c = sxt(e->b->c, e->w); if (c < -(1LL << 40) || c > (1LL << 40)) return false; r.off += c; return fits(r, e->w); }
      default: return false;
    }
  }
  i64 lo(const Lin &l) { return -D(0, l.n) + l.off; }
  i64 hi(const Lin &l) { return D(l.n, 0) + l.off; }
  bool fits(const Lin &l, unsigned w) { if (w >= 64) return true; return lo(l) >= -(1LL << (w - 1)) && hi(l) < (1LL << (w - 1)); }
  void le(int i, int j, i64 c) { // v_i - v_j <= c
    if (bad || c >= D(i, j)) return;
    if (i == j) { if (c < 0) bad = true; return; }
    if (D(j, i) + c < 0) { bad = true; return; }
    int N = n();
    for (int a = 0; a < N; a++) { i64 t = D(a, i) + c; for (int b = 0; b < N; b++) { i64 q = t + D(j, b); if (q < D(a, b)) D(a, b) = q; } }
    D(i, j) = std::min(D(i, j), c);
  }
  void fixNe() {
    bool ch = true;
    while (ch && !bad) { ch = false;
      for (auto &x : ne) { if (D(x.i, x.j) == x.c) { le(x.i, x.j, x.c - 1); ch = true; if (bad) return; } if (D(x.j, x.i) == -x.c) { le(x.j, x.i, -x.c - 1); ch = true; if (bad) return; } } }
  }
  void less(const Lin &a, const Lin &b) { le(a.n, b.n, b.off - a.off - 1); }     // a < b
  void leq(const Lin &a, const Lin &b) { le(a.n, b.n, b.off - a.off); }
  static bool isNotE(Expr *e) { return e->k == K_XOR && e->w == 1 && isC(e->b); }
  // add a literal; returns false if it could not be captured (ignored: sound for UNSAT)
  bool add(Expr *e) { bool r = add0(e); if (!bad && !ne.empty()) fixNe(); return r; }
  bool add0(Expr *e) {
    if (bad) return true;
    if (isC(e)) { if (!e->c) bad = true; return true; }
    bool neg = false; if (isNotE(e)) { neg = true; e = e->a; }
    if (e->w != 1 || e->hasfp) return false;
    if (e->k == K_AND && !neg) { bool x = add0(e->a); return add0(e->b) && x; }
    if (e->k == K_OR && neg) { bool x = add0(mkNot(e->a)); return add0(mkNot(e->b)) && x; }
    Lin a, b;
    if (e->k == K_SLT) { if (!lin(e->a, a) || !lin(e->b, b)) return false; if (neg) leq(b, a); else less(a, b); return true; }
    if (e->k == K_EQ) {
      if (e->a->w == 1 || !lin(e->a, a) || !lin(e->b, b)) return false;
      if (!neg) { leq(a, b); leq(b, a); } else { if (a.n == b.n) { if (a.off == b.off) bad = true; } else ne.push_back({a.n, b.n, b.off - a.off}); }
      return true;
    }
    if (e->k == K_ULT) {
      if (!lin(e->a, a) || !lin(e->b, b)) return false;
      if (lo(a) >= 0 && lo(b) >= 0) { if (neg) leq(b, a); else less(a, b); return true; }
      if (lo(b) >= 0 && !neg) { Lin z{0, 0}; leq(z, a); less(a, b); return true; }
      return false;
    }
    return false;
  }
  // greedy model; may fail
  bool model(std::unordered_map<u64, u64> &m, const std::unordered_map<u64, u64> *hint) {
    if (bad) return false;
    Ord o = *this; int N = o.n();
    std::vector<int> idx; for (int i = 1; i < N; i++) idx.push_back(i);
    std::sort(idx.begin(), idx.end(), [&](int a, int b) { i64 x = o.D(a, 0) + o.D(0, a), y = o.D(b, 0) + o.D(0, b); return x < y || (x == y && a < b); });
    for (int k : idx) {
      i64 lo = -o.D(0, k), hi = o.D(k, 0); i64 val = lo; bool ok = false;
      std::vector<i64> cand; if (hint) { auto it = hint->find(o.v[k]->c); if (it != hint->end()) cand.push_back(sxt(it->second, o.v[k]->w)); }
      i64 mid = lo + (hi - lo) / 2; if (lo <= 0 && 0 <= hi) cand.push_back(k % 7 <= hi ? k % 7 : 0);
      cand.push_back(mid); for (int t = 0; t < 6; t++) { cand.push_back(mid + 17 * t + k); cand.push_back(lo + t); cand.push_back(hi - t); }
      for (i64 c : cand) {
        if (c < lo || c > hi) continue; bool clash = false;
        for (auto &x : o.ne) { int other = x.i == k ? x.j : x.j == k ? x.i : -1; if (other < 0) continue; i64 ol = -o.D(0, other), oh = o.D(other, 0); if (ol != oh) continue; i64 diff = x.i == k ? c - ol : ol - c; if (diff == x.c) { clash = true; break; } }
        if (clash) continue;
        val = c; ok = true; break;
      }
      if (!ok) return false;
      o.le(k, 0, val); o.le(0, k, -val); if (!o.ne.empty()) o.fixNe(); if (o.bad) return false;
      m[o.v[k]->c] = (u64)val & maskw(o.v[k]->w);
    }
    return true;
  }
};
