#include "expr.h"
ExprPool POOL;

u64 foldBin(K k, unsigned w, u64 x, u64 y, bool &ok) {
  ok = true; x &= maskw(w); y &= maskw(w);
  switch (k) {
    case K_ADD: return (x + y) & maskw(w);
    case K_SUB: return (x - y) & maskw(w);
    case K_MUL: return (x * y) & maskw(w);
    case K_UDIV: if (!y) { ok = false; return 0; } return x / y;
    case K_UREM: if (!y) { ok = false; return 0; } return x % y;
    case K_SDIV: if (!y || (sxt(x, w) == INT64_MIN && sxt(y, w) == -1)) { ok = false; return 0; } return (u64)(sxt(x, w) / sxt(y, w)) & maskw(w);
    case K_SREM: if (!y || (sxt(x, w) == INT64_MIN && sxt(y, w) == -1)) { ok = false; return 0; } return (u64)(sxt(x, w) % sxt(y, w)) & maskw(w);
    case K_AND: return x & y;
    case K_OR: return x | y;
    case K_XOR: return x ^ y;
    case K_SHL: return y >= w ? 0 : (x << y) & maskw(w);
    case K_LSHR: return y >= w ? 0 : x >> y;
    case K_ASHR: return y >= w ? (sxt(x, w) < 0 ? maskw(w) : 0) : (u64)(sxt(x, w) >> y) & maskw(w);
    default: ok = false; return 0;
  }
}

static bool isNot(Expr *e) { return e->k == K_XOR && e->w == 1 && isC(e->b); }

Expr *mkNot(Expr *a) {
  assert(a->w == 1);
  if (isC(a)) return mkC(1, !a->c);
  if (isNot(a)) return a->a;
  return mk3(K_XOR, 1, a, mkC(1, 1));
}

Expr *mkBin(K k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; u64 r = foldBin(k, w, a->c, b->c, ok); if (ok) return mkC(w, r); }
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b)) {
    u64 c = b->c;
    if (a->k == K_ITE && !a->fp && isC(a->b) && isC(a->d) && !(c == 0 && (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM)) && w > 1)
      return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->d, b));
    switch (k) {
      case K_ADD:
        if (!c) return a;
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkC(w, a->b->c + c));
        break;
      case K_SUB: return mkBin(K_ADD, a, mkC(w, -c));
      case K_MUL: if (!c) return b; if (c == 1) return a;
        break;
      case K_AND: if (!c) return b; if (c == maskw(w)) return a;
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkC(w, a->b->c & c));
        if (a->k == K_ZEXT && a->a->w < 64 && c == maskw(a->a->w)) return a;
        break;
      case K_OR: if (!c) return a; if (c == maskw(w)) return b; break;
      case K_XOR: if (!c) return a; if (w == 1) return mkNot(a); break;
      case K_SHL: case K_LSHR: case K_ASHR: if (!c) return a;
        if (k == K_LSHR && c < w && a->k == K_CONCAT && a->b->w == c) return mkZext(a->a, w);
        break;
      case K_UDIV: case K_SDIV: if (c == 1) return a; break;
      case K_UREM: case K_SREM: if (c == 1) return mkC(w, 0); break;
      default: break;
    }
  }
  if (a == b) {
    if (k == K_SUB || k == K_XOR) return mkC(w, 0);
    if (k == K_AND || k == K_OR) return a;
  }
  if (w == 1 && (k == K_AND || k == K_OR)) {
    if (mkNot(a) == b) return mkC(1, k == K_OR);
    if (a->id > b->id) std::swap(a, b);
  } else if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  if (w == 1 && k == K_ADD) return mkBin(K_XOR, a, b);
  return mk3(k, w, a, b);
}

Expr *mkEq(Expr *a, Expr *b) {
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(1, a->c == b->c);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->w == 1) return b->c ? a : mkNot(a);
    if (a->k == K_ADD && isC(a->b)) return mkEq(a->a, mkC(a->w, b->c - a->b->c));
    if (a->k == K_SUB && b->c == 0) return mkEq(a->a, a->b);
    if (a->k == K_XOR && b->c == 0) return mkEq(a->a, a->b);
    if (a->k == K_ZEXT) { if (b->c & ~maskw(a->a->w)) return mkC(1, 0); return mkEq(a->a, mkC(a->a->w, b->c)); }
    if (a->k == K_SEXT) { u64 t = b->c & maskw(a->a->w); if (((u64)sxt(t, a->a->w) & maskw(a->w)) != b->c) return mkC(1, 0); return mkEq(a->a, mkC(a->a->w, t)); }
    if (a->k == K_CONCAT) {
      return mkBin(K_AND, mkEq(a->a, mkC(a->a->w, b->c >> a->b->w)), mkEq(a->b, mkC(a->b->w, b->c)));
    }
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) {
      bool x = a->b->c == b->c, y = a->d->c == b->c;
      if (x && y) return mkC(1, 1);
      if (!x && !y) return mkC(1, 0);
      return x ? a->a : mkNot(a->a);
    }
    if (a->k == K_ITE && (isC(a->b) || isC(a->d)))
      return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
    i64 lo, hi; rangeOf(a, lo, hi); i64 v = sxt(b->c, a->w);
    if (v < lo || v > hi) return mkC(1, 0);
  } else {
    if (a->w == 1) return mkNot(mkBin(K_XOR, a, b));
    if (a->k == b->k && (a->k == K_ZEXT || a->k == K_SEXT) && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk3(K_EQ, 1, a, b);
}

Expr *mkUlt(Expr *a, Expr *b) {
  if (a == b) return mkC(1, 0);
  if (isC(a) && isC(b)) return mkC(1, a->c < b->c);
  if (isC(b) && b->c == 0) return mkC(1, 0);
  if (isC(b) && b->c == 1) return mkEq(a, mkC(a->w, 0));
  if (isC(a) && a->c == maskw(a->w)) return mkC(1, 0);
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->k == K_ZEXT && isC(b)) { if (b->c > maskw(a->a->w)) return mkC(1, 1); return mkUlt(a->a, mkC(a->a->w, b->c)); }
  if (b->k == K_ZEXT && isC(a)) { if (a->c > maskw(b->a->w)) return mkC(1, 0); return mkUlt(mkC(b->a->w, a->c), b->a); }
  if (a->w > 1) {
    i64 al, ah, bl, bh; rangeOf(a, al, ah); rangeOf(b, bl, bh);
    if (al >= 0 && bl >= 0) { if (ah < bl) return mkC(1, 1); if (al >= bh) return mkC(1, 0); }
  }
  return mk3(K_ULT, 1, a, b);
}
Expr *mkSlt(Expr *a, Expr *b) {
  if (a == b) return mkC(1, 0);
  if (isC(a) && isC(b)) return mkC(1, sxt(a->c, a->w) < sxt(b->c, b->w));
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  i64 al, ah, bl, bh; rangeOf(a, al, ah); rangeOf(b, bl, bh);
  if (ah < bl) return mkC(1, 1);
  if (al >= bh) return mkC(1, 0);
  if (a->k == K_SEXT && isC(b)) return mkSlt(a->a, mkC(a->a->w, b->c));  // in range by the interval test
  if (b->k == K_SEXT && isC(a)) return mkSlt(mkC(b->a->w, a->c), b->a);
  if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->d, b));
  if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->d));
  return mk3(K_SLT, 1, a, b);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->fp || b->fp) return mkFIte(c, a, b);
  if (isNot(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  return mk3(K_ITE, a->w, c, a, b);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(w, a->c);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  return mk3(K_ZEXT, w, a);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(w, (u64)sxt(a->c, a->w));
  if (a->k == K_SEXT) return mkSext(a->a, w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  i64 lo, hi; rangeOf(a, lo, hi);
  if (lo >= 0 && a->w > 1) return mkZext(a, w);
  return mk3(K_SEXT, w, a);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(w, a->c >> lo);
  if (a->k == K_EXTRACT) return mkExtract(a->a, lo + (unsigned)a->c, w);
  if (a->k == K_ZEXT || a->k == K_SEXT) {
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo == 0 && w > a->a->w) return a->k == K_ZEXT ? mkZext(a->a, w) : mkSext(a->a, w);
    if (a->k == K_ZEXT && lo >= a->a->w) return mkC(w, 0);
  }
  if (a->k == K_CONCAT) {
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    if (lo == 0) return mkConcat(mkExtract(a->a, 0, w - a->b->w), a->b);
  }
  if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
  if (lo == 0 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL || a->k == K_AND || a->k == K_OR || a->k == K_XOR))
    return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if (lo == 0 && w == 1 && a->k == K_ITE) return mkIte(a->a, mkExtract(a->b, 0, 1), mkExtract(a->d, 0, 1));
  return mk3(K_EXTRACT, w, a, nullptr, nullptr, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkC(w, (hi->c << lo->w) | lo->c);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, (unsigned)lo->c, w);
  return mk3(K_CONCAT, w, hi, lo);
}

void rangeOf(Expr *e, i64 &lo, i64 &hi) {
  unsigned w = e->w;
  i64 mn = w >= 64 ? INT64_MIN : -(1LL << (w - 1)), mx = w >= 64 ? INT64_MAX : (1LL << (w - 1)) - 1;
  switch (e->k) {
    case K_CONST: lo = hi = sxt(e->c, w); return;
    case K_VAR: if (e->ranged) { lo = e->rlo; hi = e->rhi; return; } break;
    case K_ZEXT: { i64 l, h; rangeOf(e->a, l, h); if (l >= 0 && e->a->w > 1) { lo = l; hi = h; } else { lo = 0; hi = (i64)maskw(e->a->w); } return; }
    case K_SEXT: rangeOf(e->a, lo, hi); return;
    case K_ADD: if (isC(e->b)) { i64 l, h; rangeOf(e->a, l, h); i64 c = sxt(e->b->c, w); __int128 L = (__int128)l + c, H = (__int128)h + c; if (L >= mn && H <= mx) { lo = (i64)L; hi = (i64)H; return; } }
      else { i64 l, h, l2, h2; rangeOf(e->a, l, h); rangeOf(e->b, l2, h2); __int128 L = (__int128)l + l2, H = (__int128)h + h2; if (L >= mn && H <= mx) { lo = (i64)L; hi = (i64)H; return; } }
      break;
    case K_ITE: { i64 l, h, l2, h2; rangeOf(e->b, l, h); rangeOf(e->d, l2, h2); lo = std::min(l, l2); hi = std::max(h, h2); return; }
    case K_UREM: case K_SREM: if (isC(e->b)) { i64 c = sxt(e->b->c, w); if (c > 0) { i64 l, h; rangeOf(e->a, l, h); if (l >= 0) { lo = 0; hi = std::min(h, c - 1); return; } if (e->k == K_SREM) { lo = -(c - 1); hi = c - 1; return; } } } break;
    case K_AND: if (isC(e->b) && sxt(e->b->c, w) >= 0) { lo = 0; hi = sxt(e->b->c, w); return; } break;
    case K_EXTRACT: if (e->c == 0) { i64 l, h; rangeOf(e->a, l, h); if (l >= mn && h <= mx) { lo = l; hi = h; return; } } break;
    default: break;
  }
  lo = mn; hi = mx;
}


// ---------------- evaluation on a concrete assignment ----------------
u64 evalE(Expr *e, const std::unordered_map<u64, u64> &m) {
  switch (e->k) {
    case K_CONST: case K_FCONST: return e->c;
    case K_VAR: { auto it = m.find(e->c); if (it != m.end()) return it->second & maskw(e->w); if (e->ranged && (e->rlo > 0 || e->rhi < 0)) return (u64)e->rlo & maskw(e->w); return 0; }
    case K_EQ: return evalE(e->a, m) == evalE(e->b, m);
    case K_ULT: return evalE(e->a, m) < evalE(e->b, m);
    case K_SLT: return sxt(evalE(e->a, m), e->a->w) < sxt(evalE(e->b, m), e->b->w);
    case K_ITE: return evalE(e->a, m) ? evalE(e->b, m) : evalE(e->d, m);
    case K_ZEXT: return evalE(e->a, m);
    case K_SEXT: return (u64)sxt(evalE(e->a, m), e->a->w) & maskw(e->w);
    case K_EXTRACT: return (evalE(e->a, m) >> e->c) & maskw(e->w);
    case K_CONCAT: return (evalE(e->a, m) << e->b->w) | evalE(e->b, m);
    case K_FBITS: return evalE(e->a, m);
    case K_FTAB: { size_t ix = 0; for (Expr *v : *e->fv) { i64 lo, hi; rangeOf(v, lo, hi); i64 x = sxt(evalE(v, m), v->w); if (x < lo) x = lo; if (x > hi) x = hi; ix = ix * (size_t)(hi - lo + 1) + (size_t)(x - lo); } return d2b((*e->tab)[ix]); }
    case K_FVAR: return 0;
    default: {
      bool ok; u64 x = evalE(e->a, m), y = evalE(e->b, m); u64 r = foldBin(e->k, e->w, x, y, ok);
      if (!ok) { // SMT-LIB semantics of division by zero (guarded by an earlier check)
        if (e->k == K_UDIV) return maskw(e->w);
        if (e->k == K_UREM || e->k == K_SREM) return x;
        if (e->k == K_SDIV) return sxt(x, e->w) < 0 ? 1 : maskw(e->w);
        return 0;
      }
      return r; }
  }
}
// ---------------- doubles ----------------
// A double that depends on the inputs is kept as the exact table of its IEEE
// values over the (small, finite) domain of the integer variables it depends on;
// a comparison of two such doubles becomes a formula over those variables.  No
// rounding is abstracted.  What does not fit a table is an opaque unknown
// (K_FVAR), and every branch on it is free.
static const size_t TABMAX = 20000;
typedef std::vector<Expr *> Vars;
static size_t dom(Expr *v) { i64 lo, hi; rangeOf(v, lo, hi); return (u64)hi - (u64)lo >= TABMAX ? TABMAX + 1 : (size_t)(hi - lo + 1); }
static bool support(Expr *e, Vars &vs, std::unordered_set<Expr *> &seen) {
  if (!e || !seen.insert(e).second) return true;
  if (e->k == K_FVAR || e->k == K_FBITS) return false;
  if (e->k == K_VAR) { if (e->w > 1 && (!e->ranged || dom(e) > TABMAX)) return false; if (e->w == 1) return false; vs.push_back(e); return true; }
  if (e->k == K_FTAB) { for (Expr *v : *e->fv) if (seen.insert(v).second) vs.push_back(v); return true; }
  return support(e->a, vs, seen) && support(e->b, vs, seen) && support(e->d, vs, seen);
}
static bool domainOf(Vars &vs, std::vector<size_t> &dm, size_t &n) {
  std::sort(vs.begin(), vs.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
  n = 1; dm.clear(); for (Expr *v : vs) { size_t k = dom(v); n *= k; dm.push_back(k); if (n > TABMAX) return false; }
  return true;
}
Expr *mkF(double d) { Expr t{}; t.k = K_FCONST; t.w = 64; t.c = d2b(d); return POOL.intern(t); }
static u64 UNKID = 1;
static Expr *mkUnk() { Expr t{}; t.k = K_FVAR; t.w = 64; t.c = (0x7ULL << 40) + UNKID++; return POOL.intern(t); }
Expr *mkFVar(u64 key) { Expr t{}; t.k = K_FVAR; t.w = 64; t.c = key; return POOL.intern(t); }
static Expr *mkTab(const Vars &vs0, const std::vector<size_t> &dm0, const std::vector<double> &v0) {
  // drop variables the table does not depend on
  Vars vs = vs0; std::vector<size_t> dm = dm0; std::vector<double> v = v0;
  for (size_t i = 0; i < vs.size();) {
    size_t in = 1; for (size_t j = i + 1; j < vs.size(); j++) in *= dm[j];
    size_t k = dm[i], out = v.size() / (in * k); bool dep = false;
    for (size_t o = 0; o < out && !dep; o++) for (size_t q = 1; q < k && !dep; q++) if (memcmp(&v[(o * k) * in], &v[(o * k + q) * in], in * sizeof(double))) dep = true;
    if (dep) { i++; continue; }
    std::vector<double> w; w.reserve(out * in); for (size_t o = 0; o < out; o++) w.insert(w.end(), v.begin() + (long)(o * k * in), v.begin() + (long)(o * k * in + in));
    v.swap(w); vs.erase(vs.begin() + (long)i); dm.erase(dm.begin() + (long)i);
  }
  if (vs.empty()) return mkF(v[0]);
  Expr t{}; t.k = K_FTAB; t.w = 64; t.tab = new std::vector<double>(v); t.fv = new Vars(vs); t.c = vs.size(); for (Expr *x : vs) t.c = t.c * 1000003 + x->id;
  Expr *r = POOL.intern(t); if (r->tab != t.tab) { delete t.tab; delete t.fv; } return r;
}
// apply f to every assignment of the joint support of the operands
template <class F> static bool tabulate(std::initializer_list<Expr *> es, Vars &vs, std::vector<size_t> &dm, F f) {
  std::unordered_set<Expr *> seen; for (Expr *e : es) if (!support(e, vs, seen)) return false;
  size_t n; if (!domainOf(vs, dm, n)) return false;
  std::unordered_map<u64, u64> m; std::vector<i64> lo(vs.size()); for (size_t i = 0; i < vs.size(); i++) { i64 hi; rangeOf(vs[i], lo[i], hi); }
  for (size_t ix = 0; ix < n; ix++) { size_t t = ix; for (size_t i = vs.size(); i-- > 0;) { m[vs[i]->c] = (u64)(lo[i] + (i64)(t % dm[i])); t /= dm[i]; } f(m); }
  return true;
}
template <class F> static Expr *fop(Expr *a, Expr *b, F f) {
  Vars vs; std::vector<size_t> dm; std::vector<double> out;
  if (!tabulate({a, b}, vs, dm, [&](const std::unordered_map<u64, u64> &m) { out.push_back(f(b2d(evalE(a, m)), b ? b2d(evalE(b, m)) : 0.0)); })) return mkUnk();
  return mkTab(vs, dm, out);
}
Expr *mkFromInt(Expr *e, bool sign) {
  if (isC(e)) return mkF(sign ? (double)sxt(e->c, e->w) : (double)e->c);
  Vars vs; std::vector<size_t> dm; std::vector<double> out;
  if (!tabulate({e}, vs, dm, [&](const std::unordered_map<u64, u64> &m) { u64 x = evalE(e, m); out.push_back(sign ? (double)sxt(x, e->w) : (double)x); })) return mkUnk();
  return mkTab(vs, dm, out);
}
Expr *mkFAdd(Expr *a, Expr *b) { return fop(a, b, [](double x, double y) { return x + y; }); }
Expr *mkFSub(Expr *a, Expr *b) { return fop(a, b, [](double x, double y) { return x - y; }); }
Expr *mkFMul(Expr *a, Expr *b) { return fop(a, b, [](double x, double y) { return x * y; }); }
Expr *mkFDiv(Expr *a, Expr *b) { return fop(a, b, [](double x, double y) { return x / y; }); }
Expr *mkFNeg(Expr *a) { return fop(a, nullptr, [](double x, double) { return -x; }); }
Expr *mkFun(Expr *a, double (*f)(double)) { return fop(a, nullptr, [f](double x, double) { return f(x); }); }
Expr *mkFun2(Expr *a, Expr *b, double (*f)(double, double)) { return fop(a, b, [f](double x, double y) { return f(x, y); }); }
Expr *mkFIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  Vars vs; std::vector<size_t> dm; std::vector<double> out;
  if (!tabulate({c, a, b}, vs, dm, [&](const std::unordered_map<u64, u64> &m) { out.push_back(b2d(evalE(c, m) ? evalE(a, m) : evalE(b, m))); })) return mkUnk();
  return mkTab(vs, dm, out);
}
// the integer / boolean function given by a table, as nested comparisons with constants
static Expr *fromTable(const Vars &vs, const std::vector<size_t> &dm, const std::vector<u64> &v, unsigned w, size_t i, size_t off, size_t len) {
  bool same = true; for (size_t j = 1; j < len && same; j++) same = v[off + j] == v[off];
  if (same) return mkC(w, v[off]);
  size_t sub = len / dm[i]; i64 lo, hi; rangeOf(vs[i], lo, hi); Expr *r = nullptr;
  for (size_t q = dm[i]; q-- > 0;) { Expr *x = fromTable(vs, dm, v, w, i + 1, off + q * sub, sub); r = r ? mkIte(mkSlt(vs[i], mkC(vs[i]->w, (u64)(lo + (i64)q + 1))), x, r) : x; }
  return r;
}
Expr *mkFCmpP(Expr *a, Expr *b, bool (*f)(unsigned, double, double), unsigned pred) {
  Vars vs; std::vector<size_t> dm; std::vector<u64> out;
  if (!tabulate({a, b}, vs, dm, [&](const std::unordered_map<u64, u64> &m) { out.push_back(f(pred, b2d(evalE(a, m)), b2d(evalE(b, m)))); })) return nullptr;
  return fromTable(vs, dm, out, 1, 0, 0, out.size());
}
Expr *mkFToInt(Expr *a, unsigned w, bool sign) {
  Vars vs; std::vector<size_t> dm; std::vector<u64> out;
  if (!tabulate({a}, vs, dm, [&](const std::unordered_map<u64, u64> &m) { double d = b2d(evalE(a, m)); out.push_back((sign ? (u64)(i64)d : (u64)d) & maskw(w)); })) return nullptr;
  return fromTable(vs, dm, out, w, 0, 0, out.size());
}
