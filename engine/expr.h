// Hash-consed symbolic expressions (bit-vectors up to 64 bits, plus doubles
// abstracted as reals) and their translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <functional>
#include <cassert>
#include <limits>
#include <algorithm>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum K : u8 {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  K_FBITS,   // integer view of a symbolic double
  // ---- doubles: constant, exact table over small integer variables, unknown ----
  K_FCONST, K_FTAB, K_FVAR
};

struct Expr {
  K k; u8 w; bool hasfp; bool fp;      // fp: this node is a double
  u32 id; u64 c;                       // c: constant / extract low bit / var id
  Expr *a = nullptr, *b = nullptr, *d = nullptr;
  u64 h;
  // variables
  i64 rlo = 0, rhi = 0; bool ranged = false; std::string *name = nullptr;
  // doubles
  std::vector<double> *tab = nullptr; std::vector<Expr *> *fv = nullptr;
  Z3_ast z[2] = {nullptr, nullptr}; u8 io = 0;  // per encoding (bit-vectors, integers); io: 1 integer-encodable, 2 not
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sxt(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static inline double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }

struct ExprPool {
  struct H { size_t operator()(const Expr *e) const { return e->h; } };
  struct Q { bool operator()(const Expr *x, const Expr *y) const {
      if (x->k != y->k || x->w != y->w || x->c != y->c || x->a != y->a || x->b != y->b || x->d != y->d) return false;
      if ((x->tab == nullptr) != (y->tab == nullptr)) return false;
      if (x->tab && (*x->fv != *y->fv || x->tab->size() != y->tab->size() || memcmp(x->tab->data(), y->tab->data(), 8 * x->tab->size()))) return false;
      return true; } };
  std::unordered_set<Expr *, H, Q> set;
  u32 next = 1;
  std::vector<Expr *> vars;
  Expr *intern(const Expr &t0) {
    Expr t = t0;
    u64 h = t.k * 0x9e3779b97f4a7c15ULL;
    auto mix = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
    mix(t.w); mix(t.c); mix(t.a ? t.a->id : 0); mix(t.b ? t.b->id : 0); mix(t.d ? t.d->id : 0);
    if (t.tab) for (double x : *t.tab) mix(d2b(x));
    t.h = h;
    auto it = set.find(&t);
    if (it != set.end()) return *it;
    Expr *n = new Expr(t);
    n->id = next++;
    n->fp = n->k >= K_FCONST;
    n->hasfp = n->fp || n->k == K_FBITS || (n->a && n->a->hasfp) || (n->b && n->b->hasfp) || (n->d && n->d->hasfp);
    set.insert(n);
    return n;
  }
};
extern ExprPool POOL;

static inline Expr *mkC(unsigned w, u64 c) { Expr t{}; t.k = K_CONST; t.w = w; t.c = c & maskw(w); return POOL.intern(t); }
static inline bool isC(Expr *e) { return e->k == K_CONST; }
static inline Expr *mk3(K k, unsigned w, Expr *a, Expr *b = nullptr, Expr *d = nullptr, u64 c = 0) { Expr t{}; t.k = k; t.w = w; t.a = a; t.b = b; t.d = d; t.c = c; return POOL.intern(t); }

u64 foldBin(K k, unsigned w, u64 x, u64 y, bool &ok);
Expr *mkBin(K k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkUlt(Expr *a, Expr *b);
Expr *mkSlt(Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
void rangeOf(Expr *e, i64 &lo, i64 &hi);   // signed interval
u64 evalE(Expr *e, const std::unordered_map<u64, u64> &m);
// doubles
Expr *mkF(double d);
Expr *mkFVar(u64 key);
Expr *mkFromInt(Expr *e, bool sign);
Expr *mkFAdd(Expr *a, Expr *b);
Expr *mkFSub(Expr *a, Expr *b);
Expr *mkFNeg(Expr *a);
Expr *mkFMul(Expr *a, Expr *b);
Expr *mkFDiv(Expr *a, Expr *b);
Expr *mkFun(Expr *a, double (*f)(double));
Expr *mkFun2(Expr *a, Expr *b, double (*f)(double, double));
Expr *mkFIte(Expr *c, Expr *a, Expr *b);
Expr *mkFCmpP(Expr *a, Expr *b, bool (*f)(unsigned, double, double), unsigned pred);   // null: unknown
Expr *mkFToInt(Expr *a, unsigned w, bool sign);                                        // null: unknown
