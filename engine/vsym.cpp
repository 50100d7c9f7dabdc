// vsym: a bounded symbolic executor for LLVM IR (C++ compiled by clang-18).
// Path-forking; symbolic bit-vectors decided by Z3; precise per-object memory
// with bounds/lifetime checking; C++ exceptions; doubles concrete or abstracted
// as reals with rounding slack.  See DESIGN.md.
#include "expr.h"
#include "order.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <csignal>
#include <sys/resource.h>
using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

[[noreturn]] static void die(const std::string &m) { fprintf(stderr, "vsym: fatal: %s\n", m.c_str()); exit(3); }
struct PathEnd { const char *why; };
static bool RUNNING = false; static std::map<std::string, u64> UNSUPPORTED;
// something outside the supported subset: the path is given up (and the run reported incomplete)
[[noreturn]] static void fatal(const std::string &m) { if (RUNNING) { UNSUPPORTED[m]++; throw PathEnd{"unsupported"}; } die(m); }

// ---------------------------------------------------------------- options
static struct Opt {
  std::string file, entry = "vs_main", out = "out.json", dumpsmt;
  double timeLimit = 600; u64 maxInst = 40000000; u64 maxPaths = ~0ULL; int splitK = 0, splitN = 1, splitD = 10;
  int maxViol = 3; std::vector<i64> params; int samples = 6; u64 maxObjs = 12000000; bool crosscheck = false; int trace = 0; unsigned seed = 1;
  std::string repo = "/repo/"; u32 randSym = 1u << 30; bool noOrder = false, stubHash = true, buckets = false, bvOnly = false; u64 xcheck = 97, finalEvery = 1;
} O;

// ---------------------------------------------------------------- Z3
// can e be read over mathematical integers exactly (no wrap-around, signed view)?
static bool intOK(Expr *e) {
  if (e->io) return e->io == 1;
  bool ok = false; auto all = [&]() { return (!e->a || intOK(e->a)) && (!e->b || intOK(e->b)) && (!e->d || intOK(e->d)); };
  i64 lo, hi;
  switch (e->k) {
    case K_CONST: ok = true; break;
    case K_VAR: ok = true; break;
    case K_AND: case K_OR: case K_XOR: ok = e->w == 1 && all(); break;
    case K_EQ: case K_SLT: case K_ITE: case K_SEXT: ok = all() && (e->k != K_SEXT || e->a->w > 1); break;
    case K_ULT: { i64 l2, h2; if (e->a->w == 1) break; rangeOf(e->a, lo, hi); rangeOf(e->b, l2, h2); ok = lo >= 0 && l2 >= 0 && all(); break; }
    case K_ZEXT: if (e->a->w == 1) { ok = intOK(e->a); break; } rangeOf(e->a, lo, hi); ok = lo >= 0 && all(); break;
    case K_ADD: { if (e->w == 1) break; i64 l, h, l2, h2; rangeOf(e->a, l, h); rangeOf(e->b, l2, h2); __int128 L = (__int128)l + l2, H = (__int128)h + h2; unsigned w = e->w; ok = w < 64 ? (L >= -(1LL << (w - 1)) && H < (1LL << (w - 1))) : (L > -(1LL << 62) && H < (1LL << 62)); ok = ok && all(); break; }
    default: break;
  }
  e->io = ok ? 1 : 2; return ok;
}
struct Z {
  bool ints = false; Z3_sort sInt;
  Z3_context c; Z3_solver s; Z3_sort sBool;
  std::vector<Expr *> stack;     // asserted literals, one scope each
  void init(bool in) { ints = in;
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { die(std::string("z3: ") + Z3_get_error_msg(c, e)); });
    sBool = Z3_mk_bool_sort(c); sInt = Z3_mk_int_sort(c);
    s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), 400000000);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "random_seed"), O.seed);
    Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
  }
  Z3_ast bv(Expr *e) { Z3_ast a = t(e); if (e->w == 1) { Z3_sort s1 = Z3_mk_bv_sort(c, 1); return Z3_mk_ite(c, a, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1)); } return a; }
  Z3_ast keep(Expr *e, Z3_ast a) { Z3_inc_ref(c, a); e->z[ints] = a; return a; }
  Z3_ast t(Expr *e) {
    if (e->z[ints]) return e->z[ints];
    Z3_ast r = nullptr; unsigned w = e->w;
    if (ints) switch (e->k) {
      case K_CONST: if (w > 1) return keep(e, Z3_mk_int64(c, sxt(e->c, w), sInt)); break;
      case K_VAR: if (w > 1) return keep(e, Z3_mk_const(c, Z3_mk_string_symbol(c, ("x" + std::to_string(e->c)).c_str()), sInt)); break;
      case K_SEXT: return keep(e, t(e->a));
      case K_ZEXT: return keep(e, e->a->w == 1 ? Z3_mk_ite(c, t(e->a), Z3_mk_int64(c, 1, sInt), Z3_mk_int64(c, 0, sInt)) : t(e->a));
      case K_ADD: { Z3_ast x[2] = {t(e->a), t(e->b)}; return keep(e, Z3_mk_add(c, 2, x)); }
      case K_SLT: case K_ULT: return keep(e, Z3_mk_lt(c, t(e->a), t(e->b)));
      default: break;
    }
    switch (e->k) {
      case K_CONST: r = w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, e->c, Z3_mk_bv_sort(c, w)); break;
      case K_VAR: { Z3_symbol sy = Z3_mk_string_symbol(c, ("x" + std::to_string(e->c)).c_str()); r = Z3_mk_const(c, sy, w == 1 ? sBool : Z3_mk_bv_sort(c, w)); break; }
      case K_ADD: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
      case K_SUB: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
      case K_MUL: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
      case K_SDIV: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
      case K_UREM: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
      case K_SREM: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
      case K_AND: if (w == 1) { Z3_ast x[2] = {t(e->a), t(e->b)}; r = Z3_mk_and(c, 2, x); } else r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break;
      case K_OR: if (w == 1) { Z3_ast x[2] = {t(e->a), t(e->b)}; r = Z3_mk_or(c, 2, x); } else r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break;
      case K_XOR: if (w == 1) { if (isC(e->b) && e->b->c) r = Z3_mk_not(c, t(e->a)); else r = Z3_mk_xor(c, t(e->a), t(e->b)); } else r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break;
      case K_SHL: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
      case K_LSHR: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
      case K_ASHR: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
      case K_EQ: r = Z3_mk_eq(c, t(e->a), t(e->b)); break;
      case K_ULT: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
      case K_SLT: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
      case K_ITE: r = Z3_mk_ite(c, t(e->a), t(e->b), t(e->d)); break;
      case K_ZEXT: r = Z3_mk_zero_ext(c, w - e->a->w, bv(e->a)); break;
      case K_SEXT: r = Z3_mk_sign_ext(c, w - e->a->w, bv(e->a)); break;
      case K_EXTRACT: r = Z3_mk_extract(c, (unsigned)e->c + w - 1, (unsigned)e->c, bv(e->a));
        if (w == 1) r = Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); break;
      case K_CONCAT: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
      case K_FBITS: { Z3_symbol sy = Z3_mk_string_symbol(c, ("fb" + std::to_string(e->id)).c_str()); r = Z3_mk_const(c, sy, Z3_mk_bv_sort(c, 64)); break; }
      default: fatal("a double reached the solver");
    }
    return keep(e, r);
  }
  std::unordered_set<u32> ranged; std::vector<std::vector<u32>> rstack;
  void rangeAx(Expr *e) {
    static std::unordered_set<Expr *> seen; std::function<void(Expr *)> go = [&](Expr *x) {
      if (!x || !seen.insert(x).second) return;
      if (x->k == K_VAR && x->w > 1) { if (ranged.insert(x->id).second) { if (!rstack.empty()) rstack.back().push_back(x->id); i64 lo, hi; rangeOf(x, lo, hi); Z3_solver_assert(c, s, Z3_mk_ge(c, t(x), Z3_mk_int64(c, lo, sInt))); Z3_solver_assert(c, s, Z3_mk_le(c, t(x), Z3_mk_int64(c, hi, sInt))); } return; }
      go(x->a); go(x->b); go(x->d); };
    seen.clear(); go(e);
  }
  void push() { Z3_solver_push(c, s); rstack.emplace_back(); }
  void pop(unsigned n) { if (!n) return; Z3_solver_pop(c, s, n); while (n--) { for (u32 i : rstack.back()) ranged.erase(i); rstack.pop_back(); } }
  void as(Expr *e) { if (ints) rangeAx(e); Z3_solver_assert(c, s, t(e)); }
  void sync(const std::vector<Expr *> &pc) {
    size_t i = 0; while (i < pc.size() && i < stack.size() && pc[i] == stack[i]) i++;
    if (stack.size() > i) { pop((unsigned)(stack.size() - i)); stack.resize(i); }
    for (; i < pc.size(); i++) { push(); as(pc[i]); stack.push_back(pc[i]); }
  }
};
static Z ZB, ZI;   // bit-vector and integer encodings
static struct { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, intq = 0; u64 osat = 0, ounsat = 0, occ = 0, finals = 0; double time = 0; u64 maxq_us = 0; FILE *dump = nullptr; } ZZ;

typedef std::unordered_map<u64, u64> ModelMap;               // var id -> value
typedef std::shared_ptr<const ModelMap> Model;

// ---------------------------------------------------------------- memory
struct Cell { u32 off; u8 n; Expr *e; };
struct Obj {
  int rc = 1; u32 size = 0; bool ro = false; u8 kind = 0; // 0 heap 1 stack 2 global
  u8 *data = nullptr, *st = nullptr; std::vector<Cell> cells;
  static Obj *make(u32 sz, u8 kind, u8 init) { Obj *o = new Obj; o->size = sz; o->kind = kind; o->data = (u8 *)malloc(2 * (size_t)sz + 2); o->st = o->data + sz; memset(o->data, 0, sz); memset(o->st, init, sz); return o; }
  Obj *clone() { Obj *o = new Obj; o->size = size; o->ro = ro; o->kind = kind; o->data = (u8 *)malloc(2 * (size_t)size + 2); o->st = o->data + size; memcpy(o->data, data, 2 * (size_t)size); o->cells = cells; return o; }
  void dec() { if (--rc == 0) { ::free(data); delete this; } }
};
static Obj FREED;
struct Chunk { int rc = 1; Obj *o[64] = {}; };
struct Mem {
  std::vector<Chunk *> ch; u32 n = 1;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), n(m.n) { for (auto *c : ch) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : ch) decC(c); }
  static void decC(Chunk *c) { if (--c->rc == 0) { for (auto *o : c->o) if (o && o != &FREED) o->dec(); delete c; } }
  Chunk *wc(u32 i) { Chunk *&c = ch[i >> 6]; if (c->rc > 1) { Chunk *d = new Chunk; for (int j = 0; j < 64; j++) { d->o[j] = c->o[j]; if (d->o[j] && d->o[j] != &FREED) d->o[j]->rc++; } c->rc--; c = d; } return c; }
  u32 add(Obj *o) { u32 id = n++; if ((id >> 6) >= ch.size()) ch.push_back(new Chunk); wc(id)->o[id & 63] = o; return id; }
  Obj *get(u32 id) { if (id >= n || id == 0) return nullptr; return ch[id >> 6]->o[id & 63]; }
  Obj *getW(u32 id) { Chunk *c = wc(id); Obj *&o = c->o[id & 63]; if (o->rc > 1) { Obj *d = o->clone(); o->rc--; o = d; } return o; }
  void release(u32 id) { Chunk *c = wc(id); Obj *&o = c->o[id & 63]; o->dec(); o = &FREED; }
};

// ---------------------------------------------------------------- decoded code
struct Val { u64 c = 0; Expr *e = nullptr; };
struct Move { u32 dst, src; };
struct DFunc;
struct Edge { u32 target; std::vector<Move> moves; };
struct DInst {
  u16 op; u8 w = 0, w2 = 0; u16 pred = 0; bool fp = false; u32 dst = 0; u32 nslots = 0;
  std::vector<u32> ops; std::vector<Edge> edges; Instruction *I = nullptr;
  // gep
  i64 goff = 0; std::vector<std::pair<u32, i64>> gidx; std::vector<u8> gw;
  // struct load/store parts: (offset,width,fp)
  struct Part { u32 off; u8 w; bool fp; }; std::vector<Part> parts;
  std::vector<u64> cases;
  Function *callee = nullptr; DFunc *dcallee = nullptr; int ext = -1; u64 sz = 0;
};
struct DFunc { Function *F; std::vector<DInst> code; u32 nslots = 0; std::vector<Val> tmpl; std::vector<u32> args; bool repo = false; u64 calls = 0; std::string dname; bool hash = false; };

struct Frame { DFunc *f; u32 pc = 0; std::vector<Val> r; std::vector<u32> allocas; };
struct Input { std::string name; Expr *e; i64 cv; bool conc; };
struct ObsRec { std::string tag; Expr *e; u64 c; };
struct Exc { u64 obj = 0, ti = 0; std::string name; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<Expr *> pc; std::unordered_set<Expr *> pcset; Model model; Ord ord;
  std::vector<Input> in; std::vector<ObsRec> obs; std::vector<std::string> reach; u64 ninst = 0; u32 nfresh = 0, nrand = 0, nclock = 0; u64 hash = 1469598103934665603ULL; int forks = 0;
  std::vector<Exc> excs; std::vector<Exc> caught; bool uninit = false; std::vector<Expr *> checks;
};

static LLVMContext CTX; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, DFunc *> DF;
static std::unordered_map<const GlobalValue *, u64> GADDR;
static std::unordered_map<u64, Function *> FADDR;
static std::unordered_map<u64, const GlobalValue *> ADDRG;
static std::vector<State *> WORK;
static struct Stats { u64 paths = 0, pruned = 0, forks = 0, insts = 0, viol = 0, assumed_out = 0, fphavoc = 0, crossck = 0, maxforks = 0, dropped = 0, checks = 0; std::map<std::string, u64> reach; std::string incomplete; } S;
struct Viol { std::string kind, msg, where, extra; std::string inputs, obs; u64 count = 1; bool uninit = false; std::vector<std::string> alts; };
static std::vector<Viol> VIOL;
static std::vector<std::string> SAMPLES;
static Clk::time_point T0;
static std::set<std::string> TOUCHED; // repo lines

// ---------------------------------------------------------------- constants
static unsigned bitsOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy() || t->isDoubleTy() || t->isX86_FP80Ty()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static unsigned slotsOf(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : s->elements()) n += slotsOf(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return (unsigned)a->getNumElements() * slotsOf(a->getElementType());
  return 1;
}
static void partsOf(Type *t, u32 off, std::vector<DInst::Part> &v) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) partsOf(s->getElementType(i), off + (u32)L->getElementOffset(i), v); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u32 es = (u32)DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) partsOf(a->getElementType(), off + i * es, v); return; }
  v.push_back({off, (u8)bitsOf(t), t->isFloatingPointTy()});
}
static u64 constVal(Constant *c);
static u64 gepConst(GEPOperator *g) {
  u64 base = constVal(cast<Constant>(g->getPointerOperand()));
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) fatal("const gep");
  return base + (u64)off.getSExtValue();
}
static u64 fpBits(const APFloat &f0) { APFloat f = f0; bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return d2b(f.convertToDouble()); }
static u64 constVal(Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) fatal("int wider than 64"); return i->getZExtValue(); }
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isFloatTy()) { float x = f->getValueAPF().convertToFloat(); u32 b; memcpy(&b, &x, 4); return b; } return fpBits(f->getValueAPF()); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = GADDR.find(g); if (it == GADDR.end()) fatal("no address for global " + g->getName().str()); return it->second; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(ce));
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0)) & maskw(bitsOf(ce->getType()));
      case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(bitsOf(ce->getType()));
      case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(bitsOf(ce->getType()));
      case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(bitsOf(ce->getType()));
      case Instruction::ICmp: {
        u64 a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        switch (ce->getPredicate()) { case ICmpInst::ICMP_EQ: return a == b; case ICmpInst::ICMP_NE: return a != b; case ICmpInst::ICMP_ULT: return a < b; case ICmpInst::ICMP_UGT: return a > b; default: break; }
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("constant: " + os.str());
}
static void constSlots(Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *el = c->getAggregateElement(i); constSlots(el, out); }
    return;
  }
  Val v; v.c = constVal(c); out.push_back(v);
}
static void initGlobal(u8 *d, Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(d + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (isa<ArrayType>(t) || isa<VectorType>(t)) {
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(d, r.data(), r.size()); return; }
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    u64 es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < n; i++) initGlobal(d + i * es, c->getAggregateElement(i)); return;
  }
  if (t->isX86_FP80Ty()) { u64 v = constVal(c); memcpy(d, &v, 8); return; }
  u64 v = constVal(c); memcpy(d, &v, DL->getTypeStoreSize(t));
}

// ---------------------------------------------------------------- decoding
static int extId(const std::string &name);
static DFunc *decode(Function *F);
static DFunc *getD(Function *F) { auto it = DF.find(F); if (it != DF.end()) return it->second; try { return decode(F); } catch (PathEnd &) { DF.erase(F); throw; } }
static DFunc *decode(Function *F) {
  DFunc *d = new DFunc; d->F = F; DF[F] = d; d->dname = demangle(F->getName().str());
  if (auto *sp = F->getSubprogram()) { std::string p = sp->getFilename().str(); if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; d->repo = p.rfind(O.repo, 0) == 0; }
  if (O.stubHash && d->repo && F->getReturnType()->isIntegerTy(64)) { std::string l = d->dname; for (char &c : l) c = (char)tolower(c); d->hash = l.find("hash") != std::string::npos && l.find("::operator()(") != std::string::npos; }
  std::unordered_map<const Value *, u32> slot; std::unordered_map<const Value *, u32> cslot; std::unordered_map<const BasicBlock *, u32> bstart;
  auto newSlots = [&](unsigned n) { u32 s = d->nslots; d->nslots += n; d->tmpl.resize(d->nslots); return s; };
  for (auto &a : F->args()) { u32 s = newSlots(slotsOf(a.getType())); slot[&a] = s; d->args.push_back(s); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = newSlots(slotsOf(I.getType()));
  auto op = [&](Value *v) -> u32 {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    auto jt = cslot.find(v); if (jt != cslot.end()) return jt->second;
    if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v)) return 0;
    std::vector<Val> vs; constSlots(cast<Constant>(v), vs); u32 s = newSlots((unsigned)vs.size()); for (size_t i = 0; i < vs.size(); i++) d->tmpl[s + i] = vs[i];
    cslot[v] = s; return s;
  };
  u32 idx = 0;
  auto skip = [](Instruction &I) {
    if (isa<PHINode>(I)) return true;
    if (auto *ii = dyn_cast<IntrinsicInst>(&I)) switch (ii->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: return true; default: break; }
    return false; };
  for (auto &B : *F) { bstart[&B] = idx; for (auto &I : B) if (!skip(I)) idx++; }
  auto edge = [&](BasicBlock *from, BasicBlock *to) {
    Edge e; e.target = bstart[to];
    for (auto &I : *to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; Value *v = p->getIncomingValueForBlock(from); u32 s = op(v); unsigned n = slotsOf(p->getType()); for (unsigned i = 0; i < n; i++) e.moves.push_back({slot[p] + i, s + i}); }
    return e; };
  for (auto &B : *F) for (auto &I : B) {
    if (skip(I)) continue;
    DInst x; x.I = &I; x.op = (u16)I.getOpcode(); if (!I.getType()->isVoidTy()) { x.dst = slot[&I]; x.nslots = slotsOf(I.getType()); x.w = (u8)bitsOf(I.getType()); x.fp = I.getType()->isFloatingPointTy(); }
    if (I.getType()->isVectorTy()) { std::string s; raw_string_ostream os(s); I.print(os); fatal("vector instruction in " + d->dname + ": " + os.str()); }
    switch (I.getOpcode()) {
      case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isConditional()) x.ops.push_back(op(b->getCondition())); for (unsigned i = 0; i < b->getNumSuccessors(); i++) x.edges.push_back(edge(&B, b->getSuccessor(i))); break; }
      case Instruction::Switch: { auto *s = cast<SwitchInst>(&I); x.w = (u8)bitsOf(s->getCondition()->getType()); x.ops.push_back(op(s->getCondition())); x.edges.push_back(edge(&B, s->getDefaultDest())); for (auto &c : s->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
      case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(&I); x.ops.push_back(op(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *v = gi.getOperand();
          if (auto *st = gi.getStructTypeOrNull()) { x.goff += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(v)->getZExtValue()); continue; }
          i64 es = (i64)DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(v)) x.goff += ci->getSExtValue() * es;
          else { x.gidx.push_back({op(v), es}); x.gw.push_back((u8)bitsOf(v->getType())); }
        }
        break; }
      case Instruction::Load: x.ops.push_back(op(I.getOperand(0))); partsOf(I.getType(), 0, x.parts); break;
      case Instruction::Store: x.ops.push_back(op(I.getOperand(0))); x.ops.push_back(op(I.getOperand(1))); partsOf(I.getOperand(0)->getType(), 0, x.parts); break;
      case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); x.sz = DL->getTypeAllocSize(a->getAllocatedType()); x.ops.push_back(op(a->getArraySize())); break; }
      case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(&I); Type *t = e->getAggregateOperand()->getType(); u32 off = 0; for (unsigned i : e->indices()) { if (t->isStructTy()) { for (unsigned j = 0; j < i; j++) off += slotsOf(t->getStructElementType(j)); t = t->getStructElementType(i); } else { off += i * slotsOf(t->getArrayElementType()); t = t->getArrayElementType(); } } x.ops.push_back(op(e->getAggregateOperand()) + off); break; }
      case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(&I); Type *t = e->getAggregateOperand()->getType(); u32 off = 0; for (unsigned i : e->indices()) { if (t->isStructTy()) { for (unsigned j = 0; j < i; j++) off += slotsOf(t->getStructElementType(j)); t = t->getStructElementType(i); } else { off += i * slotsOf(t->getArrayElementType()); t = t->getArrayElementType(); } } x.ops.push_back(op(e->getAggregateOperand())); x.ops.push_back(op(e->getInsertedValueOperand())); x.goff = off; x.sz = slotsOf(t); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(&I); Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        x.callee = dyn_cast<Function>(cv); if (!x.callee) { if (isa<InlineAsm>(cv)) x.ext = extId("__asm__"); else x.ops.push_back(op(cv)); }
        for (auto &a : cb->args()) x.ops.push_back(op(a.get()));
        if (x.callee) { std::string nm = x.callee->getName().str(); int e = extId(nm); if (e >= 0) x.ext = e; else if (x.callee->isDeclaration()) x.ext = -2; }
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { x.edges.push_back(edge(&B, iv->getNormalDest())); x.edges.push_back(edge(&B, iv->getUnwindDest())); }
        break; }
      case Instruction::LandingPad: break;
      case Instruction::ICmp: x.pred = cast<CmpInst>(I).getPredicate(); x.w2 = (u8)bitsOf(I.getOperand(0)->getType()); x.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
      case Instruction::FCmp: x.pred = cast<CmpInst>(I).getPredicate(); x.w2 = (u8)bitsOf(I.getOperand(0)->getType()); x.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
      case Instruction::AtomicRMW: x.pred = cast<AtomicRMWInst>(I).getOperation(); for (auto &o : I.operands()) x.ops.push_back(op(o.get())); break;
      default:
        for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) x.ops.push_back(op(o.get()));
        if (I.getNumOperands()) { Type *t0 = I.getOperand(0)->getType(); x.w2 = (u8)bitsOf(t0); }
    }
    if ((x.w > 64) ) fatal("wide value in " + d->dname);
    d->code.push_back(std::move(x));
  }
  return d;
}

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; } else r += (char)c; } return r; }
static std::string loc(Instruction *I) { if (!I) return ""; if (const DebugLoc &l = I->getDebugLoc()) { auto *s = cast<DIScope>(l.getScope()); return s->getFilename().str() + ":" + std::to_string(l.getLine()); } return ""; }
static std::string where(State &s) {
  std::string r; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 14; i--) { Frame &f = s.st[i]; std::string nm = f.f->dname; if (nm.size() > 90) nm = nm.substr(0, 90) + "..."; std::string l = f.pc < f.f->code.size() ? loc(f.f->code[f.pc].I) : ""; if (!r.empty()) r += " < "; r += nm + "@" + l; n++; }
  return r;
}
// innermost frame belonging to the code under test
static std::string site(State &s) {
  for (int i = (int)s.st.size() - 1; i >= 0; i--) { Frame &f = s.st[i]; if (f.f->repo) return f.f->dname; }
  return s.st.empty() ? "" : s.st.back().f->dname;
}
static bool opaque(Expr *e) { if (!e) return false; if (e->k == K_FVAR) return true; if (!e->hasfp) return false; return opaque(e->a) || opaque(e->b) || opaque(e->d); }
static std::string inputsJson(State &s, const ModelMap &m) {
  std::string r = "["; bool first = true;
  for (auto &i : s.in) { if (!first) r += ","; first = false; i64 v = i.conc ? i.cv : sxt(evalE(i.e, m), i.e->w); r += "[\"" + jesc(i.name) + "\"," + std::to_string(v) + "]"; }
  return r + "]";
}
static std::string obsJson(State &s, const ModelMap &m) {
  std::string r = "["; bool first = true;
  for (auto &o : s.obs) { if (!first) r += ","; first = false; std::string v; if (o.e && opaque(o.e)) v = "null"; else v = std::to_string((i64)(o.e ? (u64)sxt(evalE(o.e, m), o.e->w) : o.c)); r += "[\"" + jesc(o.tag) + "\"," + v + "]"; }
  return r + "]";
}
static void violation(State &s, const std::string &kind, const std::string &msg, Model m) {
  S.viol++;
  std::string w = where(s), si = site(s);
  for (auto &v : VIOL) if (v.kind == kind && v.msg == msg && v.extra == si) { v.count++; if (v.alts.size() < 7) v.alts.push_back(inputsJson(s, *m)); return; }
  Viol v; v.kind = kind; v.msg = msg; v.where = w; v.extra = si; v.inputs = inputsJson(s, *m); v.obs = obsJson(s, *m); v.uninit = s.uninit; VIOL.push_back(v);
  fprintf(stderr, "vsym: VIOLATION %s: %s at %s\n  inputs %s\n", kind.c_str(), msg.c_str(), w.c_str(), v.inputs.c_str());
}

// ---------------------------------------------------------------- solver front end
// res: 1 sat, 0 unsat, -1 unknown.  On sat fills *out.
static int solve(State &s, Expr *extra, Model *out) {
  bool in = !O.bvOnly && (!extra || intOK(extra)); if (in) for (auto *e : s.pc) if (!intOK(e)) { in = false; break; }
  Z &z = in ? ZI : ZB;
  auto t = Clk::now(); z.sync(s.pc); ZZ.queries++; if (in) ZZ.intq++;
  z.push();
  if (extra) z.as(extra);
  Z3_lbool r = Z3_solver_check(z.c, z.s);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    ZZ.sat++;
    if (out) {
      Z3_model m = Z3_solver_get_model(z.c, z.s); Z3_model_inc_ref(z.c, m);
      auto mm = std::make_shared<ModelMap>();
      unsigned n = Z3_model_get_num_consts(z.c, m);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(z.c, m, i); Z3_symbol sy = Z3_get_decl_name(z.c, d); const char *nm = Z3_get_symbol_string(z.c, sy);
        if (nm[0] != 'x') continue; u64 id = strtoull(nm + 1, nullptr, 10);
        Z3_ast v = Z3_model_get_const_interp(z.c, m, d); if (!v) continue;
        u64 val = 0; Z3_lbool bv = Z3_get_bool_value(z.c, v);
        if (bv == Z3_L_TRUE) val = 1; else if (bv == Z3_L_FALSE) val = 0;
        else if (in) { int64_t q; if (!Z3_get_numeral_int64(z.c, v, &q)) continue; val = (u64)q; }
        else if (!Z3_get_numeral_uint64(z.c, v, (uint64_t *)&val)) continue;
        (*mm)[id] = val;
      }
      Z3_model_dec_ref(z.c, m); *out = mm;
    }
  } else if (res == 0) ZZ.unsat++; else { ZZ.unknown++; if (S.incomplete.empty()) S.incomplete = "solver returned unknown"; }
  if (O.crosscheck && res >= 0 && ZZ.dump) {
    Z3_string str = Z3_solver_to_string(z.c, z.s);
    fprintf(ZZ.dump, "(push 1)\n%s(check-sat)\n(pop 1)\n;expect %s\n", str, res ? "sat" : "unsat");
  }
  z.pop(1);
  double dt = since(t); ZZ.time += dt; ZZ.maxq_us = std::max(ZZ.maxq_us, (u64)(dt * 1e6));
  return res;
}
static void addPC(State &s, Expr *e) {
  if (isC(e)) return;
  if (e->k == K_AND && e->w == 1) { addPC(s, e->a); addPC(s, e->b); return; }
  if (s.pcset.insert(e).second) { s.pc.push_back(e); s.ord.add(e); }
}
// c is implied by the path condition: remember it without asserting it again
static void addKnown(State &s, Expr *c) { if (isC(c)) return; s.pcset.insert(c); }
// quick decision by what the path condition already says
static int known(State &s, Expr *c) {
  if (isC(c)) return c->c ? 1 : 0;
  if (s.pcset.count(c)) return 1;
  if (s.pcset.count(mkNot(c))) return 0;
  if (c->k == K_SLT || c->k == K_ULT) { // a<b false if b<a known; or a==b known
    if (s.pcset.count(mk3(c->k, 1, c->b, c->a))) return 0;
    if (s.pcset.count(mkEq(c->a, c->b))) return 0;
  }
  if (c->k == K_EQ) {
    if (s.pcset.count(mk3(K_SLT, 1, c->a, c->b)) || s.pcset.count(mk3(K_SLT, 1, c->b, c->a))) return 0;
    if (c->a->w > 1 && (s.pcset.count(mk3(K_ULT, 1, c->a, c->b)) || s.pcset.count(mk3(K_ULT, 1, c->b, c->a)))) return 0;
    // !(a<b) and !(b<a)
    if (s.pcset.count(mkNot(mk3(K_SLT, 1, c->a, c->b))) && s.pcset.count(mkNot(mk3(K_SLT, 1, c->b, c->a)))) return 1;
  }
  return -1;
}
static bool satisfies(State &s, Expr *extra, const ModelMap &m) {
  if (!evalE(extra, m)) return false;
  for (auto *e : s.pc) if (!evalE(e, m)) return false;
  return true;
}
// order solver on PC and c: 0 unsat, 1 sat (model filled), -1 don't know
static int ordTry(State &s, const Ord &base, std::vector<Expr *> todo, Expr *whole, Model *out, int depth) {
  Ord o = base;
  while (!todo.empty()) {
    Expr *e = todo.back(); todo.pop_back();
    bool neg = Ord::isNotE(e); Expr *b = neg ? e->a : e;
    if (b->w == 1 && b->k == K_AND && !neg) { todo.push_back(b->a); todo.push_back(b->b); continue; }
    if (b->w == 1 && b->k == K_OR && neg) { todo.push_back(mkNot(b->a)); todo.push_back(mkNot(b->b)); continue; }
    bool disj = b->w == 1 && ((b->k == K_OR && !neg) || (b->k == K_AND && neg)); bool ite = b->w == 1 && b->k == K_ITE;
    if ((disj || ite) && depth < 6) {
      std::vector<Expr *> t1 = todo, t2 = todo;
      if (disj) { t1.push_back(neg ? mkNot(b->a) : b->a); t2.push_back(neg ? mkNot(b->b) : b->b); }
      else { t1.push_back(b->a); t1.push_back(neg ? mkNot(b->b) : b->b); t2.push_back(mkNot(b->a)); t2.push_back(neg ? mkNot(b->d) : b->d); }
      int r1 = ordTry(s, o, t1, whole, out, depth + 1); if (r1 == 1) return 1;
      int r2 = ordTry(s, o, t2, whole, out, depth + 1); if (r2 == 1) return 1;
      return r1 == 0 && r2 == 0 ? 0 : -1;
    }
    o.add(e); if (o.bad) return 0;
  }
  auto mm = std::make_shared<ModelMap>(*s.model);
  if (o.model(*mm, s.model.get()) && satisfies(s, whole, *mm)) { if (out) *out = mm; return 1; }
  auto m2 = std::make_shared<ModelMap>(*s.model);
  if (o.model(*m2, nullptr) && satisfies(s, whole, *m2)) { if (out) *out = m2; return 1; }
  return -1;
}
static int solve2(State &s, Expr *c, Model *out) {
  if (!O.noOrder) {
    int r = ordTry(s, s.ord, {c}, c, out, 0);
    if (r == 1) { ZZ.osat++; return 1; }
    if (r == 0) { ZZ.ounsat++;
      if (O.xcheck && ZZ.ounsat % O.xcheck == 0) { ZZ.occ++; if (solve(s, c, nullptr) == 1) die("order solver disagrees with z3"); }
      return 0; }
  }
  return solve(s, c, out);
}
// Decide a condition on a state.  Returns bit0: may be true, bit1: may be false; models filled for the feasible sides.
static int decide(State &s, Expr *c, Model *mt, Model *mf) {
  int kn = known(s, c);
  if (kn >= 0) { if (kn) { if (mt) *mt = s.model; return 1; } if (mf) *mf = s.model; return 2; }
  if (!c->hasfp) {
    bool v = evalE(c, *s.model) != 0;
    if (v) { if (mt) *mt = s.model; Model m; int r = solve2(s, mkNot(c), &m); if (r == 0) return 1; if (mf) *mf = r == 1 ? m : s.model; return 3; }
    else { if (mf) *mf = s.model; Model m; int r = solve2(s, c, &m); if (r == 0) return 2; if (mt) *mt = r == 1 ? m : s.model; return 3; }
  }
  Model m1, m2; int r1 = solve2(s, c, &m1), r2 = solve2(s, mkNot(c), &m2); int r = 0;
  if (r1 != 0) { r |= 1; if (mt) *mt = r1 == 1 ? m1 : s.model; }
  if (r2 != 0) { r |= 2; if (mf) *mf = r2 == 1 ? m2 : s.model; }
  return r;
}
static bool mine(u64 h) { h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; return O.splitN <= 1 || (int)(h % (u64)O.splitN) == O.splitK; }
static bool bump(State &s, bool bit) { // returns false if the state belongs to another worker
  s.forks++; S.maxforks = std::max<u64>(S.maxforks, (u64)s.forks);
  s.hash = (s.hash ^ (bit ? 0x9e3779b97f4a7c15ULL : 0x7f4a7c159e3779b9ULL)) * 1099511628211ULL;
  if (s.forks == O.splitD && !mine(s.hash)) return false;
  return true;
}
static State *cloneState(State &s) { return new State(s); }
// fork the other side of condition c: the clone re-executes (or continues) at its current pc
static void pushOther(State &s, Expr *c, Model m) {
  State *o = cloneState(s); addPC(*o, c); o->model = m; S.forks++;
  if (bump(*o, false)) WORK.push_back(o); else { S.dropped++; delete o; }
}
static void assumeHere(State &s, Expr *c, bool forked, Model m) {
  addPC(s, c); if (m) s.model = m;
  if (forked && !bump(s, true)) { S.dropped++; throw PathEnd{"split"}; }
}
static Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }
static Val mkV(Expr *e) { Val v; if (e->k == K_CONST) v.c = e->c; else if (e->k == K_FCONST) v.c = e->c; else v.e = e; return v; }
static u64 concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.c;
  Expr *e = v.e;
  if (e->fp || e->k == K_FVAR) fatal("concretize an opaque double");
  u64 x = evalE(e, *s.model); Expr *eq = mkEq(e, mkC(w, x));
  int kn = known(s, eq); if (kn == 1) return x;
  Model m; int r = solve2(s, mkNot(eq), &m);
  if (r != 0) { pushOther(s, mkNot(eq), r == 1 ? m : s.model); assumeHere(s, eq, true, nullptr); }
  else assumeHere(s, eq, false, nullptr);
  return x;
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg, s.model); throw PathEnd{"violation"}; }

// ---------------------------------------------------------------- memory access
static Obj *objAt(State &s, u64 addr, u64 n, const char *what, bool write) {
  u32 id = (u32)(addr >> 32), off = (u32)addr;
  if (id == 0) fail(s, "memory", std::string(what) + ": null pointer or near-null access");
  if (id >= 0x40000000u && id < 0x50000000u) fail(s, "memory", std::string(what) + ": access to code");
  Obj *o = s.mem.get(id);
  if (!o) { // maybe an underflow below object id+1
    fail(s, "memory", std::string(what) + ": wild pointer / out of bounds"); }
  if (o == &FREED) fail(s, "memory", std::string(what) + ": use after free");
  if ((u64)off + n > o->size) fail(s, "memory", std::string(what) + ": out of bounds (" + (o->kind == 0 ? "heap" : o->kind == 1 ? "stack" : "global") + ")");
  if (write) { if (o->ro) fail(s, "memory", std::string(what) + ": write to constant"); return s.mem.getW(id); }
  return o;
}
static Expr *freshVar(State &s, unsigned w, const std::string &tag, bool ranged, i64 lo, i64 hi) {
  static std::unordered_map<std::string, u64> reg; static u64 nid = 1;
  std::string key = tag + "/" + std::to_string(w) + "/" + std::to_string(s.nfresh++) + (ranged ? "/" + std::to_string(lo) + ":" + std::to_string(hi) : "");
  auto it = reg.find(key); u64 id; if (it == reg.end()) { id = nid++; reg[key] = id; } else id = it->second;
  Expr t{}; t.k = K_VAR; t.w = (u8)w; t.c = id; t.ranged = ranged; t.rlo = lo; t.rhi = hi; t.name = new std::string(tag);
  Expr *e = POOL.intern(t); if (e->name != t.name) delete t.name;
  if (ranged) {
    i64 mn = w >= 64 ? INT64_MIN : -(1LL << (w - 1)), mx = w >= 64 ? INT64_MAX : (1LL << (w - 1)) - 1;
    if (lo > mn) { Expr *c = mkNot(mk3(K_SLT, 1, e, mkC(w, (u64)lo))); addPC(s, c); }
    if (hi < mx) { Expr *c = mkNot(mk3(K_SLT, 1, mkC(w, (u64)hi), e)); addPC(s, c); }
  }
  return e;
}
static Expr *intView(Expr *e) { if (e->fp) return mk3(K_FBITS, 64, e); return e; }
static Expr *byteAt(Obj *o, u32 off) {
  if (o->st[off] == 2) for (auto &c : o->cells) if (off >= c.off && off < c.off + c.n) { Expr *x = intView(c.e); return mkExtract(x, (off - c.off) * 8, 8); }
  return mkC(8, o->data[off]);
}
static void dropCells(Obj *o, u32 off, u32 n) {
  if (o->cells.empty()) return;
  std::vector<Cell> add; size_t k = 0;
  for (size_t i = 0; i < o->cells.size(); i++) {
    Cell c = o->cells[i];
    if (c.off + c.n <= off || c.off >= off + n) { o->cells[k++] = c; continue; }
    if (c.off >= off && c.off + c.n <= off + n) continue;
    for (u32 j = c.off; j < c.off + c.n; j++) if (j < off || j >= off + n) { Expr *b = mkExtract(intView(c.e), (j - c.off) * 8, 8); add.push_back({j, 1, b}); }
  }
  o->cells.resize(k); for (auto &c : add) { if (isC(c.e)) { o->st[c.off] = 1; o->data[c.off] = (u8)c.e->c; } else o->cells.push_back(c); }
}
static void storeVal(State &s, u64 addr, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8; Obj *o = objAt(s, addr, n, "store", true); u32 off = (u32)addr;
  dropCells(o, off, n);
  if (!v.e) { u64 c = v.c; memcpy(o->data + off, &c, n); memset(o->st + off, 1, n); return; }
  Expr *e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  memset(o->st + off, 2, n); memset(o->data + off, 0, n); o->cells.push_back({off, (u8)n, e});
}
static Val loadVal(State &s, u64 addr, unsigned w, bool fp) {
  unsigned n = (w + 7) / 8; Obj *o = objAt(s, addr, n, "load", false); u32 off = (u32)addr; u8 *st = o->st + off;
  bool conc = true; for (unsigned i = 0; i < n; i++) if (st[i] != 1) { conc = false; break; }
  if (conc) { u64 c = 0; memcpy(&c, o->data + off, n); Val v; v.c = c & maskw(w); return v; }
  for (auto &c : o->cells) if (c.off == off && c.n == n) {
    if (fp) { if (c.e->fp) return mkV(c.e); if (c.e->k == K_FBITS) return mkV(c.e->a); Val v; v.e = mkFVar(0x2000000000ULL + c.e->id); return v; }
    if (c.e->fp) { Val v; v.e = c.e; return v; } // moved as an integer, keeps its identity
    return mkV(w < n * 8 ? mkExtract(c.e, 0, w) : c.e);
  }
  bool uninit = true; for (unsigned i = 0; i < n; i++) if (st[i] != 0) { uninit = false; break; }
  if (uninit) {
    s.uninit = true;
    if (fp) { Val v; v.e = mkFVar(0x3000000000ULL + s.nfresh++); return v; }
    Expr *e = freshVar(s, n * 8, "uninit", false, 0, 0); Obj *ow = s.mem.getW((u32)(addr >> 32)); memset(ow->st + off, 2, n); ow->cells.push_back({off, (u8)n, e});
    return mkV(w < n * 8 ? mkExtract(e, 0, w) : e);
  }
  Expr *r = nullptr;
  for (int i = (int)n - 1; i >= 0; i--) { Expr *b = st[i] == 0 ? mkC(8, 0) : byteAt(o, off + (u32)i); r = r ? mkConcat(r, b) : b; }
  if (fp) { Val v; if (isC(r)) v.c = r->c; else v.e = mkFVar(0x2000000000ULL + r->id); return v; }
  return mkV(w < n * 8 ? mkExtract(r, 0, w) : r);
}
static void copyMem(State &s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  Obj *so = objAt(s, src, n, "memcpy read", false); Obj *d = objAt(s, dst, n, "memcpy write", true); so = s.mem.get((u32)(src >> 32));
  u32 a = (u32)src, b = (u32)dst; std::vector<Cell> cs;
  for (auto &c : so->cells) { if (c.off >= a && c.off + c.n <= a + n) cs.push_back({c.off - a + b, c.n, c.e}); else if (c.off + c.n > a && c.off < a + n) { for (u32 j = c.off; j < c.off + c.n; j++) if (j >= a && j < a + n) cs.push_back({j - a + b, 1, mkExtract(intView(c.e), (j - c.off) * 8, 8)}); } }
  dropCells(d, b, (u32)n); so = s.mem.get((u32)(src >> 32));
  memmove(d->data + b, so->data + a, n); memmove(d->st + b, so->st + a, n);
  for (auto &c : cs) { if (isC(c.e)) { d->st[c.off] = 1; d->data[c.off] = (u8)c.e->c; } else d->cells.push_back(c); }
}
static u64 alloc(State &s, u64 n, u8 kind, u8 init) {
  if (n > (1u << 28)) fail(s, "memory", "allocation of an absurd size");
  if (s.mem.n > O.maxObjs) fail(s, "resource", "too many allocations on one path");
  return (u64)s.mem.add(Obj::make((u32)n, kind, init)) << 32;
}
static void release(State &s, u64 a) {
  if (!a) return; u32 id = (u32)(a >> 32); Obj *o = s.mem.get(id);
  if (!o) fail(s, "memory", "free of a wild pointer");
  if (o == &FREED) fail(s, "memory", "double free");
  if ((u32)a != 0 || o->kind != 0) fail(s, "memory", "free of a non-heap pointer");
  s.mem.release(id);
}
// symbolic address: either a small table lookup (ITE over the feasible offsets) or forked over all its values
static u64 resolve(State &s, Val p) { return p.e ? concretize(s, p, 64) : p.c; }
static bool tableLoad(State &s, Val p, unsigned w, Val &out) {
  // p = const + f(x) inside one constant object, all bytes concrete
  u64 a0 = evalE(p.e, *s.model); Obj *o = s.mem.get((u32)(a0 >> 32)); if (!o || o == &FREED || !o->ro || o->size > 512 || !o->cells.empty()) return false;
  unsigned n = (w + 7) / 8; u64 base = a0 & ~0xffffffffULL; if (o->size < n) return false;
  Expr *off = mkBin(K_SUB, p.e, mkC(64, base)); Expr *inb = mkNot(mkUlt(mkC(64, o->size - n), off));
  Model mt, mf; int r = decide(s, inb, &mt, &mf);
  if (r & 2) return false; // may leave the object: fall back to forking, which reports it
  Expr *res = nullptr;
  for (u32 i = 0; i + n <= o->size; i++) { u64 v = 0; memcpy(&v, o->data + i, n); Expr *c = mkC(w, v); res = res ? mkIte(mkEq(off, mkC(64, i)), c, res) : c; }
  out = mkV(res); return true;
}

static Expr *fpE(const Val &v) { if (!v.e) return mkF(b2d(v.c)); if (v.e->fp) return v.e; if (v.e->k == K_FBITS) return v.e->a; return mkFVar(0x2000000000ULL + v.e->id); }
// ---------------------------------------------------------------- externals
typedef std::function<bool(State &, DInst &, std::vector<Val> &, Val &)> ExtFn; // returns false when control was transferred
static std::vector<ExtFn> EXT; static std::unordered_map<std::string, int> EXTID;
static int extId(const std::string &n) { auto it = EXTID.find(n); return it == EXTID.end() ? -1 : it->second; }
static void reg(const std::string &n, ExtFn f) { EXTID[n] = (int)EXT.size(); EXT.push_back(f); }
static std::string cstr(State &s, u64 a) { std::string r; if (!a) return r; for (int i = 0; i < 4096; i++) { Val v = loadVal(s, a + (u64)i, 8, false); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }

static bool doThrow(State &s, Exc e);
static bool stdThrow(State &s, const std::string &cls) { Exc e; e.obj = alloc(s, 64, 0, 1); e.ti = 0; e.name = cls; return doThrow(s, e); }

static std::string tiName(u64 a) { auto it = ADDRG.find(a); return it == ADDRG.end() ? "" : it->second->getName().str(); }
static bool tiIsA(const std::string &name, const std::string &base, int depth = 0) {
  if (name == base) return true;
  if (depth > 10) return false;
  static const std::map<std::string, std::string> H = {
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr","_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
  auto it = H.find(name); if (it != H.end()) return tiIsA(it->second, base, depth + 1);
  if (auto *g = M->getGlobalVariable(name, true)) if (g->hasInitializer()) {
    auto *c = g->getInitializer();
    for (unsigned i = 2; i < c->getNumOperands(); i++) if (auto *b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts())) if (tiIsA(b->getName().str(), base, depth + 1)) return true;
  }
  return false;
}
static void applyEdge(Frame &f, Edge &e) {
  if (e.moves.size() == 1) f.r[e.moves[0].dst] = f.r[e.moves[0].src];
  else if (!e.moves.empty()) { static std::vector<Val> t; t.clear(); for (auto &m : e.moves) t.push_back(f.r[m.src]); for (size_t i = 0; i < e.moves.size(); i++) f.r[e.moves[i].dst] = t[i]; }
  f.pc = e.target;
}
static void popFrame(State &s) { for (u32 id : s.st.back().allocas) s.mem.release(id); s.st.pop_back(); }
static std::map<std::string, int> TISEL;
static int selOf(const std::string &n) { auto it = TISEL.find(n); if (it != TISEL.end()) return it->second; int v = (int)TISEL.size() + 1; TISEL[n] = v; return v; }
static std::string clauseName(Constant *c) { c = c->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) return ""; return cast<GlobalValue>(c)->getName().str(); }
// unwind from the current top frame (already popped to the frame holding the invoke/call)
static bool unwind(State &s, Exc e) {
  while (!s.st.empty()) {
    Frame &f = s.st.back(); DInst &x = f.f->code[f.pc];
    if (x.op == Instruction::Invoke) {
      auto *lp = cast<InvokeInst>(x.I)->getLandingPadInst(); bool enter = lp->isCleanup(); int sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { std::string cn = clauseName(lp->getClause(i)); if (cn.empty() || tiIsA(e.name, cn)) { enter = true; sel = selOf(cn); break; } }
      if (enter) {
        s.excs.push_back(e); Edge &ed = x.edges[1]; applyEdge(f, ed);
        // the landingpad instruction reads the pending exception
        DInst &l = f.f->code[f.pc]; if (l.op != Instruction::LandingPad) fatal("expected landingpad");
        f.r[l.dst].c = e.obj; f.r[l.dst].e = nullptr; f.r[l.dst + 1].c = (u64)(u32)sel; f.r[l.dst + 1].e = nullptr; f.pc++;
        return false;
      }
    }
    popFrame(s);
  }
  return false;
}
static bool doThrow(State &s, Exc e) {
  // is there any handler at all (catch clause that matches) on the stack?
  bool handled = false;
  for (int i = (int)s.st.size() - 1; i >= 0 && !handled; i--) { DInst &x = s.st[i].f->code[s.st[i].pc]; if (x.op != Instruction::Invoke) continue; auto *lp = cast<InvokeInst>(x.I)->getLandingPadInst(); for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { std::string cn = clauseName(lp->getClause(k)); if (cn.empty() || tiIsA(e.name, cn)) { handled = true; break; } } }
  if (!handled) fail(s, "exception", "uncaught exception " + demangle(e.name));
  return unwind(s, e);
}
static void endInput(State &) {}

static Val addInput(State &s, const std::string &name, unsigned w, bool ranged, i64 lo, i64 hi) {
  (void)endInput; Expr *e = freshVar(s, w, "in_" + name, ranged, lo, hi); s.in.push_back({name, e, 0, false});
  Val v; v.e = e; return v;
}

static void registerExternals() {
  auto R = [](const std::string &n, ExtFn f) { reg(n, f); };
  auto nop = [](State &, DInst &, std::vector<Val> &, Val &r) { r = Val(); return true; };
  for (const char *n : {"_Znwm", "_Znam", "malloc"}) R(n, [](State &s, DInst &, std::vector<Val> &a, Val &r) { u64 z = concretize(s, a[0], 64); if (z > (1u << 28)) return stdThrow(s, "_ZTISt9bad_alloc"); r.c = alloc(s, z, 0, 0); return true; });
  R("_ZnwmSt11align_val_t", [](State &s, DInst &, std::vector<Val> &a, Val &r) { u64 z = concretize(s, a[0], 64); r.c = alloc(s, z, 0, 0); return true; });
  R("_ZnwmRKSt9nothrow_t", [](State &s, DInst &, std::vector<Val> &a, Val &r) { u64 z = concretize(s, a[0], 64); r.c = alloc(s, z, 0, 0); return true; });
  R("calloc", [](State &s, DInst &, std::vector<Val> &a, Val &r) { u64 z = concretize(s, a[0], 64) * concretize(s, a[1], 64); r.c = alloc(s, z, 0, 1); return true; });
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) R(n, [](State &s, DInst &, std::vector<Val> &a, Val &) { release(s, resolve(s, a[0])); return true; });
  for (const char *n : {"memcpy", "memmove"}) R(n, [](State &s, DInst &, std::vector<Val> &a, Val &r) { u64 d = resolve(s, a[0]), q = resolve(s, a[1]), z = concretize(s, a[2], 64); copyMem(s, d, q, z); r.c = d; return true; });
  R("memset", [](State &s, DInst &, std::vector<Val> &a, Val &r) {
    u64 d = resolve(s, a[0]), z = concretize(s, a[2], 64); r.c = d; if (!z) return true;
    if (a[1].e) { Val b = mkV(mkExtract(a[1].e, 0, 8)); for (u64 i = 0; i < z; i++) storeVal(s, d + i, b, 8); return true; }
    Obj *o = objAt(s, d, z, "memset", true); dropCells(o, (u32)d, (u32)z); memset(o->data + (u32)d, (int)(a[1].c & 255), z); memset(o->st + (u32)d, 1, z); return true; });
  R("bcmp", [](State &s, DInst &, std::vector<Val> &a, Val &r) {
    u64 p = resolve(s, a[0]), q = resolve(s, a[1]), z = concretize(s, a[2], 64); Expr *res = mkC(1, 1);
    for (u64 i = 0; i < z;) { unsigned n = 1; for (unsigned k : {8u, 4u}) if (i + k <= z && (((u32)p + i) % k) == 0 && (((u32)q + i) % k) == 0) { n = k; break; }
      if (n == 8 && z - i >= 4) { Obj *o1 = objAt(s, p + i, 8, "memcmp", false), *o2 = objAt(s, q + i, 8, "memcmp", false); bool c8 = true; for (int j = 0; j < 8; j++) if (o1->st[(u32)p + i + j] != 1 || o2->st[(u32)q + i + j] != 1) c8 = false; if (!c8) n = 4; }
      res = mkBin(K_AND, res, mkEq(intView(ex(loadVal(s, p + i, n * 8, false), n * 8)), intView(ex(loadVal(s, q + i, n * 8, false), n * 8)))); i += n; if (isC(res) && !res->c) break; }
    r = mkV(mkIte(res, mkC(32, 0), mkC(32, 1))); return true; });
  R("memcmp",  [](State &s, DInst &, std::vector<Val> &a, Val &r) {
    u64 p = resolve(s, a[0]), q = resolve(s, a[1]), z = concretize(s, a[2], 64); Expr *res = mkC(32, 0);
    for (i64 i = (i64)z - 1; i >= 0; i--) { Expr *x = ex(loadVal(s, p + (u64)i, 8, false), 8), *y = ex(loadVal(s, q + (u64)i, 8, false), 8); res = mkIte(mkEq(x, y), res, mkIte(mkUlt(x, y), mkC(32, (u64)-1), mkC(32, 1))); }
    r = mkV(res); return true; });
  R("strlen", [](State &s, DInst &, std::vector<Val> &a, Val &r) { u64 p = resolve(s, a[0]); u64 i = 0; for (;; i++) { Val v = loadVal(s, p + i, 8, false); u64 c = v.e ? concretize(s, v, 8) : v.c; if (!c) break; } r.c = i; return true; });
  R("abort", [](State &s, DInst &, std::vector<Val> &, Val &) -> bool { fail(s, "abort", "abort() called"); });
  R("_ZSt9terminatev", [](State &s, DInst &, std::vector<Val> &, Val &) -> bool { fail(s, "abort", "std::terminate called"); });
  R("__clang_call_terminate", [](State &s, DInst &, std::vector<Val> &, Val &) -> bool { fail(s, "abort", "exception leaves a noexcept function"); });
  R("__cxa_pure_virtual", [](State &s, DInst &, std::vector<Val> &, Val &) -> bool { fail(s, "abort", "pure virtual call"); });
  R("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](State &s, DInst &, std::vector<Val> &a, Val &) -> bool { std::string c = a[3].e ? "" : cstr(s, a[3].c); fail(s, "memory", "container precondition violated: " + c); });
  // exceptions
  R("__cxa_allocate_exception", [](State &s, DInst &, std::vector<Val> &a, Val &r) { r.c = alloc(s, a[0].c + 16, 0, 1); return true; });
  R("__cxa_free_exception", [](State &s, DInst &, std::vector<Val> &a, Val &) { release(s, a[0].c); return true; });
  R("__cxa_throw", [](State &s, DInst &, std::vector<Val> &a, Val &) { Exc e; e.obj = a[0].c; e.ti = a[1].c; e.name = tiName(a[1].c); return doThrow(s, e); });
  R("__cxa_rethrow", [](State &s, DInst &, std::vector<Val> &, Val &) { if (s.caught.empty()) fatal("rethrow"); Exc e = s.caught.back(); return doThrow(s, e); });
  R("__cxa_begin_catch", [](State &s, DInst &, std::vector<Val> &a, Val &r) { r = a[0]; if (!s.excs.empty()) { s.caught.push_back(s.excs.back()); s.excs.pop_back(); } return true; });
  R("__cxa_end_catch", [](State &s, DInst &, std::vector<Val> &, Val &) { if (!s.caught.empty()) s.caught.pop_back(); return true; });
  R("__cxa_get_exception_ptr", [](State &, DInst &, std::vector<Val> &a, Val &r) { r = a[0]; return true; });
  static const char *thr[][2] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt19__throw_range_errorPKc","_ZTISt11range_error"}};
  for (auto &t : thr) { std::string c = t[1]; R(t[0], [c](State &s, DInst &, std::vector<Val> &, Val &) { return stdThrow(s, c); }); }
  for (const char *c : {"12out_of_range", "12length_error", "16invalid_argument", "11logic_error", "13runtime_error", "11range_error", "12domain_error"}) {
    std::string n = c;
    for (const char *suf : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "D1Ev", "D2Ev", "C1ERKS_", "C2ERKS_"}) R("_ZNSt" + n + suf, nop);
  }
  R("_ZNSt9exceptionD2Ev", nop); R("_ZNSt9exceptionD1Ev", nop); R("__cxa_atexit", nop); R("_ZNSt8ios_base4InitC1Ev", nop); R("_ZNSt8ios_base4InitD1Ev", nop);
  R("__asm__", nop);
  // maths (concrete, or log abstracted)
  auto un = [&](const char *n, double (*f)(double)) { R(n, [f](State &s, DInst &x, std::vector<Val> &a, Val &r) { if (a[0].e) { r = mkV(mkFun(fpE(a[0]), f)); return true; } if (x.w == 32) { float t; u32 b = (u32)a[0].c; memcpy(&t, &b, 4); t = (float)f(t); memcpy(&b, &t, 4); r.c = b; } else r.c = d2b(f(b2d(a[0].c))); return true; }); };
  un("sqrt", sqrt); un("exp", exp); un("pow10", exp); un("floor", floor); un("ceil", ceil); un("tan", tan); un("log2", log2); un("log10", log10); un("lgamma", lgamma); un("fabs", fabs); un("round", round); un("trunc", trunc); un("log1p", log1p); un("exp2", exp2); un("expm1", expm1);
  for (const char *n : {"log", "logl"}) R(n, [](State &, DInst &, std::vector<Val> &a, Val &r) { if (a[0].e) r = mkV(mkFun(fpE(a[0]), [](double x) { return log(x); })); else r.c = d2b(log(b2d(a[0].c))); return true; });
  for (auto pr : std::initializer_list<std::pair<const char *, double (*)(double, double)>>{{"pow", [](double x, double y) { return pow(x, y); }}, {"nextafter", [](double x, double y) { return nextafter(x, y); }}, {"fmod", [](double x, double y) { return fmod(x, y); }}, {"fmax", [](double x, double y) { return fmax(x, y); }}, {"fmin", [](double x, double y) { return fmin(x, y); }}, {"atan2", [](double x, double y) { return atan2(x, y); }}, {"hypot", [](double x, double y) { return hypot(x, y); }}}) {
    auto fn = pr.second; R(pr.first, [fn](State &, DInst &, std::vector<Val> &a, Val &r) { if (a[0].e || a[1].e) r = mkV(mkFun2(fpE(a[0]), fpE(a[1]), fn)); else r.c = d2b(fn(b2d(a[0].c), b2d(a[1].c))); return true; }); }
  R("rand", [](State &s, DInst &, std::vector<Val> &, Val &r) { if (s.nrand++ >= O.randSym) { i64 v = (i64)(s.nrand * 2654435761u % 1000003u); s.in.push_back({"rand", nullptr, v, true}); r.c = (u32)v; return true; } r = addInput(s, "rand", 32, true, 0, 2147483647); return true; });
  // printf family: concrete values only
  auto fmtOut = [](State &s, std::vector<Val> &a, size_t fi) -> std::string {
    std::string f = cstr(s, resolve(s, a[fi])), out; size_t k = fi + 1;
    auto arg = [&]() -> u64 { if (k >= a.size()) fatal("printf: missing argument"); Val v = a[k++]; if (v.e) { if (v.e->fp) fatal("printf of a symbolic double"); return concretize(s, v, v.e->w); } return v.c; };
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { out += f[i]; continue; }
      if (f[i + 1] == '%') { out += '%'; i++; continue; }
      std::string sp = "%"; size_t j = i + 1; int lng = 0;
      while (j < f.size() && strchr("-+ #0123456789.*hlzjt", f[j])) { if (f[j] == '*') sp += std::to_string((int)arg()); else if (strchr("hlzjt", f[j])) lng += f[j] == 'h' ? -1 : f[j] == 'l' ? 1 : 2; else sp += f[j]; j++; }
      if (j >= f.size()) break;
      char c = f[j]; char b[512]; b[0] = 0;
      if (c == 'd' || c == 'i') { u64 v = arg(); snprintf(b, sizeof b, (sp + "lld").c_str(), lng >= 1 ? (long long)v : lng == -1 ? (long long)(short)v : lng <= -2 ? (long long)(signed char)v : (long long)(int)v); out += b; }
      else if (strchr("uxXo", c)) { u64 v = arg(); snprintf(b, sizeof b, (sp + "ll" + c).c_str(), lng >= 1 ? (unsigned long long)v : (unsigned long long)(unsigned)v); out += b; }
      else if (c == 'c') { snprintf(b, sizeof b, (sp + "c").c_str(), (int)arg()); out += b; }
      else if (strchr("feEgGaF", c)) { snprintf(b, sizeof b, (sp + c).c_str(), b2d(arg())); out += b; }
      else if (c == 's') { std::string t = cstr(s, arg()); snprintf(b, sizeof b, (sp + "s").c_str(), t.c_str()); out += sp == "%" ? t : b; }
      else fatal(std::string("printf conversion ") + c);
      i = j;
    }
    return out; };
  auto putStr = [](State &s, u64 d, const std::string &t) { for (size_t i = 0; i <= t.size(); i++) { Val b; b.c = i < t.size() ? (u64)(unsigned char)t[i] : 0; storeVal(s, d + i, b, 8); } };
  R("snprintf", [fmtOut, putStr](State &s, DInst &, std::vector<Val> &a, Val &r) { std::string t = fmtOut(s, a, 2); u64 z = concretize(s, a[1], 64); r = Val(); r.c = (u32)t.size(); if (z) putStr(s, resolve(s, a[0]), t.substr(0, z - 1)); return true; });
  R("sprintf", [fmtOut, putStr](State &s, DInst &, std::vector<Val> &a, Val &r) { std::string t = fmtOut(s, a, 1); r = Val(); r.c = (u32)t.size(); putStr(s, resolve(s, a[0]), t); return true; });
  R("vs_fmt_double", [putStr](State &s, DInst &, std::vector<Val> &a, Val &r) { r = Val(); char b[400]; if (a[1].e) fatal("a symbolic double is printed"); snprintf(b, sizeof b, a[3].c & 4 ? "%.*f" : a[3].c & 256 ? "%.*e" : "%.*g", (int)a[2].c, b2d(a[1].c)); putStr(s, resolve(s, a[0]), b); return true; });
  for (const char *n : {"printf", "puts", "putchar", "fputs", "fputc", "fprintf", "fwrite", "fflush", "perror", "srand", "usleep", "sched_yield", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "getenv"}) R(n, nop);
  // sources of values that differ from call to call
  for (const char *n : {"_ZNSt13random_device9_M_getvalEv", "time", "clock", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "random", "lrand48"}) { bool w = strstr(n, "random"); R(n, [w](State &s, DInst &, std::vector<Val> &, Val &r) { u64 v = (u64)++s.nclock; r = Val(); r.c = w ? (v * 2654435761u) & 0x7fffffff : 1700000000ULL + v; return true; }); }
  for (const char *n : {"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13random_device7_M_finiEv"}) R(n, nop);
  // harness interface
  R("vs_in_int", [](State &s, DInst &, std::vector<Val> &a, Val &r) { r = addInput(s, cstr(s, a[0].c), 32, false, 0, 0); return true; });
  R("vs_in_range", [](State &s, DInst &, std::vector<Val> &a, Val &r) { i64 lo = sxt(a[1].c, 32), hi = sxt(a[2].c, 32); std::string n = cstr(s, a[0].c); if (lo == hi) { s.in.push_back({n, nullptr, lo, true}); r.c = (u32)lo; return true; } r = addInput(s, n, 32, true, lo, hi); return true; });
  R("vs_in_choose", [](State &s, DInst &x, std::vector<Val> &a, Val &r) { // forks over the values
    i64 lo = sxt(a[1].c, 32), hi = sxt(a[2].c, 32); std::string n = cstr(s, a[0].c);
    (void)x; Frame &f = s.st.back(); u32 pc = f.pc, dst = x.dst; bool inv = x.op == Instruction::Invoke;
    for (i64 v = hi; v > lo; v--) {
      State *o = cloneState(s); S.forks++; o->in.push_back({n, nullptr, v, true}); Frame &g = o->st.back(); g.r[dst].c = (u32)v; g.r[dst].e = nullptr;
      if (inv) applyEdge(g, g.f->code[pc].edges[0]); else g.pc = pc + 1;
      o->hash = (o->hash ^ (u64)(v * 7919 + 13)) * 1099511628211ULL; if (bump(*o, false)) WORK.push_back(o); else { S.dropped++; delete o; }
    }
    s.in.push_back({n, nullptr, lo, true}); r.c = (u32)lo;
    if (hi > lo) { s.hash = (s.hash ^ (u64)(lo * 7919 + 13)) * 1099511628211ULL; if (!bump(s, true)) { S.dropped++; throw PathEnd{"split"}; } }
    return true; });
  R("vs_param", [](State &, DInst &, std::vector<Val> &a, Val &r) { size_t i = (size_t)sxt(a[0].c, 32); if (i == 1000) { r.c = O.buckets; return true; } r.c = (u32)(i < O.params.size() ? O.params[i] : sxt(a[1].c, 32)); return true; });
  R("vs_assume_", [](State &s, DInst &, std::vector<Val> &a, Val &) {
    if (!a[0].e) { if (!(a[0].c & 0xffffffff)) { S.assumed_out++; throw PathEnd{"assume"}; } return true; }
    Expr *c = mkNot(mkEq(a[0].e, mkC(32, 0))); Model mt, mf; int r = decide(s, c, &mt, &mf); if (!(r & 1)) { S.assumed_out++; throw PathEnd{"assume"}; } assumeHere(s, c, false, mt); return true; });
  R("vs_check_", [](State &s, DInst &, std::vector<Val> &a, Val &) -> bool {
    std::string msg = cstr(s, a[1].c);
    if (!a[0].e) { if (!(a[0].c & 0xffffffff)) fail(s, "property", msg); return true; }
    Expr *c = mkNot(mkEq(a[0].e, mkC(32, 0))); Model mt, mf; int r = decide(s, c, &mt, &mf);
    if (r & 2) { violation(s, "property", msg, mf); if (!(r & 1)) throw PathEnd{"violation"}; assumeHere(s, c, false, mt); }
    else s.checks.push_back(c);
    return true; });
  R("vs_reach", [](State &s, DInst &, std::vector<Val> &a, Val &) { s.reach.push_back(cstr(s, a[0].c)); return true; });
  R("vs_observe", [](State &s, DInst &, std::vector<Val> &a, Val &) { Val v = a[1]; s.obs.push_back({cstr(s, a[0].c), v.e, v.c}); return true; });
  R("vs_concretize", [](State &s, DInst &, std::vector<Val> &a, Val &r) { r.c = concretize(s, a[0], 32); return true; });
  R("vs_is_symbolic_run", [](State &, DInst &, std::vector<Val> &, Val &r) { r.c = 1; return true; });
  R("vs_putc", [](State &s, DInst &, std::vector<Val> &a, Val &) { (void)s; (void)a; return true; });
}

// ---------------------------------------------------------------- interpreter
static Val binop(State &s, DInst &x, const Val &a, const Val &b) {
  K k; unsigned w = x.w;
  switch (x.op) {
    case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
    case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break;
    case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
    case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; default: k = K_ASHR;
  }
  if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
    if (!b.e) { if (!(b.c & maskw(w))) fail(s, "arith", "division by zero"); }
    else { Expr *nz = mkNot(mkEq(b.e, mkC(w, 0))); Model mt, mf; int r = decide(s, nz, &mt, &mf); if (r & 2) violation(s, "arith", "division by zero", mf); if (!(r & 1)) throw PathEnd{"violation"}; assumeHere(s, nz, false, mt); }
  }
  if (!a.e && !b.e) { bool ok; Val v; v.c = foldBin(k, w, a.c, b.c, ok); if (!ok) fail(s, "arith", "division overflow"); return v; }
  return mkV(mkBin(k, ex(a, w), ex(b, w)));
}
static Expr *icmpE(unsigned pred, Expr *a, Expr *b) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a)); case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
    case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a)); default: return mkNot(mkSlt(a, b));
  }
}
static bool icmpC(unsigned pred, u64 a, u64 b, unsigned w) {
  a &= maskw(w); b &= maskw(w); i64 x = sxt(a, w), y = sxt(b, w);
  switch (pred) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SLE: return x <= y; default: return x >= y; }
}
static bool fcmpC(unsigned p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) { case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_OEQ: return a == b; case CmpInst::FCMP_ONE: return !un && a != b; case CmpInst::FCMP_OLT: return a < b; case CmpInst::FCMP_OLE: return a <= b; case CmpInst::FCMP_OGT: return a > b; case CmpInst::FCMP_OGE: return a >= b;
    case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UNE: return a != b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UGT: return un || a > b; default: return un || a >= b; }
}
static Val fcmp(State &s, DInst &x, const Val &a, const Val &b) {
  Val v;
  if (!a.e && !b.e) {
    if (x.w2 == 32) { float f, g; u32 p = (u32)a.c, q = (u32)b.c; memcpy(&f, &p, 4); memcpy(&g, &q, 4); v.c = fcmpC(x.pred, f, g); } else v.c = fcmpC(x.pred, b2d(a.c), b2d(b.c));
    return v; }
  Expr *p = fpE(a), *q = fpE(b); Expr *r = mkFCmpP(p, q, fcmpC, x.pred);
  if (!r) { S.fphavoc++; r = freshVar(s, 1, "fpchoice", false, 0, 0); }
  return mkV(r);
}
static Val minmax(Val a, Val b, unsigned w, unsigned pred) { if (!a.e && !b.e) { Val v; v.c = icmpC(pred, a.c, b.c, w) ? a.c : b.c; return v; } Expr *x = ex(a, w), *y = ex(b, w); return mkV(mkIte(icmpE(pred, x, y), x, y)); }

static bool intrinsic(State &s, DInst &x, std::vector<Val> &a, Val &r, Val *r2) {
  auto *F = x.callee; unsigned w = x.w;
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = resolve(s, a[0]), q = resolve(s, a[1]), z = concretize(s, a[2], 64); copyMem(s, d, q, z); return true; }
    case Intrinsic::memset: return EXT[extId("memset")](s, x, a, r);
    case Intrinsic::umax: r = minmax(a[0], a[1], w, CmpInst::ICMP_UGT); return true;
    case Intrinsic::umin: r = minmax(a[0], a[1], w, CmpInst::ICMP_ULT); return true;
    case Intrinsic::smax: r = minmax(a[0], a[1], w, CmpInst::ICMP_SGT); return true;
    case Intrinsic::smin: r = minmax(a[0], a[1], w, CmpInst::ICMP_SLT); return true;
    case Intrinsic::abs: { if (!a[0].e) { i64 v = sxt(a[0].c, w); r.c = (u64)(v < 0 ? -v : v) & maskw(w); } else r = mkV(mkIte(mkSlt(a[0].e, mkC(w, 0)), mkBin(K_SUB, mkC(w, 0), a[0].e), a[0].e)); return true; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; return true;
    case Intrinsic::is_constant: r.c = 0; return true;
    case Intrinsic::objectsize: r.c = ~0ULL; return true;
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
      u64 v = concretize(s, a[0], w) & maskw(w);
      if (F->getIntrinsicID() == Intrinsic::ctlz) { unsigned n = 0; while (n < w && !((v >> (w - 1 - n)) & 1)) n++; r.c = n; }
      else if (F->getIntrinsicID() == Intrinsic::cttz) { unsigned n = 0; while (n < w && !((v >> n) & 1)) n++; r.c = n; }
      else if (F->getIntrinsicID() == Intrinsic::ctpop) r.c = (u64)__builtin_popcountll(v);
      else { u64 z = 0; for (unsigned i = 0; i < w / 8; i++) z |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i); r.c = z; }
      return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      u64 sh = concretize(s, a[2], w) % w; if (F->getIntrinsicID() == Intrinsic::fshr) sh = (w - sh) % w; if (!sh) { r = F->getIntrinsicID() == Intrinsic::fshl ? a[0] : (concretize(s, a[2], w) % w == 0 ? a[1] : a[0]); return true; }
      r = mkV(mkBin(K_OR, mkBin(K_SHL, ex(a[0], w), mkC(w, sh)), mkBin(K_LSHR, ex(a[1], w), mkC(w, w - sh)))); return true; }
    case Intrinsic::usub_sat: r = mkV(mkIte(mkUlt(ex(a[0], w), ex(a[1], w)), mkC(w, 0), mkBin(K_SUB, ex(a[0], w), ex(a[1], w)))); return true;
    case Intrinsic::uadd_sat: { Expr *t = mkBin(K_ADD, ex(a[0], w), ex(a[1], w)); r = mkV(mkIte(mkUlt(t, ex(a[0], w)), mkC(w, maskw(w)), t)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      w = bitsOf(x.I->getOperand(0)->getType()); if (w == 64 && (F->getIntrinsicID() == Intrinsic::smul_with_overflow || F->getIntrinsicID() == Intrinsic::umul_with_overflow)) {
        u64 p = concretize(s, a[0], 64), q = concretize(s, a[1], 64); if (F->getIntrinsicID() == Intrinsic::umul_with_overflow) { unsigned __int128 z = (unsigned __int128)p * q; r.c = (u64)z; r2->c = (z >> 64) != 0; } else { i64 z; r2->c = __builtin_mul_overflow((i64)p, (i64)q, &z); r.c = (u64)z; } return true; }
      if (w >= 64) { Expr *p = ex(a[0], 64), *q = ex(a[1], 64); 
        switch (F->getIntrinsicID()) { case Intrinsic::uadd_with_overflow: { Expr *t = mkBin(K_ADD, p, q); r = mkV(t); *r2 = mkV(mkUlt(t, p)); return true; } case Intrinsic::usub_with_overflow: r = mkV(mkBin(K_SUB, p, q)); *r2 = mkV(mkUlt(p, q)); return true;
          default: { u64 pp = concretize(s, a[0], 64), qq = concretize(s, a[1], 64); i64 z; r2->c = F->getIntrinsicID() == Intrinsic::sadd_with_overflow ? __builtin_add_overflow((i64)pp, (i64)qq, &z) : __builtin_sub_overflow((i64)pp, (i64)qq, &z); r.c = (u64)z; return true; } } }
      bool sg = F->getIntrinsicID() == Intrinsic::sadd_with_overflow || F->getIntrinsicID() == Intrinsic::ssub_with_overflow || F->getIntrinsicID() == Intrinsic::smul_with_overflow; unsigned W = 2 * w > 64 ? 64 : 2 * w;
      Expr *p = sg ? mkSext(ex(a[0], w), W) : mkZext(ex(a[0], w), W), *q = sg ? mkSext(ex(a[1], w), W) : mkZext(ex(a[1], w), W);
      K k = (F->getIntrinsicID() == Intrinsic::sadd_with_overflow || F->getIntrinsicID() == Intrinsic::uadd_with_overflow) ? K_ADD : (F->getIntrinsicID() == Intrinsic::ssub_with_overflow || F->getIntrinsicID() == Intrinsic::usub_with_overflow) ? K_SUB : K_MUL;
      Expr *t = mkBin(k, p, q), *lo = mkExtract(t, 0, w); r = mkV(lo); *r2 = mkV(mkNot(mkEq(sg ? mkSext(lo, W) : mkZext(lo, W), t))); return true; }
    case Intrinsic::eh_typeid_for: r.c = (u64)selOf(clauseName(cast<Constant>(x.I->getOperand(0)))); return true;
    case Intrinsic::fabs: if (a[0].e) { r = mkV(mkFun(fpE(a[0]), [](double x) { return fabs(x); })); return true; } r.c = a[0].c & ~(1ULL << 63); return true;
    case Intrinsic::log: return EXT[extId("log")](s, x, a, r);
    case Intrinsic::sqrt: return EXT[extId("sqrt")](s, x, a, r);
    case Intrinsic::exp: return EXT[extId("exp")](s, x, a, r);
    case Intrinsic::pow: return EXT[extId("pow")](s, x, a, r);
    case Intrinsic::floor: return EXT[extId("floor")](s, x, a, r);
    case Intrinsic::ceil: return EXT[extId("ceil")](s, x, a, r);
    case Intrinsic::log2: return EXT[extId("log2")](s, x, a, r);
    case Intrinsic::fmuladd: case Intrinsic::fma: { if (!a[0].e && !a[1].e && !a[2].e) { r.c = d2b(b2d(a[0].c) * b2d(a[1].c) + b2d(a[2].c)); return true; } if (F->getIntrinsicID() == Intrinsic::fma) fatal("symbolic fma"); r = mkV(mkFAdd(mkFMul(fpE(a[0]), fpE(a[1])), fpE(a[2]))); return true; }
    case Intrinsic::maxnum: case Intrinsic::minnum: if (!a[0].e && !a[1].e) { double p = b2d(a[0].c), q = b2d(a[1].c); r.c = d2b(F->getIntrinsicID() == Intrinsic::maxnum ? fmax(p, q) : fmin(p, q)); return true; } r = mkV(F->getIntrinsicID() == Intrinsic::maxnum ? mkFun2(fpE(a[0]), fpE(a[1]), [](double x, double y) { return fmax(x, y); }) : mkFun2(fpE(a[0]), fpE(a[1]), [](double x, double y) { return fmin(x, y); })); return true;
    case Intrinsic::trap: fail(s, "abort", "trap");
    case Intrinsic::stacksave: r.c = 0; return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::vastart: case Intrinsic::vaend: return true;
    case Intrinsic::threadlocal_address: r = a[0]; return true;
    default: fatal("intrinsic " + F->getName().str());
  }
}

static void finish(State &s) {
  if (O.splitN > 1 && s.forks < O.splitD && !mine(s.hash)) { S.dropped++; return; }
  S.paths++;
  S.checks += s.checks.size();
  if (!s.checks.empty() && O.finalEvery && S.paths % O.finalEvery == 0) {
    // the obligation of this path, as one SMT query: path condition and some check false
    Expr *all = mkC(1, 1); for (auto *c : s.checks) all = mkBin(K_AND, all, c);
    if (!isC(all)) { ZZ.finals++; int r = solve(s, mkNot(all), nullptr); if (r == 1) die("a check that was decided to hold is refutable"); }
  }
  std::set<std::string> seen; for (auto &r : s.reach) if (seen.insert(r).second) S.reach[r]++;
  u64 h = s.hash * 0x9e3779b97f4a7c15ULL + O.seed * 1000003; h ^= h >> 31;
  bool fp = S.fphavoc > 0;
  if (!s.uninit) {
    // reservoir of path witnesses
    std::string j = "{\"fp\":" + std::string(fp ? "true" : "false") + ",\"inputs\":" + inputsJson(s, *s.model) + ",\"obs\":" + obsJson(s, *s.model) + ",\"reach\":[";
    bool f = true; for (auto &r : s.reach) { if (!f) j += ","; f = false; j += "\"" + jesc(r) + "\""; }
    j += "],\"pc\":" + std::to_string(s.pc.size()) + "}";
    if ((int)SAMPLES.size() < O.samples) SAMPLES.push_back(j); else { u64 k = h % S.paths; if (k < (u64)O.samples) SAMPLES[k] = j; }
  }
}

// a path that could not be followed to its end: its inputs so far, completed and replayed natively
static std::vector<std::string> PARTIALS; static u64 NPARTIAL = 0;
static void partial(State &s) {
  NPARTIAL++; std::string j = "{\"inputs\":" + inputsJson(s, *s.model) + "}"; u64 h = s.hash * 0x9e3779b97f4a7c15ULL + O.seed * 1000003; h ^= h >> 31;
  if (PARTIALS.size() < 12) PARTIALS.push_back(j); else { u64 k = h % NPARTIAL; if (k < 12) PARTIALS[k] = j; }
}

static void enter(State &s, Function *F, std::vector<Val> &args) {
  DFunc *d = getD(F); if (s.st.size() > 2000) fail(s, "resource", "stack overflow (recursion)");
  d->calls++; s.st.emplace_back(); Frame &f = s.st.back(); f.f = d; f.r = d->tmpl; size_t k = 0;
  for (size_t i = 0; i < d->args.size(); i++) { unsigned n = slotsOf(F->getArg((unsigned)i)->getType()); for (unsigned j = 0; j < n; j++) f.r[d->args[i] + j] = args[k++]; }
}

static void run(State &s) {
  std::vector<Val> args;
  for (;;) {
    Frame &f = s.st.back(); DInst &x = f.f->code[f.pc]; Val *r = f.r.data();
    s.ninst++; S.insts++;
    if (s.ninst > O.maxInst) fail(s, "resource", "instruction budget of one path exhausted (non-termination?)");
    if (O.trace > 1) { std::string t; raw_string_ostream os(t); x.I->print(os); fprintf(stderr, "%s |%s\n", f.f->dname.c_str(), os.str().c_str()); }
    switch (x.op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Val v = binop(s, x, r[x.ops[0]], r[x.ops[1]]); r[x.dst] = v; f.pc++; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Val a = r[x.ops[0]], b = r[x.ops[1]]; Val v;
        if (!a.e && !b.e) {
          if (x.w == 32) { float p, q, z; u32 u = (u32)a.c, t = (u32)b.c; memcpy(&p, &u, 4); memcpy(&q, &t, 4); z = x.op == Instruction::FAdd ? p + q : x.op == Instruction::FSub ? p - q : x.op == Instruction::FMul ? p * q : p / q; memcpy(&u, &z, 4); v.c = u; }
          else { double p = b2d(a.c), q = b2d(b.c); v.c = d2b(x.op == Instruction::FAdd ? p + q : x.op == Instruction::FSub ? p - q : x.op == Instruction::FMul ? p * q : x.op == Instruction::FDiv ? p / q : fmod(p, q)); }
        } else { Expr *p = fpE(a), *q = fpE(b); v = mkV(x.op == Instruction::FAdd ? mkFAdd(p, q) : x.op == Instruction::FSub ? mkFSub(p, q) : x.op == Instruction::FMul ? mkFMul(p, q) : mkFDiv(p, q)); }
        r[x.dst] = v; f.pc++; break; }
      case Instruction::FNeg: { Val a = r[x.ops[0]]; if (a.e) r[x.dst] = mkV(mkFNeg(fpE(a))); else { r[x.dst].e = nullptr; r[x.dst].c = x.w == 32 ? a.c ^ 0x80000000u : a.c ^ (1ULL << 63); } f.pc++; break; }
      case Instruction::ICmp: {
        Val a = r[x.ops[0]], b = r[x.ops[1]]; Val v;
        if (!a.e && !b.e) v.c = icmpC(x.pred, a.c, b.c, x.w2);
        else { Expr *p = ex(a, x.w2), *q = ex(b, x.w2); if (p->fp) p = intView(p); if (q->fp) q = intView(q); v = mkV(icmpE(x.pred, p, q)); }
        r[x.dst] = v; f.pc++; break; }
      case Instruction::FCmp: { Val v = fcmp(s, x, r[x.ops[0]], r[x.ops[1]]); r[x.dst] = v; f.pc++; break; }
      case Instruction::Trunc: { Val a = r[x.ops[0]]; if (a.e) r[x.dst] = mkV(mkExtract(intView(a.e), 0, x.w)); else { r[x.dst].e = nullptr; r[x.dst].c = a.c & maskw(x.w); } f.pc++; break; }
      case Instruction::ZExt: { Val a = r[x.ops[0]]; if (a.e) r[x.dst] = mkV(mkZext(a.e, x.w)); else { r[x.dst].e = nullptr; r[x.dst].c = a.c & maskw(x.w2); } f.pc++; break; }
      case Instruction::SExt: { Val a = r[x.ops[0]]; if (a.e) r[x.dst] = mkV(mkSext(a.e, x.w)); else { r[x.dst].e = nullptr; r[x.dst].c = (u64)sxt(a.c, x.w2) & maskw(x.w); } f.pc++; break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = r[x.ops[0]]; if (a.e) { if (x.w < x.w2) a = mkV(mkExtract(a.e, 0, x.w)); else if (x.w > x.w2) a = mkV(mkZext(a.e, x.w)); } else a.c &= maskw(x.w); r[x.dst] = a; f.pc++; break; }
      case Instruction::BitCast: { Val a = r[x.ops[0]]; if (a.e) { if (x.fp && !a.e->fp) a.e = fpE(a); } r[x.dst] = a; f.pc++; break; }
      case Instruction::Freeze: for (unsigned i = 0; i < x.nslots; i++) r[x.dst + i] = r[x.ops[0] + i]; f.pc++; break;
      case Instruction::FPExt: case Instruction::FPTrunc: {
        Val a = r[x.ops[0]]; unsigned sw = x.w2, dw = x.w; if (a.e) { r[x.dst] = a; f.pc++; break; }
        if (sw == 32 && dw == 64) { float t; u32 b = (u32)a.c; memcpy(&t, &b, 4); a.c = d2b(t); } else if (sw == 64 && dw == 32) { float t = (float)b2d(a.c); u32 b; memcpy(&b, &t, 4); a.c = b; }
        r[x.dst] = a; f.pc++; break; }
      case Instruction::SIToFP: case Instruction::UIToFP: {
        Val a = r[x.ops[0]]; bool sg = x.op == Instruction::SIToFP; Val v;
        if (a.e) v = mkV(mkFromInt(a.e, sg)); else { double dd = sg ? (double)sxt(a.c, x.w2) : (double)(a.c & maskw(x.w2)); if (x.w == 32) { float t = sg ? (float)sxt(a.c, x.w2) : (float)(a.c & maskw(x.w2)); u32 b; memcpy(&b, &t, 4); v.c = b; } else v.c = d2b(dd); }
        r[x.dst] = v; f.pc++; break; }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        Val a = r[x.ops[0]]; Val v;
        if (a.e) { Expr *e = mkFToInt(fpE(a), x.w, x.op == Instruction::FPToSI); if (!e) { S.fphavoc++; e = freshVar(s, x.w, "fptosi", false, 0, 0); } v = mkV(e); }
        else { double dd; if (x.w2 == 32) { float t; u32 b = (u32)a.c; memcpy(&t, &b, 4); dd = t; } else dd = b2d(a.c); v.c = (x.op == Instruction::FPToSI ? (u64)(i64)dd : (u64)dd) & maskw(x.w); }
        r[x.dst] = v; f.pc++; break; }
      case Instruction::Select: {
        Val c = r[x.ops[0]];
        if (!c.e) { u32 src = (c.c & 1) ? x.ops[1] : x.ops[2]; for (unsigned i = 0; i < x.nslots; i++) r[x.dst + i] = r[src + i]; }
        else if (x.nslots == 1 && x.w == 64 && !x.fp && known(s, c.e) < 0 && (x.I->getType()->isPointerTy() || (!r[x.ops[1]].e && !r[x.ops[2]].e))) {
          // addresses and sizes are not kept symbolic: fork
          Model mt, mf; int d = decide(s, c.e, &mt, &mf); if (!d) throw PathEnd{"infeasible"};
          if (d == 3) { pushOther(s, mkNot(c.e), mf); assumeHere(s, c.e, true, mt); } else addKnown(s, d == 1 ? c.e : mkNot(c.e));
          Frame &g = s.st.back(); g.r[x.dst] = g.r[(d & 1) ? x.ops[1] : x.ops[2]]; g.pc++; break; }
        else for (unsigned i = 0; i < x.nslots; i++) {
          Val a = r[x.ops[1] + i], b = r[x.ops[2] + i]; int kn = known(s, c.e);
          if (kn >= 0) { r[x.dst + i] = kn ? a : b; continue; }
          unsigned w = x.w ? x.w : 64;
          if (x.fp || (a.e && a.e->fp) || (b.e && b.e->fp)) r[x.dst + i] = mkV(mkFIte(c.e, fpE(a), fpE(b)));
          else r[x.dst + i] = mkV(mkIte(c.e, ex(a, a.e ? a.e->w : b.e ? b.e->w : w), ex(b, b.e ? b.e->w : a.e ? a.e->w : w)));
        }
        f.pc++; break; }
      case Instruction::ExtractValue: for (unsigned i = 0; i < x.nslots; i++) r[x.dst + i] = r[x.ops[0] + i]; f.pc++; break;
      case Instruction::InsertValue: { for (unsigned i = 0; i < x.nslots; i++) r[x.dst + i] = r[x.ops[0] + i]; for (unsigned i = 0; i < x.sz; i++) r[x.dst + (u32)x.goff + i] = r[x.ops[1] + i]; f.pc++; break; }
      case Instruction::GetElementPtr: {
        Val b = r[x.ops[0]]; u64 c = (u64)x.goff; Expr *se = nullptr;
        for (size_t i = 0; i < x.gidx.size(); i++) { Val v = r[x.gidx[i].first]; if (!v.e) c += (u64)(sxt(v.c, x.gw[i]) * x.gidx[i].second); else { Expr *t = mkBin(K_MUL, mkSext(v.e, 64), mkC(64, (u64)x.gidx[i].second)); se = se ? mkBin(K_ADD, se, t) : t; } }
        if (!b.e && !se) { r[x.dst].c = b.c + c; r[x.dst].e = nullptr; }
        else { Expr *t = ex(b, 64); if (se) t = mkBin(K_ADD, t, se); t = mkBin(K_ADD, t, mkC(64, c)); r[x.dst] = mkV(t); }
        f.pc++; break; }
      case Instruction::Alloca: { u64 n = concretize(s, r[x.ops[0]], 64) & 0xffffffff; u64 a = alloc(s, x.sz * n, 1, 0); Frame &g = s.st.back(); g.allocas.push_back((u32)(a >> 32)); g.r[x.dst].c = a; g.r[x.dst].e = nullptr; g.pc++; break; }
      case Instruction::Load: {
        Val p = r[x.ops[0]];
        if (p.e && x.parts.size() == 1) { Val o; if (tableLoad(s, p, x.parts[0].w, o)) { r[x.dst] = o; f.pc++; break; } }
        u64 a = resolve(s, p); unsigned i = 0; for (auto &q : x.parts) r[x.dst + i++] = loadVal(s, a + q.off, q.w, q.fp); f.pc++; break; }
      case Instruction::Store: { u64 a = resolve(s, r[x.ops[1]]); unsigned i = 0; for (auto &q : x.parts) storeVal(s, a + q.off, r[x.ops[0] + i++], q.w); f.pc++; break; }
      case Instruction::AtomicRMW: {
        u64 a = resolve(s, r[x.ops[0]]); Val o = loadVal(s, a, x.w, false), n = r[x.ops[1]], v; 
        switch (x.pred) { case AtomicRMWInst::Add: v = mkV(mkBin(K_ADD, ex(o, x.w), ex(n, x.w))); break; case AtomicRMWInst::Sub: v = mkV(mkBin(K_SUB, ex(o, x.w), ex(n, x.w))); break; case AtomicRMWInst::Xchg: v = n; break; default: fatal("atomicrmw"); }
        storeVal(s, a, v, x.w); r[x.dst] = o; f.pc++; break; }
      case Instruction::Fence: f.pc++; break;
      case Instruction::Br: {
        if (x.ops.empty()) { applyEdge(f, x.edges[0]); break; }
        Val c = r[x.ops[0]];
        if (!c.e) { applyEdge(f, x.edges[(c.c & 1) ? 0 : 1]); break; }
        Model mt, mf; int d = decide(s, c.e, &mt, &mf);
        if (d == 3) {
          // clone takes the false side
          State *o = cloneState(s); S.forks++; addPC(*o, mkNot(c.e)); o->model = mf; applyEdge(o->st.back(), x.edges[1]);
          if (bump(*o, false)) WORK.push_back(o); else { S.dropped++; delete o; }
          assumeHere(s, c.e, true, mt); applyEdge(s.st.back(), x.edges[0]);
        } else if (d == 1) { addKnown(s, c.e); applyEdge(f, x.edges[0]); }
        else if (d == 2) { addKnown(s, mkNot(c.e)); applyEdge(f, x.edges[1]); }
        else { throw PathEnd{"infeasible"}; }
        break; }
      case Instruction::Switch: { u64 v = concretize(s, r[x.ops[0]], x.w) & maskw(x.w); unsigned k = 0; for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i] == v) { k = (unsigned)i + 1; break; } applyEdge(s.st.back(), x.edges[k]); break; }
      case Instruction::Ret: {
        Val rv[16]; unsigned n = 0; if (!x.ops.empty()) { n = slotsOf(x.I->getOperand(0)->getType()); for (unsigned i = 0; i < n; i++) rv[i] = r[x.ops[0] + i]; }
        popFrame(s);
        if (s.st.empty()) return;
        Frame &g = s.st.back(); DInst &c = g.f->code[g.pc]; for (unsigned i = 0; i < n && i < c.nslots; i++) g.r[c.dst + i] = rv[i];
        if (c.op == Instruction::Invoke) applyEdge(g, c.edges[0]); else g.pc++;
        break; }
      case Instruction::Call: case Instruction::Invoke: {
        Function *F = x.callee; unsigned k = 0;
        if (!F && x.ext < 0) { u64 a = resolve(s, r[x.ops[0]]); auto it = FADDR.find(a); if (it == FADDR.end()) fail(s, "memory", "call through a bad function pointer"); F = it->second; k = 1; }
        args.clear(); { auto *cb = cast<CallBase>(x.I); for (unsigned i = 0; i < cb->arg_size(); i++) { unsigned n = slotsOf(cb->getArgOperand(i)->getType()); if (cb->getArgOperand(i)->getType()->isMetadataTy()) continue; for (unsigned j = 0; j < n; j++) args.push_back(r[x.ops[k + i] + j]); } }
        int e = x.callee || x.ext >= 0 ? x.ext : (F ? (extId(F->getName().str()) >= 0 ? extId(F->getName().str()) : F->isDeclaration() ? -2 : -1) : -1);
        if (e >= 0) {
          Val rv; std::vector<Val> ar = args; 
          if (!EXT[e](s, x, ar, rv)) break; // control transferred
          Frame &g = s.st.back(); if (x.nslots) g.r[x.dst] = rv; if (x.op == Instruction::Invoke) applyEdge(g, x.edges[0]); else g.pc++;
          break; }
        if (F->isIntrinsic()) { Val rv, rv2; std::vector<Val> ar = args; intrinsic(s, x, ar, rv, &rv2); Frame &g = s.st.back(); if (x.nslots) g.r[x.dst] = rv; if (x.nslots > 1) g.r[x.dst + 1] = rv2; if (x.op == Instruction::Invoke) applyEdge(g, x.edges[0]); else g.pc++; break; }
        if (e == -2) fatal("call to an external function without a model: " + F->getName().str() + " (" + demangle(F->getName().str()) + ") from " + f.f->dname);
        if (getD(F)->hash) { DF[F]->calls++; Frame &g = s.st.back(); g.r[x.dst] = Val(); if (x.op == Instruction::Invoke) applyEdge(g, x.edges[0]); else g.pc++; break; } // any constant is a valid hash
        enter(s, F, args); break; }
      case Instruction::Resume: { u64 obj = r[x.ops[0]].c; Exc e; if (!s.excs.empty()) { e = s.excs.back(); s.excs.pop_back(); } else e.obj = obj; popFrame(s); unwind(s, e); if (s.st.empty()) fail(s, "exception", "uncaught exception " + demangle(e.name)); break; }
      case Instruction::Unreachable: fail(s, "ub", "unreachable code reached (undefined behaviour)");
      default: { std::string t; raw_string_ostream os(t); x.I->print(os); fatal("unsupported instruction" + os.str()); }
    }
  }
}

static void onTerm(int) { S.incomplete = "terminated"; O.timeLimit = 0; }

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--time") O.timeLimit = atof(nx().c_str()); else if (a == "--maxinst") O.maxInst = strtoull(nx().c_str(), 0, 10);
    else if (a == "--maxpaths") O.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--split") { std::string t = nx(); sscanf(t.c_str(), "%d/%d", &O.splitK, &O.splitN); } else if (a == "--split-depth") O.splitD = atoi(nx().c_str());
    else if (a == "--param") O.params.push_back(atoll(nx().c_str())); else if (a == "--max-viol") O.maxViol = atoi(nx().c_str()); else if (a == "--samples") O.samples = atoi(nx().c_str()); else if (a == "--seed") O.seed = (unsigned)atoi(nx().c_str());
    else if (a == "--trace") O.trace = atoi(nx().c_str()); else if (a == "--final-every") O.finalEvery = strtoull(nx().c_str(), 0, 10); else if (a == "--bv") O.bvOnly = true; else if (a == "--no-order") O.noOrder = true; else if (a == "--real-hash") O.stubHash = false; else if (a == "--buckets") { O.buckets = true; O.stubHash = false; } else if (a == "--rand") O.randSym = (u32)atoi(nx().c_str()); else if (a == "--xcheck") O.xcheck = strtoull(nx().c_str(), 0, 10); else if (a == "--repo") O.repo = nx(); else if (a == "--dump-smt") { O.dumpsmt = nx(); O.crosscheck = true; } else if (a[0] != '-') O.file = a; else fatal("option " + a);
  }
  T0 = Clk::now(); signal(SIGTERM, onTerm);
  ZB.init(false); ZI.init(true); if (!O.dumpsmt.empty()) ZZ.dump = fopen(O.dumpsmt.c_str(), "w");
  registerExternals();
  SMDiagnostic err; M = parseIRFile(O.file, err, CTX); if (!M) { err.print("vsym", errs()); return 3; }
  DL = &M->getDataLayout();
  State *init = new State; init->model = std::make_shared<ModelMap>();
  u32 fi = 0; for (auto &F : *M) { u64 a = (u64)(0x40000000u + fi++) << 32; GADDR[&F] = a; FADDR[a] = &F; ADDRG[a] = &F; }
  for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration()) sz = std::max<u64>(sz, 512); u64 a = (u64)init->mem.add(Obj::make((u32)sz, 2, 1)) << 32; GADDR[&g] = a; ADDRG[a] = &g; }
  for (auto &g : M->globals()) {
    Obj *o = init->mem.get((u32)(GADDR[&g] >> 32));
    if (g.hasInitializer()) initGlobal(o->data, g.getInitializer()); else if (g.getName() == "__libc_single_threaded") o->data[0] = 1;
    if (g.isConstant()) o->ro = true;
  }
  Function *E = M->getFunction(O.entry); if (!E || E->isDeclaration()) die("no entry " + O.entry);
  auto runAll = [&](State *s0) {
    WORK.push_back(s0);
    while (!WORK.empty()) {
      State *s = WORK.back(); WORK.pop_back();
      if (since(T0) > O.timeLimit) { if (S.incomplete.empty()) S.incomplete = "time limit"; partial(*s); for (size_t i = 0; i < WORK.size() && i < 40; i++) partial(*WORK[i * WORK.size() / std::min<size_t>(40, WORK.size())]); delete s; break; }
      if (S.paths >= O.maxPaths) { S.incomplete = "path limit"; delete s; break; }
      bool ok = false;
      try { run(*s); ok = true; } catch (PathEnd &e) { if (!strcmp(e.why, "infeasible")) S.pruned++; if (!strcmp(e.why, "unsupported")) partial(*s); }
      if (ok) try { finish(*s); } catch (PathEnd &) {}
      delete s;
      if ((int)VIOL.size() >= O.maxViol || S.viol >= 200) { S.incomplete = "stopped after violations"; break; }
    }
  };
  // static constructors, then the entry, on one path
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v; for (auto &op : ca->operands()) { auto *st = cast<ConstantStruct>(op.get()); if (auto *F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) { std::vector<Val> none; enter(*init, p.second, none); RUNNING = true; try { run(*init); } catch (PathEnd &) { UNSUPPORTED["a static constructor could not be executed"]++; init->st.clear(); } RUNNING = false; }
  }
  std::vector<Val> none; enter(*init, E, none); init->ninst = 0;
  RUNNING = true; runAll(init); RUNNING = false;
  if (!UNSUPPORTED.empty() && S.incomplete.empty()) S.incomplete = "unsupported: " + UNSUPPORTED.begin()->first;
  // report
  FILE *f = fopen(O.out.c_str(), "w"); if (!f) die("cannot write " + O.out);
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"assumed_out\":%llu,\"dropped\":%llu,\"maxforks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"order_sat\":%llu,\"order_unsat\":%llu,\"order_crosschecked\":%llu,\"int_queries\":%llu,\"final_queries\":%llu,\"symbolic_checks\":%llu,\"solver_s\":%.3f,\"max_query_ms\":%.2f,\"wall_s\":%.3f,\"rss_mb\":%ld,\"fp_havoc\":%llu,\"pending\":%zu,\n\"incomplete\":\"%s\",\n\"reach\":{",
          (unsigned long long)S.paths, (unsigned long long)S.forks, (unsigned long long)S.insts, (unsigned long long)S.assumed_out, (unsigned long long)S.dropped, (unsigned long long)S.maxforks, (unsigned long long)ZZ.queries, (unsigned long long)ZZ.sat, (unsigned long long)ZZ.unsat, (unsigned long long)ZZ.unknown, (unsigned long long)ZZ.osat, (unsigned long long)ZZ.ounsat, (unsigned long long)ZZ.occ, (unsigned long long)ZZ.intq, (unsigned long long)ZZ.finals, (unsigned long long)S.checks, ZZ.time, ZZ.maxq_us / 1e3, since(T0), ru.ru_maxrss / 1024, (unsigned long long)S.fphavoc, WORK.size(), jesc(S.incomplete).c_str());
  bool first = true; for (auto &p : S.reach) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n\"functions\":{"); first = true;
  for (auto &p : DF) if (p.second->repo && p.second->calls) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",\n ", jesc(p.second->dname).c_str(), (unsigned long long)p.second->calls); first = false; }
  fprintf(f, "},\n\"violations\":["); first = true;
  for (auto &v : VIOL) { fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"site\":\"%s\",\"where\":\"%s\",\"count\":%llu,\"uninit\":%s,\"alts\":[%s],\"inputs\":%s,\"obs\":%s}", first ? "" : ",\n ", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.extra).c_str(), jesc(v.where).c_str(), (unsigned long long)v.count, v.uninit ? "true" : "false", [&]() { std::string r; for (auto &a : v.alts) r += (r.empty() ? "" : ",") + a; return r; }().c_str(), v.inputs.c_str(), v.obs.c_str()); first = false; }
  fprintf(f, "],\n\"samples\":["); first = true; for (auto &x : SAMPLES) { fprintf(f, "%s%s", first ? "" : ",\n ", x.c_str()); first = false; }
  fprintf(f, "],\n\"partial\":["); first = true; for (auto &x : PARTIALS) { fprintf(f, "%s%s", first ? "" : ",\n ", x.c_str()); first = false; }
  fprintf(f, "],\"npartial\":%llu}\n", (unsigned long long)NPARTIAL); fclose(f); if (ZZ.dump) fclose(ZZ.dump);
  fflush(nullptr); _exit(0);
}
