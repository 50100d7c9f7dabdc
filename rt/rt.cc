// Bitcode runtime for symbolic runs: the parts of libstdc++/libc that live in
// shared libraries, reduced to what the code under test can observe.
// Everything that is a template in the headers is compiled from the headers.
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <utility>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <unordered_map>
#include "vsym.h"

template class std::basic_string<char>;

extern "C" void *__dso_handle = nullptr;

// ---- unordered containers: one bucket, so that lookups compare keys directly
// (any hash function is a correct refinement of this one; the iteration order
// it induces is one of the unspecified orders); with --buckets, for runs over
// large fixed data, as many as there are elements
static bool buckets() { return vs_param(1000, 0); }
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return buckets() && n > 1 ? n | 1 : 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t n, std::size_t k) const { if (!buckets() || n + k <= b) return std::make_pair(false, (std::size_t)0); return std::make_pair(true, std::max(2 * b + 1, (n + k) | 1)); }
} }
namespace std { size_t _Hash_bytes(const void *, size_t, size_t) { return 0; } }

// ---- red-black tree helpers (an unbalanced search tree observes the same order)
namespace std {
static _Rb_tree_node_base *inc_(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *dec_(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc_(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc_(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec_(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec_(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (h._M_left == z) { h._M_left = z->_M_right ? z->_M_right : z->_M_parent; if (z->_M_right) while (h._M_left->_M_left) h._M_left = h._M_left->_M_left; }
  if (h._M_right == z) { h._M_right = z->_M_left ? z->_M_left : z->_M_parent; if (z->_M_left) while (h._M_right->_M_right) h._M_right = h._M_right->_M_right; }
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) swap(y, x);
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
}

// ---- character classification in the "C" locale, without branches
extern "C" {
static inline int rng(int c, int lo, int hi) { return (int)((unsigned)(c - lo) <= (unsigned)(hi - lo)); }
int isdigit(int c) { return rng(c, '0', '9'); }
int isupper(int c) { return rng(c, 'A', 'Z'); }
int islower(int c) { return rng(c, 'a', 'z'); }
int isalpha(int c) { return rng(c, 'A', 'Z') | rng(c, 'a', 'z'); }
int isalnum(int c) { return rng(c, '0', '9') | rng(c, 'A', 'Z') | rng(c, 'a', 'z'); }
int isspace(int c) { return rng(c, 9, 13) | (int)(c == ' '); }
int isblank(int c) { return (int)(c == ' ') | (int)(c == 9); }
int ispunct(int c) { return rng(c, 33, 126) & (isalnum(c) ^ 1); }
int isprint(int c) { return rng(c, 32, 126); }
int isgraph(int c) { return rng(c, 33, 126); }
int iscntrl(int c) { return rng(c, 0, 31) | (int)(c == 127); }
int isxdigit(int c) { return rng(c, '0', '9') | rng(c, 'A', 'F') | rng(c, 'a', 'f'); }
int tolower(int c) { return c + 32 * rng(c, 'A', 'Z'); }
int toupper(int c) { return c - 32 * rng(c, 'a', 'z'); }
int vs_strcmp(const char *a, const char *b) asm("strcmp");
int vs_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int vs_strncmp(const char *a, const char *b, size_t n) asm("strncmp");
int vs_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char *vs_strchr(const char *a, int c) asm("strchr");
char *vs_strchr(const char *a, int c) { for (;; a++) { if (*a == (char)c) return (char *)a; if (!*a) return nullptr; } }
char *vs_strrchr(const char *a, int c) asm("strrchr");
char *vs_strrchr(const char *a, int c) { const char *r = nullptr; for (;; a++) { if (*a == (char)c) r = a; if (!*a) return (char *)r; } }
char *vs_strcpy(char *d, const char *a) asm("strcpy");
char *vs_strcpy(char *d, const char *a) { char *r = d; while ((*d++ = *a++)) {} return r; }
char *vs_strcat(char *d, const char *a) asm("strcat");
char *vs_strcat(char *d, const char *a) { char *r = d; while (*d) d++; while ((*d++ = *a++)) {} return r; }
static int vs_errno; int *__errno_location() { return &vs_errno; }
static long vs_parse(const char *s, char **e, int base, long lo, long hi) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = *p == '-'; if (*p == '-' || *p == '+') p++; const char *st = p; unsigned long v = 0; bool over = false;
  if (base == 0) base = 10;
  for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (d >= base) break; if (v > (0x7fffffffffffffffUL - 40) / (unsigned long)base) over = true; else v = v * (unsigned long)base + (unsigned long)d; }
  if (e) *e = (char *)(p == st ? s : p); long r = neg ? -(long)v : (long)v; if (over) { vs_errno = 34; return neg ? lo : hi; } return r; }
long vs_strtol(const char *s, char **e, int b) asm("strtol"); long vs_strtol(const char *s, char **e, int b) { return vs_parse(s, e, b, -0x7fffffffffffffffL - 1, 0x7fffffffffffffffL); }
long vs_strtol2(const char *s, char **e, int b) asm("__isoc23_strtol"); long vs_strtol2(const char *s, char **e, int b) { return vs_parse(s, e, b, -0x7fffffffffffffffL - 1, 0x7fffffffffffffffL); }
long vs_strtoll(const char *s, char **e, int b) asm("strtoll"); long vs_strtoll(const char *s, char **e, int b) { return vs_parse(s, e, b, -0x7fffffffffffffffL - 1, 0x7fffffffffffffffL); }
unsigned long vs_strtoul(const char *s, char **e, int b) asm("strtoul"); unsigned long vs_strtoul(const char *s, char **e, int b) { return (unsigned long)vs_parse(s, e, b, -1, -1); }
int vs_atoi(const char *s) asm("atoi"); int vs_atoi(const char *s) { return (int)vs_parse(s, nullptr, 10, 0, 0); }
void *vs_memchr(const void *p, int c, size_t n) asm("memchr");
void *vs_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return nullptr; }
}

// ---- output streams: text written to vs_ostream() is kept, the rest is dropped.
// The object only has the fields that inlined code of <ostream> reads.
struct FakeStream { void **vptr; uint64_t pad0[3]; int flags; int exc; int state; int state2; char pad[192]; void *ctype; char pad2[64]; std::string *sink; };
struct FakeCtype { void *vptr; char pad[48]; char widen_ok; char widen[256]; char rest[300]; };
static FakeCtype fctype = {};
static void *fvt[6] = {0, 0, 0, 0, 0, 0};
extern "C" { extern FakeStream vs_fake_cout asm("_ZSt4cout"); extern FakeStream vs_fake_cerr asm("_ZSt4cerr"); extern FakeStream vs_fake_clog asm("_ZSt4clog"); }
FakeStream vs_fake_cout, vs_fake_cerr, vs_fake_clog;
static FakeStream fcap;
static std::string *captext;
static void setup(FakeStream &f) { f.vptr = &fvt[3]; f.ctype = &fctype; f.pad0[0] = 6; }
struct StreamInit { StreamInit() { fctype.widen_ok = 1; for (int i = 0; i < 256; i++) fctype.widen[i] = (char)i; setup(vs_fake_cout); setup(vs_fake_cerr); setup(vs_fake_clog); setup(fcap); captext = new std::string(); fcap.sink = captext; } };
__attribute__((init_priority(101))) static StreamInit stream_init;
std::ostream &vs_ostream() { captext->clear(); return *(std::ostream *)(void *)&fcap; }
std::string vs_ostream_text() { return *captext; }
static void emit(void *o, const char *s, size_t n) { std::string *k = ((FakeStream *)o)->sink; if (k) k->append(s, n); }
std::ostream *vs_ss_new(std::string *sink) { FakeStream *f = new FakeStream(); setup(*f); f->sink = sink; return (std::ostream *)(void *)f; }
void vs_ss_free(std::ostream *o) { delete (FakeStream *)(void *)o; }
extern "C" void vs_fmt_double(char *b, double d, int prec, int flags);
extern "C" {
void *ost_insert(void *o, const char *s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void *ost_insert(void *o, const char *s, long n) { emit(o, s, (size_t)n); return o; }
void *ost_cstr(void *o, const char *s) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void *ost_cstr(void *o, const char *s) { emit(o, s, strlen(s)); return o; }
void *ost_char(void *o, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void *ost_char(void *o, char c) { emit(o, &c, 1); return o; }
void *ost_str(void *o, const std::string &s) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void *ost_str(void *o, const std::string &s) { emit(o, s.data(), s.size()); return o; }
void *ost_put(void *o, char c) asm("_ZNSo3putEc");
void *ost_put(void *o, char c) { emit(o, &c, 1); return o; }
void *ost_flush(void *o) asm("_ZNSo5flushEv");
void *ost_flush(void *o) { return o; }
void *ost_int(void *o, int v) asm("_ZNSolsEi");
void *ost_int(void *o, int v) { if (((FakeStream *)o)->sink) { std::string t = std::to_string(v); emit(o, t.data(), t.size()); } return o; }
void *ost_l(void *o, long v) asm("_ZNSo9_M_insertIlEERSoT_");
void *ost_l(void *o, long v) { if (((FakeStream *)o)->sink) { std::string t = std::to_string(v); emit(o, t.data(), t.size()); } return o; }
void *ost_ul(void *o, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_");
void *ost_ul(void *o, unsigned long v) { if (((FakeStream *)o)->sink) { std::string t = std::to_string(v); emit(o, t.data(), t.size()); } return o; }
void *ost_d(void *o, double) asm("_ZNSo9_M_insertIdEERSoT_");
void *ost_d(void *o, double d) { FakeStream *f = (FakeStream *)o; if (f->sink) { char b[400]; vs_fmt_double(b, d, (int)f->pad0[0], f->flags); emit(o, b, strlen(b)); } return o; }
void *ost_b(void *o, bool) asm("_ZNSo9_M_insertIbEERSoT_");
void *ost_b(void *o, bool b) { char c = b ? '1' : '0'; emit(o, &c, 1); return o; }
void *ost_sh(void *o, short v) asm("_ZNSolsEs");
void *ost_sh(void *o, short v) { return ost_int(o, v); }
void ios_init() asm("_ZSt21ios_base_library_initv");
void ios_init() {}
}
