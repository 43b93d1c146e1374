// Hash-consed bit-vector expressions (width 1..64) with simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <cassert>

enum Op : uint8_t {
  O_Const, O_Var, O_Add, O_Sub, O_Mul, O_UDiv, O_SDiv, O_URem, O_SRem,
  O_And, O_Or, O_Xor, O_Shl, O_LShr, O_AShr,
  O_Not,                      // width 1 only
  O_Eq, O_Ult, O_Ule, O_Slt, O_Sle,
  O_Concat, O_Extract, O_ZExt, O_SExt, O_Ite
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
  uint8_t op, w, lo;
  uint32_t id;
  uint64_t v;                 // constant value, or variable index
  const Expr *a, *b, *c;
  mutable const VarSet *vs;
  mutable uint32_t stamp;
  mutable uint64_t ev;
  uint64_t mn, mx;            // every value lies in mn..mx (unsigned)
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}


struct ExprPool {
  struct H { size_t operator()(E e) const {
    size_t h = e->op * 1000003u + e->w * 131u + e->lo * 31u;
    h = h * 0x9E3779B97F4A7C15ull + e->v;
    h = h * 0x9E3779B97F4A7C15ull + (e->a ? e->a->id + 1 : 0);
    h = h * 0x9E3779B97F4A7C15ull + (e->b ? e->b->id + 1 : 0);
    h = h * 0x9E3779B97F4A7C15ull + (e->c ? e->c->id + 1 : 0);
    return h ^ (h >> 29); } };
  struct Q { bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->lo == y->lo && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c; } };
  std::unordered_set<E, H, Q> tab;
  std::deque<Expr> store;
  VarSet emptyVS;
  std::deque<VarSet> vsStore;
  uint32_t evalStamp = 0;

  E mk(uint8_t op, uint8_t w, E a, E b = nullptr, E c = nullptr, uint64_t v = 0, uint8_t lo = 0) {
    Expr t; t.op = op; t.w = w; t.lo = lo; t.v = v; t.a = a; t.b = b; t.c = c; t.vs = nullptr; t.stamp = 0; t.ev = 0; t.id = 0;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    t.id = (uint32_t)store.size() + 1;
    range(t);
    store.push_back(t);
    E r = &store.back();
    tab.insert(r);
    return r;
  }
  // as mk, then replaced by an expression known to be equal
  E mkr(uint8_t op, uint8_t w, E a, E b = nullptr, E c = nullptr, uint64_t v = 0, uint8_t lo = 0) {
    E r = mk(op, w, a, b, c, v, lo);
    if (!equal.empty()) { auto it = equal.find(r); if (it != equal.end()) return it->second; }
    return r;
  }
  std::unordered_map<E, E> equal;
  void range(Expr &t);
  E cst(uint64_t v, unsigned w) { return mk(O_Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  // variables are path-local: index = ordinal of creation along the path
  E var(unsigned w, uint64_t ordinal) { return mk(O_Var, w, nullptr, nullptr, nullptr, ordinal); }
  // variable with a range the path condition states from its creation on; of: what it is a part of
  E rvar(unsigned w, uint64_t ordinal, uint64_t lo, uint64_t hi, E of = nullptr) { return mk(O_Var, w, cst(lo, 64), cst(hi, 64), of, ordinal); }
  const VarSet *varset(E e);
  uint64_t eval(E e, const std::vector<uint64_t> &asg);
  uint64_t evalRec(E e, const std::vector<uint64_t> &asg);
  std::string str(E e, int depth = 6);
};
extern ExprPool EP;

static inline bool isC(E e) { return e->op == O_Const; }
static inline bool isC(E e, uint64_t v) { return e->op == O_Const && e->v == v; }

uint64_t foldBin(uint8_t op, uint64_t a, uint64_t b, unsigned w, bool &ok);
E mkBin(uint8_t op, E a, E b);       // arithmetic / bitwise, same width
E mkCmp(uint8_t op, E a, E b);       // Eq Ult Ule Slt Sle -> width 1
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E rebuild(E e, E a, E b, E c);       // e with other operands, simplified
static inline E mkAnd1(E a, E b) { return mkBin(O_And, a, b); }
