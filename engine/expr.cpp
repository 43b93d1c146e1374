#include "expr.h"
ExprPool EP;

uint64_t foldBin(uint8_t op, uint64_t a, uint64_t b, unsigned w, bool &ok) {
  ok = true;
  uint64_t m = maskw(w);
  a &= m; b &= m;
  switch (op) {
  case O_Add: return (a + b) & m;
  case O_Sub: return (a - b) & m;
  case O_Mul: return (a * b) & m;
  case O_UDiv: if (!b) { ok = false; return 0; } return a / b;
  case O_URem: if (!b) { ok = false; return 0; } return a % b;
  case O_SDiv: { if (!b) { ok = false; return 0; } int64_t x = sxt(a, w), y = sxt(b, w); if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case O_SRem: { if (!b) { ok = false; return 0; } int64_t x = sxt(a, w), y = sxt(b, w); if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case O_And: return a & b;
  case O_Or: return a | b;
  case O_Xor: return a ^ b;
  case O_Shl: return b >= w ? 0 : (a << b) & m;
  case O_LShr: return b >= w ? 0 : (a >> b);
  case O_AShr: { int64_t x = sxt(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
  case O_Eq: return a == b;
  case O_Ult: return a < b;
  case O_Ule: return a <= b;
  case O_Slt: return sxt(a, w) < sxt(b, w);
  case O_Sle: return sxt(a, w) <= sxt(b, w);
  }
  ok = false;
  return 0;
}

void ExprPool::range(Expr &t) {
  uint64_t m = maskw(t.w);
  t.mn = 0; t.mx = m;
  E a = t.a, b = t.b;
  typedef unsigned __int128 U;
  switch (t.op) {
  case O_Const: t.mn = t.mx = t.v; break;
  case O_Var: if (a) { t.mn = a->v; t.mx = b->v; } break;
  case O_Add: if ((U)a->mx + b->mx <= m) { t.mn = a->mn + b->mn; t.mx = a->mx + b->mx; } break;
  case O_Sub: if (a->mn >= b->mx) { t.mn = a->mn - b->mx; t.mx = a->mx - b->mn; } break;
  case O_Mul: if ((U)a->mx * b->mx <= m) { t.mn = a->mn * b->mn; t.mx = a->mx * b->mx; } break;
  case O_UDiv: if (b->mn) { t.mn = a->mn / b->mx; t.mx = a->mx / b->mn; } break;
  case O_URem: if (b->mn) t.mx = std::min(a->mx, b->mx - 1); break;
  case O_And: t.mx = std::min(a->mx, b->mx); break;
  case O_Or: { t.mn = std::max(a->mn, b->mn); uint64_t u = a->mx | b->mx; t.mx = u ? maskw(64 - __builtin_clzll(u)) : 0; break; }
  case O_Xor: { uint64_t u = a->mx | b->mx; t.mx = u ? maskw(64 - __builtin_clzll(u)) : 0; break; }
  case O_LShr: t.mx = a->mx; break;
  case O_ZExt: t.mn = a->mn; t.mx = a->mx; break;
  case O_SExt: if (a->mx < (1ull << (a->w - 1))) { t.mn = a->mn; t.mx = a->mx; } break;
  case O_Extract: if ((a->mx >> t.lo) <= m) { t.mn = a->mn >> t.lo; t.mx = a->mx >> t.lo; } break;
  case O_Concat: t.mn = (a->mn << b->w) | b->mn; t.mx = (a->mx << b->w) | b->mx; break;
  case O_Ite: t.mn = std::min(b->mn, t.c->mn); t.mx = std::max(b->mx, t.c->mx); break;
  }
}

const VarSet *ExprPool::varset(E e) {
  if (e->vs) return e->vs;
  if (e->op == O_Const) { e->vs = &emptyVS; return e->vs; }
  if (e->op == O_Var) { vsStore.push_back(VarSet{(uint32_t)e->v}); e->vs = &vsStore.back(); return e->vs; }
  const VarSet *s[3] = {e->a ? varset(e->a) : &emptyVS, e->b ? varset(e->b) : &emptyVS, e->c ? varset(e->c) : &emptyVS};
  const VarSet *cur = s[0];
  for (int i = 1; i < 3; i++) {
    if (s[i]->empty() || s[i] == cur) continue;
    if (cur->empty()) { cur = s[i]; continue; }
    if (std::includes(cur->begin(), cur->end(), s[i]->begin(), s[i]->end())) continue;
    if (std::includes(s[i]->begin(), s[i]->end(), cur->begin(), cur->end())) { cur = s[i]; continue; }
    VarSet u;
    std::set_union(cur->begin(), cur->end(), s[i]->begin(), s[i]->end(), std::back_inserter(u));
    vsStore.push_back(std::move(u));
    cur = &vsStore.back();
  }
  e->vs = cur;
  return cur;
}

uint64_t ExprPool::eval(E e, const std::vector<uint64_t> &asg) {
  if (e->op == O_Const) return e->v;
  evalStamp++;
  return evalRec(e, asg);
}
uint64_t ExprPool::evalRec(E e, const std::vector<uint64_t> &asg) {
  if (e->op == O_Const) return e->v;
  if (e->stamp == evalStamp) return e->ev;
  uint64_t r = 0;
  switch (e->op) {
  case O_Var: r = e->v < asg.size() ? (asg[e->v] & maskw(e->w)) : 0; break;
  case O_Not: r = !evalRec(e->a, asg); break;
  case O_Ite: r = evalRec(e->a, asg) ? evalRec(e->b, asg) : evalRec(e->c, asg); break;
  case O_ZExt: r = evalRec(e->a, asg); break;
  case O_SExt: r = (uint64_t)sxt(evalRec(e->a, asg), e->a->w) & maskw(e->w); break;
  case O_Extract: r = (evalRec(e->a, asg) >> e->lo) & maskw(e->w); break;
  case O_Concat: r = (evalRec(e->a, asg) << e->b->w) | evalRec(e->b, asg); break;
  default: {
    uint64_t x = evalRec(e->a, asg), y = evalRec(e->b, asg);
    bool ok; r = foldBin(e->op, x, y, e->a->w, ok);
    if (!ok) { // division by zero: SMT-LIB semantics
      unsigned w = e->a->w;
      if (e->op == O_UDiv) r = maskw(w);
      else if (e->op == O_URem || e->op == O_SRem) r = x;
      else if (e->op == O_SDiv) r = (sxt(x, w) < 0) ? 1 : maskw(w);
    }
  } }
  e->stamp = evalStamp; e->ev = r;
  return r;
}

static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","not","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
std::string ExprPool::str(E e, int d) {
  if (e->op == O_Const) return std::to_string(e->v) + ":" + std::to_string(e->w);
  if (e->op == O_Var) return "v" + std::to_string(e->v) + ":" + std::to_string(e->w);
  if (!d) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_Extract) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
  if (e->op == O_ZExt || e->op == O_SExt) s += std::to_string(e->w);
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + str(k, d - 1);
  return s + ")";
}

// ---- segment decomposition: e = concat of pieces, low first; nullptr expr = zeros
struct Seg { unsigned w; E e; };
static void segs(E e, std::vector<Seg> &out) {
  if (e->op == O_Const && e->v == 0) { out.push_back({e->w, nullptr}); return; }
  if (e->op == O_Concat) { segs(e->b, out); segs(e->a, out); return; }
  if (e->op == O_ZExt) { segs(e->a, out); out.push_back({(unsigned)(e->w - e->a->w), nullptr}); return; }
  out.push_back({e->w, e});
}
static bool hasZeroSeg(E e) {
  if (e->op == O_ZExt) return true;
  if (e->op == O_Concat) return hasZeroSeg(e->a) || hasZeroSeg(e->b);
  return e->op == O_Const && e->v == 0;
}
static E xor1(E, E);
static E mergeDisjoint(E a, E b) {
  if (!hasZeroSeg(a) || !hasZeroSeg(b)) return nullptr;
  std::vector<Seg> x, y;
  segs(a, x); segs(b, y);
  size_t i = 0, j = 0; unsigned xo = 0, yo = 0;
  std::vector<E> parts;
  while (i < x.size() && j < y.size()) {
    unsigned n = std::min(x[i].w - xo, y[j].w - yo);
    if (x[i].e && y[j].e) return nullptr;
    if (x[i].e) parts.push_back(mkExtract(x[i].e, xo, n));
    else if (y[j].e) parts.push_back(mkExtract(y[j].e, yo, n));
    else parts.push_back(EP.cst(0, n));
    xo += n; yo += n;
    if (xo == x[i].w) { i++; xo = 0; }
    if (yo == y[j].w) { j++; yo = 0; }
  }
  E r = parts[0];
  for (size_t k = 1; k < parts.size(); k++) r = mkConcat(parts[k], r);
  return r;
}

E mkNot(E a) {
  assert(a->w == 1);
  switch (a->op) {
  case O_Const: return EP.cst(!a->v, 1);
  case O_Not: return a->a;
  case O_Ult: return mkCmp(O_Ule, a->b, a->a);
  case O_Ule: return mkCmp(O_Ult, a->b, a->a);
  case O_Slt: return mkCmp(O_Sle, a->b, a->a);
  case O_Sle: return mkCmp(O_Slt, a->b, a->a);
  }
  return EP.mk(O_Not, 1, a);
}

E mkBin(uint8_t op, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    bool ok; uint64_t r = foldBin(op, a->v, b->v, w, ok);
    if (ok) return EP.cst(r, w);
  }
  bool comm = op == O_Add || op == O_Mul || op == O_And || op == O_Or || op == O_Xor;
  if (comm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
  switch (op) {
  case O_Add:
    if (isC(b, 0)) return a;
    if (w == 1) return mkBin(O_Xor, a, b);
    if (isC(b) && a->op == O_Add && isC(a->b)) return mkBin(O_Add, a->a, EP.cst(a->b->v + b->v, w));
    if (isC(b) && a->op == O_Sub && isC(a->a)) return mkBin(O_Sub, EP.cst(a->a->v + b->v, w), a->b);
    if (isC(b) && a->op == O_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, EP.cst(a->b->v + b->v, w), EP.cst(a->c->v + b->v, w));
    if (!isC(b)) if (E m = mergeDisjoint(a, b)) return m;
    break;
  case O_Sub:
    if (a == b) return EP.cst(0, w);
    if (isC(b)) return mkBin(O_Add, a, EP.cst(0 - b->v, w));
    if (a->op == O_Add) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->op == O_Add && a->op == O_Add && isC(a->b) && isC(b->b) && a->a == b->a) return EP.cst(a->b->v - b->b->v, w);
    if (w == 1) return mkBin(O_Xor, a, b);
    if (isC(a) && b->op == O_Sub && isC(b->a)) return mkBin(O_Add, b->b, EP.cst(a->v - b->a->v, w));
    if (isC(a) && b->op == O_Add && isC(b->b)) return mkBin(O_Sub, EP.cst(a->v - b->b->v, w), b->a);
    break;
  case O_Mul:
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isC(b) && !(b->v & (b->v - 1))) return mkBin(O_Shl, a, EP.cst(__builtin_ctzll(b->v), w));
    if (a->op == O_Ite && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, EP.cst(a->b->v * b->v, w), EP.cst(a->c->v * b->v, w));
    break;
  case O_UDiv: if (isC(b, 1)) return a; if (isC(b) && b->v && !(b->v & (b->v - 1))) return mkBin(O_LShr, a, EP.cst(__builtin_ctzll(b->v), w)); break;
  case O_SDiv: if (isC(b, 1)) return a; break;
  case O_URem: if (isC(b, 1)) return EP.cst(0, w); if (isC(b) && b->v && !(b->v & (b->v - 1))) return mkBin(O_And, a, EP.cst(b->v - 1, w)); break;
  case O_And:
    if (a == b) return a;
    if (isC(b, 0)) return b;
    if (isC(b, maskw(w))) return a;
    if (w == 1) {
      if ((a->op == O_Not && a->a == b) || (b->op == O_Not && b->a == a)) return EP.cst(0, 1);
      break;
    }
    if (isC(b)) {
      uint64_t m = b->v;
      if (a->op == O_And && isC(a->b)) return mkBin(O_And, a->a, EP.cst(a->b->v & m, w));
      // contiguous mask -> concat of zeros and an extract
      unsigned lo = __builtin_ctzll(m), n = 64 - __builtin_clzll(m) - lo;
      if (maskw(n) == (m >> lo)) {
        E r = mkExtract(a, lo, n);
        if (lo) r = mkConcat(r, EP.cst(0, lo));
        return mkZExt(r, w);
      }
    }
    break;
  case O_Or:
    if (a == b) return a;
    if (isC(b, 0)) return a;
    if (isC(b, maskw(w))) return b;
    if (w == 1) { if ((a->op == O_Not && a->a == b) || (b->op == O_Not && b->a == a)) return EP.cst(1, 1); break; }
    if (E m = mergeDisjoint(a, b)) return m;
    break;
  case O_Xor:
    if (a == b) return EP.cst(0, w);
    if (isC(b, 0)) return a;
    if (w == 1 && isC(b, 1)) return mkNot(a);
    if (isC(b) && a->op == O_Xor && isC(a->b)) return mkBin(O_Xor, a->a, EP.cst(a->b->v ^ b->v, w));
    if (w > 1 && !isC(b)) if (E m = mergeDisjoint(a, b)) return m;
    break;
  case O_Shl:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return EP.cst(0, w);
      return mkConcat(mkExtract(a, 0, w - b->v), EP.cst(0, b->v));
    }
    break;
  case O_LShr:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return EP.cst(0, w);
      return mkZExt(mkExtract(a, b->v, w - b->v), w);
    }
    break;
  case O_AShr:
    if (isC(b)) {
      if (b->v == 0) return a;
      unsigned s = b->v >= w ? w - 1 : b->v;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  }
  return EP.mkr(op, w, a, b);
}

// XOR of two one-bit expressions in canonical form (sorted, cancelled)
static void xorAtoms(E e, std::vector<E> &l, bool &c, int &budget) {
  if (--budget < 0) return;
  if (e->op == O_Const) { c ^= e->v & 1; return; }
  if (e->op == O_Xor) { xorAtoms(e->a, l, c, budget); xorAtoms(e->b, l, c, budget); return; }
  if (e->op == O_Not) { c ^= 1; xorAtoms(e->a, l, c, budget); return; }
  l.push_back(e);
}
static E xor1(E a, E b) {
  std::vector<E> l; bool c = false; int budget = 20000;
  xorAtoms(a, l, c, budget); xorAtoms(b, l, c, budget);
  if (budget < 0) return nullptr;
  std::sort(l.begin(), l.end(), [](E x, E y) { return x->id < y->id; });
  E r = nullptr;
  for (size_t i = 0; i < l.size();) {
    size_t j = i; while (j < l.size() && l[j] == l[i]) j++;
    if ((j - i) & 1) r = r ? EP.mk(O_Xor, 1, r, l[i]) : l[i];
    i = j;
  }
  if (!r) return EP.cst(c, 1);
  return c ? mkNot(r) : r;
}

E mkCmp(uint8_t op, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; return EP.cst(foldBin(op, a->v, b->v, w, ok), 1); }
  if (a == b) return EP.cst(op == O_Eq || op == O_Ule || op == O_Sle, 1);
  if (op == O_Eq) { if (a->mx < b->mn || b->mx < a->mn) return EP.cst(0, 1); }
  else {
    uint64_t h = 1ull << (w - 1);
    bool sg = op == O_Slt || op == O_Sle;
    // signed order equals unsigned order when both stay on one side of the sign change
    bool an = a->mx < h, ap = a->mn >= h, bn = b->mx < h, bp = b->mn >= h;
    if (!sg || (an && bn) || (ap && bp)) {
      bool lt = op == O_Ult || op == O_Slt;
      if (lt ? a->mx < b->mn : a->mx <= b->mn) return EP.cst(1, 1);
      if (lt ? a->mn >= b->mx : a->mn > b->mx) return EP.cst(0, 1);
      if (sg && w > 1) return mkCmp(lt ? O_Ult : O_Ule, a, b);
    } else if (an && bp) return EP.cst(0, 1);
    else if (ap && bn) return EP.cst(1, 1);
  }
  if (op == O_Eq) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id > b->id) std::swap(a, b);
    if (w == 1) {
      if (isC(b)) return b->v ? a : mkNot(a);
      if (a->op == O_Xor || b->op == O_Xor) if (E x = xor1(a, b)) return mkNot(x);
    }
    if (isC(b)) {
      uint64_t k = b->v;
      switch (a->op) {
      case O_ZExt: if (k > maskw(a->a->w)) return EP.cst(0, 1); return mkCmp(O_Eq, a->a, EP.cst(k, a->a->w));
      case O_SExt: if (((uint64_t)sxt(k, a->a->w) & maskw(w)) != k) return EP.cst(0, 1); return mkCmp(O_Eq, a->a, EP.cst(k, a->a->w));
      case O_Concat: return mkBin(O_And, mkCmp(O_Eq, a->a, EP.cst(k >> a->b->w, a->a->w)), mkCmp(O_Eq, a->b, EP.cst(k, a->b->w)));
      case O_Add: if (isC(a->b)) return mkCmp(O_Eq, a->a, EP.cst(k - a->b->v, w)); break;
      case O_Sub: if (isC(a->a)) return mkCmp(O_Eq, a->b, EP.cst(a->a->v - k, w)); if (k == 0) return mkCmp(O_Eq, a->a, a->b); break;
      case O_Xor: if (isC(a->b)) return mkCmp(O_Eq, a->a, EP.cst(k ^ a->b->v, w)); if (k == 0) return mkCmp(O_Eq, a->a, a->b); break;
      case O_Ite:
        if (isC(a->b)) { if (a->b->v == k) return mkBin(O_Or, a->a, mkCmp(O_Eq, a->c, b)); else return mkBin(O_And, mkNot(a->a), mkCmp(O_Eq, a->c, b)); }
        for (E x : {a->b, a->c}) if (x->op == O_Ite && isC(x->b) && isC(x->c)) return mkIte(a->a, mkCmp(O_Eq, a->b, b), mkCmp(O_Eq, a->c, b));
        if (isC(a->c)) { if (a->c->v == k) return mkBin(O_Or, mkNot(a->a), mkCmp(O_Eq, a->b, b)); else return mkBin(O_And, a->a, mkCmp(O_Eq, a->b, b)); }
        break;
      }
    } else {
      if ((a->op == O_ZExt || a->op == O_SExt) && b->op == a->op && a->a->w == b->a->w) return mkCmp(O_Eq, a->a, b->a);
      if (a->op == O_Concat && b->op == O_Concat && a->b->w == b->b->w)
        return mkBin(O_And, mkCmp(O_Eq, a->a, b->a), mkCmp(O_Eq, a->b, b->b));
      if (a->op == O_Add && b->op == O_Add && isC(a->b) && isC(b->b)) { if (a->a == b->a) return EP.cst(a->b->v == b->b->v, 1); if (a->b == b->b) return mkCmp(O_Eq, a->a, b->a); }
    }
    return EP.mkr(O_Eq, 1, a, b);
  }
  if (op == O_Slt || op == O_Sle) {
    // both known non-negative -> unsigned
    auto nonneg = [](E e) { return (e->op == O_ZExt) || (isC(e) && !(e->v >> (e->w - 1))); };
    if (nonneg(a) && nonneg(b)) return mkCmp(op == O_Slt ? O_Ult : O_Ule, a, b);
    auto fits = [](E e, unsigned sw) { return isC(e) && ((uint64_t)sxt(e->v, sw) & maskw(e->w)) == e->v; };
    if (a->op == O_SExt && b->op == O_SExt && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
    if (a->op == O_SExt && fits(b, a->a->w)) return mkCmp(op, a->a, EP.cst(b->v, a->a->w));
    if (b->op == O_SExt && fits(a, b->a->w)) return mkCmp(op, EP.cst(a->v, b->a->w), b->a);
    if (a->op == O_ZExt && isC(b)) return EP.cst(0, 1);   // non-negative < negative constant
    if (b->op == O_ZExt && isC(a)) return EP.cst(1, 1);   // negative constant < non-negative
    if (a->op == O_Ite && isC(a->b) && isC(a->c) && isC(b)) { bool ok; return mkIte(a->a, EP.cst(foldBin(op, a->b->v, b->v, w, ok), 1), EP.cst(foldBin(op, a->c->v, b->v, w, ok), 1)); }
    if (b->op == O_Ite && isC(b->b) && isC(b->c) && isC(a)) { bool ok; return mkIte(b->a, EP.cst(foldBin(op, a->v, b->b->v, w, ok), 1), EP.cst(foldBin(op, a->v, b->c->v, w, ok), 1)); }
    if (a->op == O_Ite && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
    if (b->op == O_Ite && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
    return EP.mkr(op, 1, a, b);
  }
  // unsigned
  if (op == O_Ult) {
    if (isC(b, 0)) return EP.cst(0, 1);
    if (isC(a, maskw(w))) return EP.cst(0, 1);
    if (isC(b, 1)) return mkCmp(O_Eq, a, EP.cst(0, w));
    if (isC(a, 0)) return mkNot(mkCmp(O_Eq, b, a));
  } else {
    if (isC(a, 0)) return EP.cst(1, 1);
    if (isC(b, maskw(w))) return EP.cst(1, 1);
    if (isC(b, 0)) return mkCmp(O_Eq, a, b);
  }
  if (a->op == O_ZExt && b->op == O_ZExt && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
  if (a->op == O_ZExt && isC(b)) { if (b->v > maskw(a->a->w)) return EP.cst(1, 1); return mkCmp(op, a->a, EP.cst(b->v, a->a->w)); }
  if (b->op == O_ZExt && isC(a)) { if (a->v > maskw(b->a->w)) return EP.cst(0, 1); return mkCmp(op, EP.cst(a->v, b->a->w), b->a); }
  return EP.mkr(op, 1, a, b);
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->op == O_Not) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
    if (isC(a)) return a->v ? mkBin(O_Or, c, b) : mkBin(O_And, mkNot(c), b);
    if (isC(b)) return b->v ? mkBin(O_Or, mkNot(c), a) : mkBin(O_And, c, a);
  }
  if (a->op == O_Ite && a->a == c) return mkIte(c, a->b, b);
  if (b->op == O_Ite && b->a == c) return mkIte(c, a, b->c);
  return EP.mkr(O_Ite, a->w, c, a, b);
}

E mkZExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a)) return EP.cst(a->v, w);
  if (a->op == O_ZExt) return mkZExt(a->a, w);
  if (a->op == O_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, EP.cst(a->b->v, w), EP.cst(a->c->v, w));
  if (a->op == O_Add && (unsigned __int128)a->a->mx + a->b->mx <= maskw(a->w)) return mkBin(O_Add, mkZExt(a->a, w), mkZExt(a->b, w));
  if (a->op == O_Add && isC(a->b) && a->a->mn >= maskw(a->w) - a->b->v + 1) return mkBin(O_Sub, mkZExt(a->a, w), EP.cst(maskw(a->w) - a->b->v + 1, w));
  if (a->op == O_Mul && isC(a->b) && (unsigned __int128)a->a->mx * a->b->v <= maskw(a->w)) return mkBin(O_Mul, mkZExt(a->a, w), EP.cst(a->b->v, w));
  return EP.mkr(O_ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a)) return EP.cst((uint64_t)sxt(a->v, a->w), w);
  if (a->op == O_SExt) return mkSExt(a->a, w);
  if (a->op == O_ZExt || a->mx < (1ull << (a->w - 1))) return mkZExt(a, w);
  if (a->op == O_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return EP.mkr(O_SExt, w, a);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w >= 1);
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
  case O_Const: return EP.cst(a->v >> lo, w);
  case O_Extract: return mkExtract(a->a, a->lo + lo, w);
  case O_Concat: {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case O_ZExt: {
    unsigned sw = a->a->w;
    if (lo >= sw) return EP.cst(0, w);
    if (lo + w <= sw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, sw - lo), w);
  }
  case O_SExt: {
    unsigned sw = a->a->w;
    if (lo + w <= sw) return mkExtract(a->a, lo, w);
    if (lo < sw) return mkSExt(mkExtract(a->a, lo, sw - lo), w);
    return mkSExt(mkExtract(a->a, sw - 1, 1), w);
  }
  case O_Ite:
    if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case O_And: case O_Or: case O_Xor:
    return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case O_Add: case O_Sub:
    if (lo == 0) {
      auto clean = [&](E e) { return isC(e) || ((e->op == O_ZExt || e->op == O_SExt) && e->a->w <= w); };
      if (clean(a->a) && clean(a->b)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    }
    break;
  }
  return EP.mkr(O_Extract, w, a, nullptr, nullptr, 0, lo);
}
E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  assert(w <= 64);
  if (isC(h) && isC(l)) return EP.cst((h->v << l->w) | l->v, w);
  if (isC(h, 0)) return mkZExt(l, w);
  if (h->op == O_ZExt) return mkZExt(mkConcat(h->a, l), w);
  if (h->op == O_Extract && l->op == O_Extract && h->a == l->a && h->lo == l->lo + l->w) return mkExtract(h->a, l->lo, w);
  // full expression as low part of an extract chain: l == x (whole), not adjacent
  if (l->op == O_Concat && h->op == O_Extract && l->a->op == O_Extract && h->a == l->a->a && h->lo == l->a->lo + l->a->w)
    return mkConcat(mkExtract(h->a, l->a->lo, h->w + l->a->w), l->b);
  if (isC(h) && l->op == O_Concat && isC(l->a)) return mkConcat(EP.cst((h->v << l->a->w) | l->a->v, h->w + l->a->w), l->b);
  if (h->op == O_Concat) return mkConcat(h->a, mkConcat(h->b, l)); // right-associate
  return EP.mkr(O_Concat, w, h, l);
}

E rebuild(E e, E a, E b, E c) {
  switch (e->op) {
  case O_Const: case O_Var: return e;
  case O_Not: return mkNot(a);
  case O_Eq: case O_Ult: case O_Ule: case O_Slt: case O_Sle: return mkCmp(e->op, a, b);
  case O_Concat: return mkConcat(a, b);
  case O_Extract: return mkExtract(a, e->lo, e->w);
  case O_ZExt: return mkZExt(a, e->w);
  case O_SExt: return mkSExt(a, e->w);
  case O_Ite: return mkIte(a, b, c);
  }
  return mkBin(e->op, a, b);
}
