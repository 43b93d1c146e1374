#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <functional>
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
void Solver::init(uint64_t rl) {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, slv);
  rlimit = rl;
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rl);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
  Z3_solver_set_params(ctx, slv, p);
  Z3_params_dec_ref(ctx, p);
}
Z3_ast Solver::tr(E e) {
  if (memo.size() <= e->id) memo.resize(EP.store.size() + 1024, nullptr);
  if (memo[e->id]) return memo[e->id];
  Z3_ast r = nullptr;
  Z3_context c = ctx;
  Z3_sort bs = Z3_mk_bv_sort(c, e->w);
  auto boolToBv = [&](Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))); };
  Z3_ast a = nullptr, b = nullptr, d = nullptr;
  if (e->op != O_Var) a = e->a ? tr(e->a) : nullptr, b = e->b ? tr(e->b) : nullptr, d = e->c ? tr(e->c) : nullptr;
  switch (e->op) {
  case O_Const: r = Z3_mk_unsigned_int64(c, e->v, bs); break;
  case O_Var: { char nm[32]; snprintf(nm, sizeof nm, "v%u_%u", (unsigned)e->v, e->w); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), bs); break; }
  case O_Add: r = Z3_mk_bvadd(c, a, b); break;
  case O_Sub: r = Z3_mk_bvsub(c, a, b); break;
  case O_Mul: r = Z3_mk_bvmul(c, a, b); break;
  case O_UDiv: r = Z3_mk_bvudiv(c, a, b); break;
  case O_SDiv: r = Z3_mk_bvsdiv(c, a, b); break;
  case O_URem: r = Z3_mk_bvurem(c, a, b); break;
  case O_SRem: r = Z3_mk_bvsrem(c, a, b); break;
  case O_And: r = Z3_mk_bvand(c, a, b); break;
  case O_Or: r = Z3_mk_bvor(c, a, b); break;
  case O_Xor: r = Z3_mk_bvxor(c, a, b); break;
  case O_Shl: r = Z3_mk_bvshl(c, a, b); break;
  case O_LShr: r = Z3_mk_bvlshr(c, a, b); break;
  case O_AShr: r = Z3_mk_bvashr(c, a, b); break;
  case O_Not: r = Z3_mk_bvnot(c, a); break;
  case O_Eq: r = boolToBv(Z3_mk_eq(c, a, b)); break;
  case O_Ult: r = boolToBv(Z3_mk_bvult(c, a, b)); break;
  case O_Ule: r = boolToBv(Z3_mk_bvule(c, a, b)); break;
  case O_Slt: r = boolToBv(Z3_mk_bvslt(c, a, b)); break;
  case O_Sle: r = boolToBv(Z3_mk_bvsle(c, a, b)); break;
  case O_Concat: r = Z3_mk_concat(c, a, b); break;
  case O_Extract: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, a); break;
  case O_ZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, a); break;
  case O_SExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, a); break;
  case O_Ite: r = Z3_mk_ite(c, Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))), b, d); break;
  }
  Z3_inc_ref(c, r);
  memo[e->id] = r;
  return r;
}
// ---- GF(2)-linear equalities (checksums) are brought into reduced echelon form before Z3 sees them
typedef std::vector<E> LRow;    // sum of 1-bit atoms, sorted by id
static void lxor(LRow &a, const LRow &b) {
  LRow r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i]->id < b[j]->id)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j]->id < a[i]->id) r.push_back(b[j++]);
    else { i++; j++; }
  }
  a.swap(r);
}
static void latoms(E e, LRow &l, bool &k) {
  if (isC(e)) { k ^= (e->v & 1); return; }
  if (e->op == O_Xor && e->w == 1) { latoms(e->a, l, k); latoms(e->b, l, k); return; }
  if (e->op == O_Not) { k ^= 1; latoms(e->a, l, k); return; }
  lxor(l, LRow{e});
}
static bool hasXor(E e) {
  if (e->op == O_Xor && e->w == 1) return true;
  if (e->op == O_Not) return hasXor(e->a);
  if (e->op == O_ZExt) return hasXor(e->a);
  if (e->op == O_Concat) return hasXor(e->a) || hasXor(e->b);
  return false;
}
// only bits of variables, put together in any way
static bool plainBits(E e, int depth = 0) {
  if (depth > 12) return false;
  switch (e->op) {
  case O_Const: case O_Var: return true;
  case O_Extract: return e->a->op == O_Var;
  case O_ZExt: return plainBits(e->a, depth + 1);
  case O_Not: return plainBits(e->a, depth + 1);
  case O_Concat: case O_Xor: return plainBits(e->a, depth + 1) && plainBits(e->b, depth + 1);
  }
  return false;
}
static void linear(std::vector<E> &cs) {
  std::vector<E> rest;
  std::vector<std::pair<LRow, bool>> rows;
  bool any = false;
  for (E e : cs) if ((e->op == O_Eq && (hasXor(e->a) || hasXor(e->b))) || (e->w == 1 && hasXor(e))) { any = true; break; }
  if (!any) return;
  for (E e : cs) {
    if (e->op == O_Eq && (hasXor(e->a) || hasXor(e->b) || (plainBits(e->a) && plainBits(e->b)))) {
      for (unsigned j = 0; j < e->a->w; j++) { LRow l; bool k = false; latoms(mkExtract(e->a, j, 1), l, k); latoms(mkExtract(e->b, j, 1), l, k); rows.push_back({l, k}); }
    } else if (e->w == 1 && (hasXor(e) || plainBits(e))) { LRow l; bool k = true; latoms(e, l, k); rows.push_back({l, k}); }
    else rest.push_back(e);
  }
  struct Row { E pivot; LRow l; bool k; };        // l sorted, contains pivot; no other row contains it
  std::vector<Row> red;
  std::unordered_map<uint32_t, unsigned> busy;
  for (E e : rest) for (uint32_t v : *EP.varset(e)) busy[v]++;
  auto has = [](const LRow &l, E x) { return std::binary_search(l.begin(), l.end(), x, [](E a, E b) { return a->id < b->id; }); };
  for (auto &r : rows) {
    for (auto &q : red) if (has(r.first, q.pivot)) { lxor(r.first, q.l); r.second ^= q.k; }
    if (r.first.empty()) { if (r.second) { cs.assign(1, EP.cst(0, 1)); return; } continue; }
    // pivot: the atom the other constraints say least about, so that the equation just defines it
    E pv = nullptr; unsigned best = ~0u;
    for (size_t i = r.first.size(); i-- > 0;) {
      unsigned u = 0;
      for (uint32_t v : *EP.varset(r.first[i])) { auto it = busy.find(v); if (it != busy.end()) u += it->second; }
      if (u < best) { best = u; pv = r.first[i]; }
    }
    for (auto &q : red) if (has(q.l, pv)) { lxor(q.l, r.first); q.k ^= r.second; }
    red.push_back({pv, r.first, r.second});
  }
  for (auto &q : red) {
    E y = nullptr;
    for (E t : q.l) if (t != q.pivot) y = y ? EP.mk(O_Xor, 1, y, t) : t;
    if (!y) rest.push_back(q.k ? q.pivot : mkNot(q.pivot));
    else rest.push_back(EP.mk(O_Eq, 1, q.pivot, q.k ? mkNot(y) : y));
  }
  cs.swap(rest);
}
Res Solver::check(const std::vector<E> &cs0, std::vector<std::pair<uint32_t, uint64_t>> &m) {
  std::vector<E> cs;
  std::function<void(E)> flat = [&](E e) {
    if (e->op == O_And) { flat(e->a); flat(e->b); }
    else if (e->op == O_Not && e->a->op == O_Or) { flat(mkNot(e->a->a)); flat(mkNot(e->a->b)); }
    else cs.push_back(e);
  };
  for (E e : cs0) flat(e);
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key;
  key.reserve(cs.size() * 4);
  for (E e : cs) key.append((const char *)&e->id, 4);
  auto it = cache.find(key);
  if (it != cache.end()) { hits++; m = it->second.m; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  // variables stated equal become one variable: equal digits then make equal numbers without search
  std::unordered_map<E, E> rep;
  auto find = [&](E x) { while (true) { auto it2 = rep.find(x); if (it2 == rep.end()) return x; x = it2->second; } };
  std::vector<E> full(cs);
  for (E e : cs) if (e->op == O_Eq && e->a->op == O_Var && e->b->op == O_Var) {
    E x = find(e->a), y = find(e->b);
    if (x == y || x->op != O_Var || y->op != O_Var) continue;
    if (x->v < y->v) std::swap(x, y);
    rep[x] = y;
  }
  // and variables stated constant become constants: ranges then decide what is left of their digits
  for (E e : cs) if (e->op == O_Eq) {
    E x = e->a->op == O_Var && isC(e->b) ? e->a : e->b->op == O_Var && isC(e->a) ? e->b : nullptr;
    if (!x) continue;
    E c0 = x == e->a ? e->b : e->a;
    x = find(x);
    if (x->op == O_Var) rep[x] = c0;
  }
  if (!rep.empty()) {
    std::unordered_map<E, E> memo2;
    VarSet gone; for (auto &kv : rep) gone.push_back((uint32_t)kv.first->v);
    std::sort(gone.begin(), gone.end());
    std::function<E(E)> sub = [&](E e) -> E {
      if (e->op == O_Const) return e;
      if (e->op == O_Var) return find(e);
      const VarSet *vs = EP.varset(e);
      bool hit = false;
      for (uint32_t g : gone) if (std::binary_search(vs->begin(), vs->end(), g)) { hit = true; break; }
      if (!hit) return e;
      auto it2 = memo2.find(e);
      if (it2 != memo2.end()) return it2->second;
      E r2 = rebuild(e, e->a ? sub(e->a) : nullptr, e->b ? sub(e->b) : nullptr, e->c ? sub(e->c) : nullptr);
      return memo2[e] = r2;
    };
    std::vector<E> nc;
    bool absurd = false;
    for (E e : cs) { E x = sub(e); if (isC(x)) { if (!x->v) absurd = true; continue; } nc.push_back(x); }
    // one more round: the rewriting may have produced an equality with a stated disequality
    std::unordered_set<E> all(nc.begin(), nc.end());
    for (E e : nc) if (all.count(mkNot(e))) absurd = true;
    std::sort(nc.begin(), nc.end(), [](E a, E b) { return a->id < b->id; });
    nc.erase(std::unique(nc.begin(), nc.end()), nc.end());
    if (absurd) nc.assign(1, EP.cst(0, 1));
    cs.swap(nc);
  }
  linear(cs);
  Z3_solver_reset(ctx, slv);
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  for (E e : cs) { Z3_solver_assert(ctx, slv, Z3_mk_eq(ctx, tr(e), one)); asserts++; }
  if (dumpEvery && queries % dumpEvery == 0 && !dumpDir.empty()) {
    char fn[512]; snprintf(fn, sizeof fn, "%s/q%d-%llu.smt2", dumpDir.c_str(), (int)getpid(), (unsigned long long)queries);
    FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, slv)); fclose(f); dumped++; }
  }
  Z3_solver use = slv, other = nullptr;
  Z3_lbool r = Z3_solver_check(ctx, slv);
  for (unsigned seed = 2; r == Z3_L_UNDEF && seed <= 4; seed++) {      // another attempt with a fresh solver
    if (other) Z3_solver_dec_ref(ctx, other);
    Z3_tactic tq = Z3_mk_tactic(ctx, "qfbv");
    Z3_tactic_inc_ref(ctx, tq);
    other = Z3_mk_solver_from_tactic(ctx, tq);
    Z3_solver_inc_ref(ctx, other);
    Z3_tactic_dec_ref(ctx, tq);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rlimit);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), seed);
    Z3_solver_set_params(ctx, other, p);
    Z3_params_dec_ref(ctx, p);
    for (E e : cs) Z3_solver_assert(ctx, other, Z3_mk_eq(ctx, tr(e), one));
    r = Z3_solver_check(ctx, other);
    use = other; retries++;
  }
  queries++;
  Ent en;
  if (r == Z3_L_TRUE) {
    en.r = R_SAT; sat++;
    Z3_model md = Z3_solver_get_model(ctx, use);
    Z3_model_inc_ref(ctx, md);
    VarSet all;
    std::vector<E> stack(cs);
    std::unordered_map<uint32_t, E> vw;
    std::unordered_set<E> seen;
    while (!stack.empty()) {
      E e = stack.back(); stack.pop_back();
      if (!seen.insert(e).second) continue;
      if (e->op == O_Var) { vw[(uint32_t)e->v] = e; continue; }
      for (E k : {e->a, e->b, e->c}) if (k && k->op != O_Const) stack.push_back(k);
    }
    for (auto &kv : vw) {
      Z3_ast v = nullptr; uint64_t u = 0;
      E ve = kv.second;
      if (Z3_model_eval(ctx, md, tr(ve), true, &v)) { Z3_inc_ref(ctx, v); Z3_get_numeral_uint64(ctx, v, &u); Z3_dec_ref(ctx, v); }
      en.m.push_back({kv.first, u});
    }
    for (auto &kv : rep) { E y = find(kv.first); uint64_t u = 0; if (isC(y)) { en.m.push_back({(uint32_t)kv.first->v, y->v}); continue; } for (auto &q : en.m) if (q.first == y->v) { u = q.second; goto have; } u = y->mn; en.m.push_back({(uint32_t)y->v, u}); have: en.m.push_back({(uint32_t)kv.first->v, u}); }
    Z3_model_dec_ref(ctx, md);
  } else if (r == Z3_L_FALSE) { en.r = R_UNSAT; unsat++; }
  else { en.r = R_UNKNOWN; unknown++; }
  if (other) Z3_solver_dec_ref(ctx, other);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  secs += dt; if (dt > maxsec) maxsec = dt;
  if (!dumpDir.empty() && dt > 3) {
    char fn[512]; snprintf(fn, sizeof fn, "%s/slow%d-%llu.smt2", dumpDir.c_str(), (int)getpid(), (unsigned long long)queries);
    FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "; %.1f s, answer %d\n(set-logic QF_BV)\n%s(check-sat)\n", dt, (int)en.r, Z3_solver_to_string(ctx, slv)); fclose(f); }
  }
  m = en.m;
  Res rr = en.r;
  if (rr == R_SAT) {   // the encoding and the evaluator must agree on every model
    std::vector<uint64_t> asg; for (auto &p : en.m) { if (asg.size() <= p.first) asg.resize(p.first + 1, 0); asg[p.first] = p.second; }
    for (E e : full) if (!EP.eval(e, asg)) { fprintf(stderr, "symx: solver model does not satisfy constraint %s\n", EP.str(e).c_str()); _exit(3); }
  }
  if (cache.size() > 400000) cache.clear();
  cache.emplace(std::move(key), std::move(en));
  return rr;
}
