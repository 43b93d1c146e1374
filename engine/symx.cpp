// symx: symbolic execution of LLVM IR with an SMT solver (Z3).
#include "symx.h"
#include <sys/prctl.h>
#include <signal.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cerrno>

using namespace llvm;
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static Shared *SH;
static Solver SLV;
static std::map<const Function *, DFunc *> FM;
static std::vector<DFunc *> FUNCS;
static std::map<const GlobalValue *, uint64_t> GADDR;
static std::unordered_map<uint32_t, DFunc *> OBJ2F;
static std::string outDir = ".", entryName, repoPrefix = "/repo/";
static std::vector<int64_t> params;
static uint64_t maxSteps = 60000000, maxPaths = 0;
static int jobs = 8, maxViol = 1, maxSamples = 6;
static double deadline = 0;
static std::vector<std::string> sites{"?"};
static std::unordered_map<uint64_t, uint32_t> siteMap;
static bool verbose = false, reuseHeap = false;
static std::vector<State *> WL;
static State *preClone = nullptr;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) + ADDR_OFF; }

// ------------------------------------------------------------------ locations
static std::string where(State &S, int maxn = 12) {
  std::string s;
  auto &st = S.th[S.cur].st;
  int n = 0;
  for (int i = (int)st.size() - 1; i >= 0 && n < maxn; i--, n++) {
    Frame &f = st[i];
    uint32_t ln = f.pc < f.f->code.size() ? f.f->code[f.pc].line : 0;
    if (!s.empty()) s += " < ";
    s += f.f->name + ":" + std::to_string(ln);
  }
  return s;
}
static uint32_t site(State &S) {
  auto &st = S.th[S.cur].st;
  uint64_t h = 0;
  for (int i = (int)st.size() - 1, n = 0; i >= 0 && n < 5; i--, n++) h = h * 1000003 + st[i].f->idx * 4099 + st[i].pc;
  auto it = siteMap.find(h);
  if (it != siteMap.end()) return it->second;
  sites.push_back(where(S, 5));
  return siteMap[h] = sites.size() - 1;
}

// ------------------------------------------------------------------ solver side
static E substE(State &S, E e, std::unordered_map<E, E> &memo) {
  if (e->op == O_Const) return e;
  if (e->op == O_Var) { auto it = S.eq.find((uint32_t)e->v); return it == S.eq.end() ? e : EP.cst(it->second, e->w); }
  const VarSet *vs = EP.varset(e);
  bool hit = false;
  if (vs->size() <= S.eq.size()) { for (uint32_t v : *vs) if (S.eq.count(v)) { hit = true; break; } }
  else for (auto &kv : S.eq) if (std::binary_search(vs->begin(), vs->end(), kv.first)) { hit = true; break; }
  if (!hit) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E a = e->a ? substE(S, e->a, memo) : nullptr, b = e->b ? substE(S, e->b, memo) : nullptr, c = e->c ? substE(S, e->c, memo) : nullptr, r;
  r = rebuild(e, a, b, c);
  memo[e] = r;
  return r;
}
static E simp(State &S, E e) {
  if (e->op == O_Const || S.eq.empty()) return e;
  std::unordered_map<E, E> memo;
  return substE(S, e, memo);
}

static void addCons(State &S, E c) {
  if (c->op == O_Const) return;
  if (!S.known.insert(c->id).second) return;
  if (c->op == O_And && c->w == 1) { addCons(S, c->a); addCons(S, c->b); return; }
  if (c->op == O_Not && c->a->op == O_Or) { addCons(S, mkNot(c->a->a)); addCons(S, mkNot(c->a->b)); return; }
  if (c->op == O_Var) S.eq[(uint32_t)c->v] = 1;
  else if (c->op == O_Not && c->a->op == O_Var) S.eq[(uint32_t)c->a->v] = 0;
  else if (c->op == O_Eq && c->a->op == O_Var && isC(c->b)) S.eq[(uint32_t)c->a->v] = c->b->v;
  if ((c->op == O_Ule || c->op == O_Ult) && (isC(c->a) || isC(c->b))) {     // drop bounds that c implies
    bool low = isC(c->a);
    E x = low ? c->b : c->a;
    for (size_t i = 0; i < S.cons.size();) {
      E d = S.cons[i];
      bool weaker = false;
      if ((d->op == O_Ule || d->op == O_Ult) && !(x->op == O_Var && x->a)) {
        if (low && d->b == x && isC(d->a)) { uint64_t cl = c->a->v + (c->op == O_Ult), dl = d->a->v + (d->op == O_Ult); weaker = cl >= dl; }
        if (!low && d->a == x && isC(d->b)) { uint64_t cl = c->b->v - (c->op == O_Ult), dl = d->b->v - (d->op == O_Ult); weaker = cl <= dl; }
      }
      if (weaker) S.cons.erase(S.cons.begin() + i); else i++;
    }
  }
  S.cons.push_back(c);
  uint64_t n = S.cons.size(), m = SH->maxCons; if (n > m) SH->maxCons = n;
}

static bool disjoint(const VarSet &a, const VarSet &b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return false; if (a[i] < b[j]) i++; else j++; }
  return true;
}
// is path /\ c satisfiable?  On SAT the full assignment (witness updated) is returned.
static Res feasible(State &S, E c, std::vector<uint64_t> &asg) {
  std::vector<E> q{c};
  std::vector<char> used(S.cons.size(), 0);
  VarSet vs = *EP.varset(c);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S.cons.size(); i++) if (!used[i]) {
      const VarSet *w = EP.varset(S.cons[i]);
      if (!disjoint(vs, *w)) {
        used[i] = 1; q.push_back(S.cons[i]);
        if (!std::includes(vs.begin(), vs.end(), w->begin(), w->end())) {
          VarSet u; std::set_union(vs.begin(), vs.end(), w->begin(), w->end(), std::back_inserter(u)); vs.swap(u); ch = true;
        }
      }
    }
  }
  std::vector<std::pair<uint32_t, uint64_t>> m;
  Res r = SLV.check(q, m);
  if (r == R_SAT) {
    asg = S.wit;
    for (auto &p : m) { if (asg.size() <= p.first) asg.resize(p.first + 1, 0); asg[p.first] = p.second; }
  }
  return r;
}

static void noteIncomplete(const std::string &m) {
  SH->incomplete++;
  int n = SH->nincMsg;
  for (int i = 0; i < n && i < 16; i++) if (!strncmp(SH->incMsg[i], m.c_str(), 255)) return;
  if (n < 16) { SH->nincMsg = n + 1; strncpy(SH->incMsg[n], m.c_str(), 255); }
}

static int knownCond(State &S, E &c) {
  if (isC(c)) return c->v ? 1 : 0;
  if (S.known.count(c->id)) return 1;
  E n = mkNot(c);
  if (S.known.count(n->id)) return 0;
  c = simp(S, c);
  if (isC(c)) return c->v ? 1 : 0;
  if (S.known.count(c->id)) return 1;
  if (S.known.count(mkNot(c)->id)) return 0;
  return -1;
}

// Decide a condition.  When both sides are possible the other side is cloned
// (state before the current instruction) and scheduled.
static bool decide(State &S, E c0) {
  E c = c0;
  int k = knownCond(S, c);
  if (k >= 0) return k;
  bool w = EP.eval(c, S.wit);
  E mine = w ? c : mkNot(c), other = w ? mkNot(c) : c;
  std::vector<uint64_t> asg;
  Res r = feasible(S, other, asg);
  if (r == R_UNKNOWN) noteIncomplete("solver gave no answer within its resource limit at " + where(S, 3));
  if (r == R_SAT && !S.uninit.empty()) for (uint32_t x : *EP.varset(c)) if (std::binary_search(S.uninit.begin(), S.uninit.end(), x)) throw Violation{"control flow depends on uninitialised memory"};
  if (r == R_SAT) {
    State *T = new State(S);
    T->wit = std::move(asg);
    T->depth++;
    addCons(*T, other);
    E o2 = w ? mkNot(c0) : c0;
    T->known.insert(o2->id);
    WL.push_back(T);
    SH->forks++;
    S.depth++;
    addCons(S, mine);
  } else {
    S.known.insert(mine->id);
  }
  S.known.insert((w ? c0 : mkNot(c0))->id);
  return w;
}
static uint64_t concretize(State &S, const Val &v, unsigned w) {
  if (!v.e) return v.v & maskw(w);
  E e = simp(S, v.e);
  if (isC(e)) return e->v;
  // a variable of many values: halves first, so that no path carries a long chain of inequalities
  E b = e->op == O_ZExt ? e->a : e;
  if (b->op == O_Var && b->mx - b->mn >= 24 && b->mx - b->mn < 100000) {
    uint64_t lo = b->mn, hi = b->mx;
    while (hi - lo >= 4) {
      uint64_t m = lo + (hi - lo) / 2;
      if (decide(S, mkCmp(O_Ule, b, EP.cst(m, b->w)))) hi = m; else lo = m + 1;
    }
    e = simp(S, v.e);
    if (isC(e)) return e->v;
  }
  for (;;) {
    uint64_t x = EP.eval(e, S.wit);
    if (decide(S, mkCmp(O_Eq, e, EP.cst(x, w)))) return x;
  }
}
// value if the path condition forces a single one, without forking (syntactic only)
static bool isConcrete(State &S, const Val &v, uint64_t &x) {
  if (!v.e) { x = v.v; return true; }
  E e = simp(S, v.e);
  if (isC(e)) { x = e->v; return true; }
  return false;
}
static E freshVar(State &S, unsigned w, uint64_t wit) {
  uint32_t i = S.nvar++;
  if (S.wit.size() <= i) S.wit.resize(i + 1, 0);
  S.wit[i] = wit & maskw(w);
  return EP.var(w, i);
}
static void rawCons(State &S, E c) {          // constraint kept as it is, not simplified away
  if (S.known.insert(c->id).second) S.cons.push_back(c);
}
// fresh variable in lo..hi; the range is part of the node, so comparisons fold without the solver
static E freshRange(State &S, unsigned w, uint64_t wit, uint64_t lo, uint64_t hi, E of) {
  E plain = freshVar(S, w, wit);
  E v = EP.rvar(w, plain->v, lo, hi, of);
  if (lo) rawCons(S, EP.mk(O_Ule, 1, EP.cst(lo, w), v));
  if (hi < maskw(w)) rawCons(S, EP.mk(O_Ule, 1, v, EP.cst(hi, w)));
  return v;
}
static void assume(State &S, E c) {
  int k = knownCond(S, c);
  if (k == 1) return;
  if (k == 0) throw KillPath();
  if (!EP.eval(c, S.wit)) {
    std::vector<uint64_t> asg;
    Res r = feasible(S, c, asg);
    if (r == R_UNKNOWN) { noteIncomplete("solver gave no answer for an assumption at " + where(S, 3)); throw KillPath(); }
    if (r == R_UNSAT) throw KillPath();
    S.wit = std::move(asg);
  }
  addCons(S, c);
}

// ------------------------------------------------------------------ violations
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void dumpCase(State &S, const std::string &file, const std::string &msg, const std::string &loc, const std::vector<uint64_t> &asg) {
  FILE *f = fopen(file.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"entry\":%s,\n\"message\":%s,\n\"where\":%s,\n\"uninit\":%s,\n\"params\":[", jstr(entryName).c_str(), jstr(msg).c_str(), jstr(loc).c_str(), S.usedUninit ? "true" : "false");
  for (size_t i = 0; i < params.size(); i++) fprintf(f, "%s%lld", i ? "," : "", (long long)params[i]);
  fprintf(f, "],\n\"values\":[");
  for (size_t i = 0; i < S.log.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)EP.eval(S.log[i].e, asg));
  fprintf(f, "],\n\"names\":[");
  for (size_t i = 0; i < S.log.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(S.log[i].name).c_str());
  fprintf(f, "],\n\"observed\":[");
  for (size_t i = 0; i < S.obs.size(); i++) fprintf(f, "%s[%s,%llu]", i ? "," : "", jstr(S.obs[i].first).c_str(), (unsigned long long)(S.obs[i].second.e ? EP.eval(S.obs[i].second.e, asg) : S.obs[i].second.v));
  fprintf(f, "]}\n");
  fclose(f);
}
static void reportViolation(State &S, const std::string &msg, const std::vector<uint64_t> &asg) {
  // signature: message + innermost repository function
  std::string fn;
  auto &st = S.th[S.cur].st;
  for (int i = (int)st.size() - 1; i >= 0; i--) if (st[i].f->repo) { fn = st[i].f->name; break; }
  uint32_t h = (uint32_t)std::hash<std::string>()(msg + "|" + fn);
  int n = SH->nviol;
  for (int i = 0; i < n && i < 256; i++) if (SH->violHash[i] == h) return;
  n = SH->nviol++;
  if (n < 256) SH->violHash[n] = h;
  std::string loc = where(S, 30);
  if (verbose) fprintf(stderr, "symx: VIOLATION %s at %s\n", msg.c_str(), loc.c_str());
  dumpCase(S, outDir + "/viol-" + std::to_string(n) + ".json", msg, loc, asg);
  if (n + 1 >= maxViol) SH->stop = 1;
}

// ------------------------------------------------------------------ memory
static Obj *objW(State &S, uint32_t id) { return S.mem.getW(id); }
static const char *kindName(ObjKind k) { switch (k) { case K_GLOBAL: return "global"; case K_CONST: return "constant"; case K_STACK: return "stack"; case K_HEAP: return "heap"; case K_MODEL: return "model"; case K_FUNC: return "function"; case K_VARARG: return "argument"; default: return "?"; } }

[[noreturn]] static void memErr(const std::string &m) { throw Violation{"memory: " + m}; }

// Check that [addr, addr+n) is a valid access and return object id and offset.
// Performs every fork needed; no state mutation besides constraints.
static uint32_t access(State &S, const Val &a, uint64_t n, bool write, uint64_t &off, const char *what) {
  uint64_t addr = a.e ? concretize(S, a, 64) : a.v;
  if (n == 0) { off = 0; return 0; }
  uint32_t id = (uint32_t)(addr >> 32);
  if (addr < (1ull << 32)) memErr(std::string(what) + " through a null or invalid pointer");
  Obj *o = S.mem.get(id);
  if (!o) memErr(std::string(what) + " through an invalid or dangling pointer");
  if (!o->alive) memErr(std::string(what) + " of freed memory (use after free)");
  off = (addr & 0xffffffffull) - ADDR_OFF;
  if (o->kind == K_FUNC) memErr(std::string(what) + " of a function");
  if (write && o->ro) memErr("write to read-only memory");
  if (o->symSize) {
    if (off >= (1ull << 31)) memErr(std::string(what) + " out of bounds");
    E need = EP.cst(off + n, 64);
    if (!decide(S, mkCmp(O_Ule, need, o->symSize))) memErr(std::string(what) + " out of bounds of a " + kindName(o->kind) + " block of symbolic size");
  } else if (off > o->size || n > o->size - off) {
    memErr(std::string(what) + " out of bounds of a " + kindName(o->kind) + " block of " + std::to_string(o->size) + " bytes");
  }
  if (off + n > MATCAP || off + n > o->size) throw Incomplete{"access beyond the materialisation cap"};
  return id;
}
static Val loadByte(State &S, uint32_t id, uint64_t off) {
  Obj *o = S.mem.get(id);
  Page *p = o->rd(off);
  uint32_t i = off % PGSZ;
  uint8_t st = p ? p->st[i] : 0;
  if (st == 1) return C(p->b[i]);
  if (st == 2) return SV(p->sym[i]);
  // uninitialised: an arbitrary but fixed value
  E v = freshVar(S, 8, 0xbe);
  S.usedUninit = true; S.uninit.push_back((uint32_t)v->v);
  o = objW(S, id);
  p = o->wr(off);
  p->setSym(i, v);
  return SV(v);
}
static void storeByte(State &S, Obj *o, uint64_t off, const Val &v) {
  Page *p = o->wr(off);
  uint32_t i = off % PGSZ;
  if (v.e) p->setSym(i, v.e);
  else { p->b[i] = (uint8_t)v.v; p->st[i] = 1; }
}
static Val loadN(State &S, uint32_t id, uint64_t off, unsigned n) { // n bytes
  Obj *o = S.mem.get(id);
  Page *p = o->rd(off);
  uint32_t i = off % PGSZ;
  if (p && i + n <= p->n) {
    bool conc = true;
    for (unsigned k = 0; k < n; k++) if (p->st[i + k] != 1) { conc = false; break; }
    if (conc) { uint64_t v = 0; memcpy(&v, p->b + i, n); return C(v); }
  }
  Val r = loadByte(S, id, off);
  for (unsigned k = 1; k < n; k++) {
    Val b = loadByte(S, id, off + k);
    if (!r.e && !b.e) r = C(r.v | (b.v << (8 * k)));
    else r = SV(mkConcat(toE(b, 8), toE(r, 8 * k)));
  }
  return r;
}
static void storeN(State &S, uint32_t id, uint64_t off, unsigned n, const Val &v) {
  Obj *o = objW(S, id);
  if (!v.e) {
    uint32_t i = off % PGSZ;
    if (i + n <= PGSZ) {
      Page *p = o->wr(off);
      memcpy(p->b + i, &v.v, n); memset(p->st + i, 1, n);
      return;
    }
    for (unsigned k = 0; k < n; k++) storeByte(S, o, off + k, C((v.v >> (8 * k)) & 0xff));
    return;
  }
  E e = v.e;
  if (e->w < 8 * n) e = mkZExt(e, 8 * n);
  for (unsigned k = 0; k < n; k++) storeByte(S, o, off + k, SV(mkExtract(e, 8 * k, 8)));
}
static void copyBytes(State &S, uint32_t did, uint64_t doff, uint32_t sid, uint64_t soff, uint64_t n) {
  // through a temporary so that overlapping moves work
  std::vector<uint8_t> b(n), st(n);
  std::vector<E> sy;
  Obj *so = S.mem.get(sid);
  for (uint64_t k = 0; k < n;) {
    Page *p = so->rd(soff + k);
    uint32_t i = (soff + k) % PGSZ, m = (uint32_t)std::min<uint64_t>(n - k, PGSZ - i);
    if (!p) memset(&st[k], 0, m);
    else {
      memcpy(&b[k], p->b + i, m); memcpy(&st[k], p->st + i, m);
      if (p->sym) for (uint32_t x = 0; x < m; x++) if (p->st[i + x] == 2) { if (sy.empty()) sy.resize(n); sy[k + x] = p->sym[i + x]; }
    }
    k += m;
  }
  Obj *d = objW(S, did);
  for (uint64_t k = 0; k < n;) {
    Page *p = d->wr(doff + k);
    uint32_t i = (doff + k) % PGSZ, m = (uint32_t)std::min<uint64_t>(n - k, PGSZ - i);
    memcpy(p->b + i, &b[k], m); memcpy(p->st + i, &st[k], m);
    if (!sy.empty()) for (uint32_t x = 0; x < m; x++) if (st[k + x] == 2) p->setSym(i + x, sy[k + x]);
    k += m;
  }
}
static uint32_t newObj(State &S, ObjKind k, uint64_t size) {
  return S.mem.add(new Obj(k, size, k == K_HEAP ? site(S) : 0));
}

// ------------------------------------------------------------------ decoding
static uint64_t constVal(const Constant *c, bool &undef);
static uint64_t gepConst(const GEPOperator *g) {
  bool u = false;
  uint64_t base = constVal(cast<Constant>(g->getPointerOperand()), u);
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: non-constant constant GEP\n"); exit(3); }
  return base + off.getSExtValue();
}
static uint64_t constVal(const Constant *c, bool &undef) {
  if (isa<UndefValue>(c)) { undef = true; return 0; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().trunc(64).getZExtValue(); return ci->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *cf = dyn_cast<ConstantFP>(c)) { auto a = cf->getValueAPF().bitcastToAPInt(); return a.getBitWidth() <= 64 ? a.getZExtValue() : 0; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = GADDR.find(gv);
    if (it == GADDR.end()) { fprintf(stderr, "symx: unknown global %s\n", gv->getName().str().c_str()); exit(3); }
    return it->second;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gepConst(g);
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0), undef);
    case Instruction::Add: return constVal(ce->getOperand(0), undef) + constVal(ce->getOperand(1), undef);
    case Instruction::Sub: return constVal(ce->getOperand(0), undef) - constVal(ce->getOperand(1), undef);
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "symx: unsupported constant %s\n", s.c_str()); exit(3);
}
static unsigned tw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isVoidTy()) return 0;
  return 0;
}
static void pushFrame(State &S, int tid, DFunc *D, const std::vector<Val> &args, const std::vector<uint8_t> &aw);
// A floating point operation without a model: a few values are looked at, the run stays undecided.
static uint64_t sampleFP(State &S, const Val &v, unsigned w, const std::string &what) {
  E e = toE(v, w);
  static const double cand[] = {1234.5678901, 0.1, -2.5, 1e15 + 0.3, 0.0000005, 3e9};
  noteIncomplete(what);
  for (double c : cand) {
    uint64_t x; float g = (float)c; uint32_t y; memcpy(&x, &c, 8); memcpy(&y, &g, 4); if (w == 32) x = y;
    if (decide(S, mkCmp(O_Eq, e, EP.cst(x, w)))) return x;
  }
  throw Incomplete{what};
}
#include "intrin.h"

static DFunc *getF(const Function *f) { return FM[f]; }
// the scalars an aggregate value is made of (offset, type); a scalar is itself
static void leaves(Type *t, uint64_t off, std::vector<std::pair<uint64_t, Type *>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); }
  else out.push_back({off, t});
}
static std::vector<std::pair<uint64_t, Type *>> leavesOf(Type *t) { std::vector<std::pair<uint64_t, Type *>> v; leaves(t, 0, v); return v; }
static unsigned leafIndex(Type *t, ArrayRef<unsigned> ix) {
  unsigned n = 0;
  for (unsigned i : ix) {
    for (unsigned k = 0; k < i; k++) n += leavesOf(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()).size();
    t = isa<StructType>(t) ? t->getStructElementType(i) : t->getArrayElementType();
  }
  return n;
}

static void decode(DFunc *D) {
  if (D->decoded) return;
  D->decoded = true;
  Function *F = (Function *)D->llvm;
  std::map<const Value *, int32_t> reg;
  int nr = 0;
  for (auto &A : F->args()) { reg[&A] = nr; D->argRegs.push_back(nr++); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = nr; nr += I.getType()->isAggregateType() ? std::max<size_t>(1, leavesOf(I.getType()).size()) : 1; }
  auto opd = [&](const Value *v) -> Opd {
    if (auto *c = dyn_cast<Constant>(v)) { bool u = false; uint64_t x = constVal(c, u); return Opd{-1, (uint8_t)u, x}; }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return Opd{-1, 0, 0};
    auto it = reg.find(v);
    if (it == reg.end()) { fprintf(stderr, "symx: no register\n"); exit(3); }
    return Opd{it->second, 0, 0};
  };
  auto leafOpd = [&](const Value *v, unsigned k) -> Opd {     // k-th scalar of an aggregate value
    if (auto *c = dyn_cast<Constant>(v)) {
      if (isa<UndefValue>(c)) return Opd{-1, 1, 0};
      if (isa<ConstantAggregateZero>(c)) return Opd{-1, 0, 0};
      if (c->getType()->isAggregateType() && leavesOf(c->getType()).size() == c->getType()->getNumContainedTypes()) { bool u = false; uint64_t x = constVal(c->getAggregateElement(k), u); return Opd{-1, (uint8_t)u, x}; }
      fprintf(stderr, "symx: aggregate constant\n"); exit(3);
    }
    return Opd{reg[v] + (int32_t)k, 0, 0};
  };
  std::map<const BasicBlock *, uint32_t> start;
  std::vector<std::pair<DInst *, int>> dummy;
  struct Fix { uint32_t ins; uint32_t edge; const BasicBlock *from, *to; };
  std::vector<Fix> fixes;
  for (auto &B : *F) {
    start[&B] = D->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(&I) || isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::var_annotation || id == Intrinsic::donothing) continue;
      }
      unsigned ln = 0; if (auto dl = I.getDebugLoc()) ln = dl.getLine();
      auto isAgg = [](Type *t) { return t->isAggregateType(); };
      if (isa<LoadInst>(&I) && isAgg(I.getType())) {
        auto lv = leavesOf(I.getType());
        int pr = nr++;
        for (size_t k = 0; k < lv.size(); k++) {
          DInst g; g.op = I_GEP; g.line = ln; g.dst = pr; g.w = 64; g.o.push_back(opd(I.getOperand(0))); g.aux.push_back(lv[k].first); D->code.push_back(g);
          DInst l; l.op = I_LOAD; l.line = ln; l.dst = reg[&I] + k; l.w = tw(lv[k].second); l.o.push_back(Opd{pr, 0, 0}); D->code.push_back(l);
        }
        continue;
      }
      if (isa<StoreInst>(&I) && isAgg(I.getOperand(0)->getType())) {
        auto lv = leavesOf(I.getOperand(0)->getType());
        int pr = nr++;
        for (size_t k = 0; k < lv.size(); k++) {
          DInst g; g.op = I_GEP; g.line = ln; g.dst = pr; g.w = 64; g.o.push_back(opd(I.getOperand(1))); g.aux.push_back(lv[k].first); D->code.push_back(g);
          DInst l; l.op = I_STORE; l.line = ln; l.w2 = tw(lv[k].second); l.o.push_back(leafOpd(I.getOperand(0), k)); l.o.push_back(Opd{pr, 0, 0}); D->code.push_back(l);
        }
        continue;
      }
      if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
        unsigned k = leafIndex(x->getAggregateOperand()->getType(), x->getIndices());
        auto lv = leavesOf(I.getType());
        for (size_t j = 0; j < lv.size(); j++) { DInst c; c.op = I_COPY; c.line = ln; c.dst = reg[&I] + j; c.w = c.w2 = tw(lv[j].second); c.o.push_back(leafOpd(x->getAggregateOperand(), k + j)); D->code.push_back(c); }
        continue;
      }
      if (auto *x = dyn_cast<InsertValueInst>(&I)) {
        unsigned k = leafIndex(I.getType(), x->getIndices()), m = leavesOf(x->getInsertedValueOperand()->getType()).size();
        auto lv = leavesOf(I.getType());
        bool sub = isAgg(x->getInsertedValueOperand()->getType());
        for (size_t j = 0; j < lv.size(); j++) {
          bool in = j >= k && j < k + m;
          Opd o = in ? (sub ? leafOpd(x->getInsertedValueOperand(), j - k) : opd(x->getInsertedValueOperand())) : leafOpd(x->getAggregateOperand(), j);
          if (!in && o.undef) continue;
          DInst c; c.op = I_COPY; c.line = ln; c.dst = reg[&I] + j; c.w = c.w2 = tw(lv[j].second); c.o.push_back(o); D->code.push_back(c);
        }
        continue;
      }
      DInst d;
      d.op = I_UNSUP;
      d.line = ln;
      if (!I.getType()->isVoidTy()) { d.dst = reg[&I]; d.w = tw(I.getType()); }
      auto edge = [&](const BasicBlock *to) { fixes.push_back({(uint32_t)D->code.size(), (uint32_t)d.edges.size(), &B, to}); d.edges.emplace_back(); };
      if (auto *a = dyn_cast<AllocaInst>(&I)) {
        d.op = I_ALLOCA;
        d.aux.push_back(DL->getTypeAllocSize(a->getAllocatedType()));
        d.o.push_back(opd(a->getArraySize()));
        d.w2 = tw(a->getArraySize()->getType());
      } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        d.op = I_LOAD; d.o.push_back(opd(l->getPointerOperand()));
        if (!d.w) { d.op = I_UNSUP; d.note = "load of aggregate"; }
      } else if (auto *s = dyn_cast<StoreInst>(&I)) {
        d.op = I_STORE; d.o.push_back(opd(s->getValueOperand())); d.o.push_back(opd(s->getPointerOperand()));
        d.w2 = tw(s->getValueOperand()->getType());
        if (!d.w2) { d.op = I_UNSUP; d.note = "store of aggregate"; }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        d.op = I_GEP;
        d.o.push_back(opd(g->getPointerOperand()));
        int64_t cofs = 0;
        std::vector<int64_t> sc;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) cofs += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) cofs += ci->getSExtValue() * es;
            else { d.o.push_back(opd(ix)); d.ow.push_back(tw(ix->getType())); sc.push_back(es); }
          }
        }
        d.aux.push_back(cofs);
        for (auto x : sc) d.aux.push_back(x);
      } else if (auto *b = dyn_cast<BinaryOperator>(&I)) {
        d.o.push_back(opd(b->getOperand(0))); d.o.push_back(opd(b->getOperand(1)));
        d.op = I_BIN;
        switch (b->getOpcode()) {
        case Instruction::Add: d.sub = O_Add; break; case Instruction::Sub: d.sub = O_Sub; break; case Instruction::Mul: d.sub = O_Mul; break;
        case Instruction::UDiv: d.sub = O_UDiv; break; case Instruction::SDiv: d.sub = O_SDiv; break; case Instruction::URem: d.sub = O_URem; break; case Instruction::SRem: d.sub = O_SRem; break;
        case Instruction::And: d.sub = O_And; break; case Instruction::Or: d.sub = O_Or; break; case Instruction::Xor: d.sub = O_Xor; break;
        case Instruction::Shl: d.sub = O_Shl; break; case Instruction::LShr: d.sub = O_LShr; break; case Instruction::AShr: d.sub = O_AShr; break;
        default: d.op = I_FP; d.sub = b->getOpcode() == Instruction::FAdd ? '+' : b->getOpcode() == Instruction::FSub ? '-' : b->getOpcode() == Instruction::FMul ? '*' : b->getOpcode() == Instruction::FDiv ? '/' : '?';
        }
        if (d.w > 64 || !d.w) { d.op = I_UNSUP; d.note = "wide integer"; }
      } else if (isa<UnaryOperator>(&I)) {
        d.op = I_FP; d.sub = 'n'; d.o.push_back(opd(I.getOperand(0)));
      } else if (auto *c = dyn_cast<ICmpInst>(&I)) {
        d.op = I_CMP; d.o.push_back(opd(c->getOperand(0))); d.o.push_back(opd(c->getOperand(1)));
        d.w2 = tw(c->getOperand(0)->getType()); d.sub = c->getPredicate();
      } else if (auto *c = dyn_cast<FCmpInst>(&I)) {
        d.op = I_FP; d.sub = 'c'; d.w2 = tw(c->getOperand(0)->getType()); d.aux.push_back(c->getPredicate());
        d.o.push_back(opd(c->getOperand(0))); d.o.push_back(opd(c->getOperand(1)));
      } else if (isa<SelectInst>(&I)) {
        d.op = I_SELECT; for (int k = 0; k < 3; k++) d.o.push_back(opd(I.getOperand(k)));
      } else if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isUnconditional()) { d.op = I_BR; edge(b->getSuccessor(0)); }
        else { d.op = I_CBR; d.o.push_back(opd(b->getCondition())); edge(b->getSuccessor(0)); edge(b->getSuccessor(1)); }
      } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
        d.op = I_SWITCH; d.o.push_back(opd(s->getCondition())); d.w2 = tw(s->getCondition()->getType());
        edge(s->getDefaultDest());
        for (auto &cs : s->cases()) { d.aux.push_back(cs.getCaseValue()->getZExtValue()); edge(cs.getCaseSuccessor()); }
      } else if (isa<ReturnInst>(&I)) {
        d.op = I_RET;
        if (I.getNumOperands() && isAgg(I.getOperand(0)->getType())) {
          auto lv = leavesOf(I.getOperand(0)->getType());
          for (size_t k = 0; k < lv.size(); k++) { d.o.push_back(leafOpd(I.getOperand(0), k)); d.ow.push_back(tw(lv[k].second)); }
          d.w2 = lv.empty() ? 0 : d.ow[0];
        } else if (I.getNumOperands()) { d.o.push_back(opd(I.getOperand(0))); d.w2 = tw(I.getOperand(0)->getType()); }
      } else if (isa<UnreachableInst>(&I)) d.op = I_UNREACH;
      else if (auto *c = dyn_cast<CastInst>(&I)) {
        d.o.push_back(opd(I.getOperand(0))); d.w2 = tw(I.getOperand(0)->getType());
        switch (c->getOpcode()) {
        case Instruction::Trunc: d.op = I_TRUNC; break;
        case Instruction::ZExt: d.op = I_ZEXT; break;
        case Instruction::SExt: d.op = I_SEXT; break;
        case Instruction::PtrToInt: d.op = d.w < 64 ? I_TRUNC : I_COPY; break;
        case Instruction::IntToPtr: d.op = d.w2 < 64 ? I_ZEXT : I_COPY; break;
        case Instruction::BitCast: d.op = I_COPY; break;
        case Instruction::SIToFP: d.op = I_FP; d.sub = 'i'; break;
        case Instruction::UIToFP: d.op = I_FP; d.sub = 'u'; break;
        case Instruction::FPToSI: d.op = I_FP; d.sub = 's'; break;
        case Instruction::FPToUI: d.op = I_FP; d.sub = 'U'; break;
        case Instruction::FPExt: d.op = I_FP; d.sub = 'e'; break;
        case Instruction::FPTrunc: d.op = I_FP; d.sub = 't'; break;
        default: d.note = "cast";
        }
        if (d.w > 64 || d.w2 > 64) { d.op = I_UNSUP; d.note = "wide cast"; }
      } else if (isa<FreezeInst>(&I)) { d.op = I_COPY; d.w2 = d.w; d.o.push_back(opd(I.getOperand(0))); }
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        d.op = I_CALL;
        for (unsigned k = 0; k < cb->arg_size(); k++) {
          const Value *A = cb->getArgOperand(k);
          if (cb->isByValArgument(k)) {      // the callee gets a copy of its own
            DInst b; b.op = I_BYVAL; b.line = ln; b.dst = nr++; b.w = 64; b.o.push_back(opd(A)); b.aux.push_back(DL->getTypeAllocSize(cb->getParamByValType(k)));
            d.o.push_back(Opd{b.dst, 0, 0}); d.ow.push_back(64);
            D->code.push_back(b);
          } else { d.o.push_back(opd(A)); d.ow.push_back(tw(A->getType())); }
        }
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) switch (ii->getIntrinsicID()) {
          case Intrinsic::uadd_with_overflow: d.sub = O_Add; goto ovf; case Intrinsic::sadd_with_overflow: d.sub = O_Add | 64; goto ovf;
          case Intrinsic::usub_with_overflow: d.sub = O_Sub; goto ovf; case Intrinsic::ssub_with_overflow: d.sub = O_Sub | 64; goto ovf;
          case Intrinsic::umul_with_overflow: d.sub = O_Mul; goto ovf; case Intrinsic::smul_with_overflow: d.sub = O_Mul | 64;
          ovf: d.op = I_OVF; d.w = tw(cb->getArgOperand(0)->getType()); if (!d.w || d.w > 64) { d.op = I_UNSUP; d.note = "wide overflow arithmetic"; }
            D->code.push_back(std::move(d)); continue;
          default: break;
        }
        if (cb->isInlineAsm()) { d.op = I_UNSUP; d.note = "inline asm"; }
        else {
          const Value *cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto *cf = dyn_cast<Function>(cv)) { d.callee = getF(cf); }
          else d.o.push_back(opd(cb->getCalledOperand()));     // last operand: function pointer
        }
      } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
        d.op = I_RMW; d.o.push_back(opd(rm->getPointerOperand())); d.o.push_back(opd(rm->getValOperand()));
        switch (rm->getOperation()) { case AtomicRMWInst::Add: d.sub = O_Add; break; case AtomicRMWInst::Sub: d.sub = O_Sub; break; case AtomicRMWInst::Or: d.sub = O_Or; break; case AtomicRMWInst::And: d.sub = O_And; break; case AtomicRMWInst::Xor: d.sub = O_Xor; break; case AtomicRMWInst::Xchg: d.sub = 255; break; default: d.op = I_UNSUP; d.note = "atomicrmw"; }
      } else { d.note = I.getOpcodeName(); }
      D->code.push_back(std::move(d));
    }
  }
  D->nregs = nr;
  for (auto &fx : fixes) {
    Edge &e = D->code[fx.ins].edges[fx.edge];
    e.target = start[fx.to];
    for (auto &P : fx.to->phis()) { e.copies.push_back({reg[&P], opd(P.getIncomingValueForBlock(fx.from))}); e.w.push_back(tw(P.getType())); }
  }
}

static void initGlobal(State &S, uint32_t id, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL->getTypeAllocSize(t); Obj *o = objW(S, id); for (uint64_t k = 0; k < n; k++) storeByte(S, o, off + k, C(0)); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(S, id, off + i * es, a->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(a->getType()); uint64_t n = sl->getSizeInBytes(); Obj *o = objW(S, id); for (uint64_t k = 0; k < n; k++) storeByte(S, o, off + k, C(0)); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(S, id, off + sl->getElementOffset(i), a->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) initGlobal(S, id, off + i * es, a->getElementAsConstant(i)); return; }
  bool u = false; uint64_t v = constVal(c, u);
  uint64_t n = DL->getTypeStoreSize(t);
  storeN(S, id, off, (unsigned)std::min<uint64_t>(n, 8), C(v));
}

// ------------------------------------------------------------------ interpreter
static inline Val ev(State &S, Frame &f, const Opd &o, unsigned w) {
  if (o.reg >= 0) return f.R[o.reg];
  if (o.undef && w && w <= 64) {     // an arbitrary value, fixed per operand and path
    S.usedUninit = true;
    auto it = S.undefs.find(&o);
    if (it != S.undefs.end()) return SV(it->second);
    E v = freshVar(S, w, 0xbebebebebebebebeull);
    S.uninit.push_back((uint32_t)v->v);
    S.undefs[&o] = v;
    return SV(v);
  }
  return C(o.v);
}
static void pushFrame(State &S, int tid, DFunc *D, const std::vector<Val> &args, const std::vector<uint8_t> &aw) {
  decode(D);
  if (D->repo) SH->fnUsed[D->idx] = 1;
  auto &st = S.th[tid].st;
  if (st.size() > 20000) throw Violation{"unbounded recursion (stack exhausted)"};
  st.emplace_back();
  Frame &f = st.back();
  f.f = D;
  f.R.assign(D->nregs, Val{nullptr, 0});
  for (size_t i = 0; i < D->argRegs.size() && i < args.size(); i++) f.R[D->argRegs[i]] = args[i];
  if (D->vararg) {
    size_t nf = D->argRegs.size(), nv = args.size() > nf ? args.size() - nf : 0;
    uint32_t id = newObj(S, K_VARARG, 8 * (nv ? nv : 1));
    for (size_t i = 0; i < nv; i++) storeN(S, id, 8 * i, (aw[nf + i] + 7) / 8, args[nf + i]);
    st.back().varObj = id;
    st.back().allocas.push_back(id);
  }
}
static void popFrame(State &S) {
  auto &st = S.th[S.cur].st;
  for (uint32_t id : st.back().allocas) S.mem.remove(id);
  st.pop_back();
}
static double dbl(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t ubl(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

static void takeEdge(State &S, Frame &f, const Edge &e) {
  size_t n = e.copies.size();
  if (n == 1) f.R[e.copies[0].first] = ev(S, f, e.copies[0].second, e.w[0]);
  else if (n) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = ev(S, f, e.copies[i].second, e.w[i]);
    for (size_t i = 0; i < n; i++) f.R[e.copies[i].first] = t[i];
  }
  f.pc = e.target;
}
static Val cmpv(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t m = maskw(w), x = a.v & m, y = b.v & m; int64_t sx = sxt(x, w), sy = sxt(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y);
    case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y);
    case CmpInst::ICMP_SGT: return C(sx > sy); case CmpInst::ICMP_SGE: return C(sx >= sy); case CmpInst::ICMP_SLT: return C(sx < sy); case CmpInst::ICMP_SLE: return C(sx <= sy);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return SV(mkCmp(O_Eq, x, y)); case CmpInst::ICMP_NE: return SV(mkNot(mkCmp(O_Eq, x, y)));
  case CmpInst::ICMP_UGT: return SV(mkCmp(O_Ult, y, x)); case CmpInst::ICMP_UGE: return SV(mkCmp(O_Ule, y, x));
  case CmpInst::ICMP_ULT: return SV(mkCmp(O_Ult, x, y)); case CmpInst::ICMP_ULE: return SV(mkCmp(O_Ule, x, y));
  case CmpInst::ICMP_SGT: return SV(mkCmp(O_Slt, y, x)); case CmpInst::ICMP_SGE: return SV(mkCmp(O_Sle, y, x));
  case CmpInst::ICMP_SLT: return SV(mkCmp(O_Slt, x, y)); case CmpInst::ICMP_SLE: return SV(mkCmp(O_Sle, x, y));
  }
  throw Incomplete{"icmp predicate"};
}
static Val binv(State &S, uint8_t op, const Val &a, const Val &b, unsigned w) {
  if (op == O_UDiv || op == O_SDiv || op == O_URem || op == O_SRem) {
    bool z = b.e ? decide(S, mkCmp(O_Eq, b.e, EP.cst(0, w))) : (b.v & maskw(w)) == 0;
    if (z) throw Violation{"division by zero"};
  }
  if (!a.e && !b.e) {
    bool ok; return C(foldBin(op, a.v, b.v, w, ok));
  }
  return SV(mkBin(op, toE(a, w), toE(b, w)));
}

static uint8_t *COV;             // lines reached and branches taken, with SYMX_COV
static bool step(State &S) {     // returns false when the path is complete
  int tid = S.cur;
  Frame &f = S.th[tid].st.back();
  const DInst &d = f.f->code[f.pc];
  S.steps++;
  if (COV && f.f->repo) COV[(size_t)f.f->idx * 4096 + (d.line & 4095)] |= 1;
  switch (d.op) {
  case I_ALLOCA: {
    uint64_t n = concretize(S, ev(S, f, d.o[0], d.w2), d.w2);
    uint64_t sz = n * d.aux[0];
    if (sz > (64u << 20)) throw Violation{"stack object too large"};
    uint32_t id = newObj(S, K_STACK, sz ? sz : 1);
    f.allocas.push_back(id);
    f.R[d.dst] = C(addrOf(id));
    f.pc++;
    return true;
  }
  case I_LOAD: {
    unsigned n = (d.w + 7) / 8; uint64_t off;
    uint32_t id = access(S, ev(S, f, d.o[0], 64), n, false, off, "read");
    Val v = loadN(S, id, off, n);
    if (d.w < 8 * n) v = v.e ? SV(mkExtract(v.e, 0, d.w)) : C(v.v & maskw(d.w));
    f.R[d.dst] = v;
    f.pc++;
    return true;
  }
  case I_STORE: {
    unsigned n = (d.w2 + 7) / 8; uint64_t off;
    uint32_t id = access(S, ev(S, f, d.o[1], 64), n, true, off, "write");
    if (d.o[0].undef) {      // storing an undefined value: uninitialised again
      Obj *o = objW(S, id); for (unsigned k = 0; k < n; k++) { Page *p = o->wr(off + k); p->st[(off + k) % PGSZ] = 0; }
    } else {
      Val v = ev(S, f, d.o[0], d.w2);
      if (!v.e) v.v &= maskw(d.w2);
      storeN(S, id, off, n, v);
    }
    f.pc++;
    return true;
  }
  case I_GEP: {
    Val b = ev(S, f, d.o[0], 64);
    uint64_t c = d.aux[0];
    E se = nullptr;
    for (size_t i = 1; i < d.o.size(); i++) {
      Val x = ev(S, f, d.o[i], d.ow[i - 1]);
      unsigned w = d.ow[i - 1];
      if (!x.e) c += (uint64_t)sxt(x.v, w) * d.aux[i];
      else {
        E t = w < 64 ? mkSExt(x.e, 64) : mkExtract(x.e, 0, 64);
        t = mkBin(O_Mul, t, EP.cst(d.aux[i], 64));
        se = se ? mkBin(O_Add, se, t) : t;
      }
    }
    if (!b.e && !se) f.R[d.dst] = C(b.v + c);
    else { E t = toE(b, 64); if (se) t = mkBin(O_Add, t, se); f.R[d.dst] = SV(mkBin(O_Add, t, EP.cst(c, 64))); }
    f.pc++;
    return true;
  }
  case I_BIN: {
    Val a = ev(S, f, d.o[0], d.w), b = ev(S, f, d.o[1], d.w);
    Val r = binv(S, d.sub, a, b, d.w);
    f.R[d.dst] = r; f.pc++;
    return true;
  }
  case I_CMP: f.R[d.dst] = cmpv(d.sub, ev(S, f, d.o[0], d.w2), ev(S, f, d.o[1], d.w2), d.w2); f.pc++; return true;
  case I_SELECT: {
    Val c = ev(S, f, d.o[0], 1);
    if (!c.e) f.R[d.dst] = ev(S, f, d.o[c.v & 1 ? 1 : 2], d.w);
    else { Val a = ev(S, f, d.o[1], d.w), b = ev(S, f, d.o[2], d.w); f.R[d.dst] = SV(mkIte(c.e, toE(a, d.w), toE(b, d.w))); }
    f.pc++; return true;
  }
  case I_BR: takeEdge(S, f, d.edges[0]); return true;
  case I_CBR: {
    Val c = ev(S, f, d.o[0], 1);
    bool t = c.e ? decide(S, c.e) : (c.v & 1);
    if (COV && f.f->repo) COV[(size_t)f.f->idx * 4096 + (d.line & 4095)] |= t ? 2 : 4;
    takeEdge(S, f, d.edges[t ? 0 : 1]);
    return true;
  }
  case I_SWITCH: {
    Val c = ev(S, f, d.o[0], d.w2);
    size_t k = 0;
    for (size_t i = 0; i < d.aux.size(); i++) {
      bool m = c.e ? decide(S, mkCmp(O_Eq, c.e, EP.cst(d.aux[i], d.w2))) : ((c.v ^ (uint64_t)d.aux[i]) & maskw(d.w2)) == 0;
      if (m) { k = i + 1; break; }
    }
    takeEdge(S, f, d.edges[k]);
    return true;
  }
  case I_RET: {
    Val r = C(0); bool has = !d.o.empty();
    if (has) r = ev(S, f, d.o[0], d.w2);
    std::vector<Val> more;
    for (size_t k = 1; k < d.o.size(); k++) more.push_back(ev(S, f, d.o[k], d.ow[k]));
    popFrame(S);
    if (S.th[tid].st.empty()) {
      if (tid != 0) throw Incomplete{"thread function returned"};
      return false;
    }
    Frame &g = S.th[tid].st.back();
    const DInst &ci = g.f->code[g.pc];
    if (has && ci.op == I_FP) r = r.e ? SV(mkExtract(r.e, 0, ci.w)) : C(r.v & maskw(ci.w));
    if (has && ci.dst >= 0) g.R[ci.dst] = r;
    if (ci.dst >= 0) for (size_t k = 0; k < more.size(); k++) g.R[ci.dst + 1 + k] = more[k];
    g.pc++;
    return true;
  }
  case I_UNREACH: throw Violation{"unreachable code reached (a function that must not return, returned)"};
  case I_TRUNC: { Val a = ev(S, f, d.o[0], d.w2); f.R[d.dst] = a.e ? SV(mkExtract(a.e, 0, d.w)) : C(a.v & maskw(d.w)); f.pc++; return true; }
  case I_ZEXT: { Val a = ev(S, f, d.o[0], d.w2); f.R[d.dst] = a.e ? SV(mkZExt(a.e, d.w)) : C(a.v & maskw(d.w2)); f.pc++; return true; }
  case I_SEXT: { Val a = ev(S, f, d.o[0], d.w2); f.R[d.dst] = a.e ? SV(mkSExt(a.e, d.w)) : C((uint64_t)sxt(a.v, d.w2) & maskw(d.w)); f.pc++; return true; }
  case I_COPY: f.R[d.dst] = ev(S, f, d.o[0], d.w2); f.pc++; return true;
  case I_BYVAL: {
    uint64_t off, n = d.aux[0];
    uint32_t src = access(S, ev(S, f, d.o[0], 64), n, false, off, "read");
    uint32_t id = newObj(S, K_STACK, n ? n : 1);
    f.allocas.push_back(id);
    copyBytes(S, id, 0, src, off, n);
    f.R[d.dst] = C(addrOf(id));
    f.pc++;
    return true;
  }
  case I_OVF: {
    Val a = ev(S, f, d.o[0], d.w), b = ev(S, f, d.o[1], d.w);
    uint8_t op = d.sub & 63; bool sg = d.sub & 64; unsigned w = d.w;
    Val r, o;
    if (!a.e && !b.e) {
      __int128 x = sg ? (__int128)sxt(a.v & maskw(w), w) : (__int128)(a.v & maskw(w)), y = sg ? (__int128)sxt(b.v & maskw(w), w) : (__int128)(b.v & maskw(w));
      __int128 z; bool big = false;
      if (op == O_Mul && !sg) { unsigned __int128 u = (unsigned __int128)x * (unsigned __int128)y; big = u > maskw(w); z = (__int128)(u & maskw(w)); }
      else { z = op == O_Add ? x + y : op == O_Sub ? x - y : x * y; big = sg ? z != (__int128)sxt((uint64_t)z & maskw(w), w) : (z < 0 || z > (__int128)maskw(w)); }
      r = C((uint64_t)z & maskw(w)); o = C(big);
    } else {
      E x = toE(a, w), y = toE(b, w), z = mkBin(op, x, y), zero = EP.cst(0, w);
      r = SV(z);
      if (op == O_Add && !sg) o = SV(mkCmp(O_Ult, z, x));
      else if (op == O_Sub && !sg) o = SV(mkCmp(O_Ult, x, y));
      else if (op == O_Add || op == O_Sub) {
        E t = op == O_Add ? mkBin(O_And, mkBin(O_Xor, z, x), mkBin(O_Xor, z, y)) : mkBin(O_And, mkBin(O_Xor, x, y), mkBin(O_Xor, z, x));
        o = SV(mkCmp(O_Slt, t, zero));
      } else {      // z / y == x for y != 0 decides it (y is made concrete when it is not)
        if (x->op == O_Const) { E t = x; x = y; y = t; }
        if (y->op != O_Const) y = EP.cst(concretize(S, SV(y), w), w);
        uint64_t yv = sg ? (uint64_t)sxt(y->v, w) : y->v;
        if (yv == 0) o = C(0);
        else if (!sg) o = SV(mkCmp(O_Ult, EP.cst(maskw(w) / yv, w), x));
        else {
          int64_t c = (int64_t)yv, mn = sxt((uint64_t)1 << (w - 1), w), mx = (int64_t)(maskw(w) >> 1);
          if (c == -1) o = SV(mkCmp(O_Eq, x, EP.cst((uint64_t)mn & maskw(w), w)));
          else { int64_t lo = c > 0 ? mn / c : mx / c, hi = c > 0 ? mx / c : mn / c; o = SV(mkNot(mkBin(O_And, mkNot(mkCmp(O_Slt, x, EP.cst((uint64_t)lo & maskw(w), w))), mkNot(mkCmp(O_Slt, EP.cst((uint64_t)hi & maskw(w), w), x))))); }
        }
      }
    }
    f.R[d.dst] = r; f.R[d.dst + 1] = o;
    f.pc++;
    return true;
  }
  case I_FP: {
    unsigned w0 = d.sub == 'c' || d.sub == 'i' || d.sub == 'u' || d.sub == 's' || d.sub == 'U' || d.sub == 'e' || d.sub == 't' ? d.w2 : d.w;
    Val a = ev(S, f, d.o[0], w0), b = d.o.size() > 1 ? ev(S, f, d.o[1], w0) : C(0);
    uint64_t x, y, r = 0;
    if (!isConcrete(S, a, x) || !isConcrete(S, b, y)) {      // executed by a function of models/softfp.c
      const char *fn = nullptr; std::vector<Val> args{a}; std::vector<uint8_t> aw{64};
      switch (d.sub) {
      case 'n': if (w0 == 64) fn = "sxf_neg"; break;
      case 'i': if (d.w == 64) { fn = "sxf_i2d"; args[0] = SV(mkSExt(toE(a, w0), 64)); } break;
      case 'u': if (d.w == 64) { fn = "sxf_u2d"; args[0] = SV(mkZExt(toE(a, w0), 64)); } break;
      case 's': if (w0 == 64) fn = d.w == 64 ? "sxf_d2i" : "sxf_d2w"; break;
      case 'U': if (w0 == 64) fn = d.w == 64 ? "sxf_d2u" : "sxf_d2i"; break;
      case 'e': if (w0 == 32 && d.w == 64) { fn = "sxf_ext"; args[0] = SV(mkZExt(toE(a, 32), 64)); } break;
      case 't': if (w0 == 64 && d.w == 32) fn = "sxf_trunc"; break;
      case 'c': if (w0 == 64) { fn = "sxf_cmp"; args.push_back(b); args.push_back(C(d.aux[0])); aw = {64, 64, 64}; } break;
      }
      Function *F = fn ? M->getFunction(fn) : nullptr;
      if (F) { pushFrame(S, tid, FM[F], args, aw); return true; }
      if (d.sub == 'i' || d.sub == 'u') throw Incomplete{"floating point operation on a symbolic value"};
      x = isConcrete(S, a, x) ? x : sampleFP(S, a, w0, "floating point operation on a symbolic value");
      y = isConcrete(S, b, y) ? y : sampleFP(S, b, w0, "floating point operation on a symbolic value");
    }
    if ((d.sub == '+' || d.sub == '-' || d.sub == '*' || d.sub == '/' || d.sub == 'n' || d.sub == 'c') && w0 != 64) throw Incomplete{"float arithmetic"};
    switch (d.sub) {
    case '+': r = ubl(dbl(x) + dbl(y)); break; case '-': r = ubl(dbl(x) - dbl(y)); break;
    case '*': r = ubl(dbl(x) * dbl(y)); break; case '/': r = ubl(dbl(x) / dbl(y)); break;
    case 'n': r = ubl(-dbl(x)); break;
    case 'i': r = ubl((double)sxt(x, d.w2)); break; case 'u': r = ubl((double)x); break;
    case 's': r = (uint64_t)(int64_t)dbl(x); break; case 'U': r = (uint64_t)dbl(x); break;
    case 'c': {
      double p = dbl(x), q = dbl(y); bool un = std::isnan(p) || std::isnan(q);
      switch (d.aux[0]) {
      case CmpInst::FCMP_OEQ: r = p == q; break; case CmpInst::FCMP_OGT: r = p > q; break; case CmpInst::FCMP_OGE: r = p >= q; break;
      case CmpInst::FCMP_OLT: r = p < q; break; case CmpInst::FCMP_OLE: r = p <= q; break; case CmpInst::FCMP_ONE: r = !un && p != q; break;
      case CmpInst::FCMP_UNE: r = un || p != q; break; case CmpInst::FCMP_UEQ: r = un || p == q; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      default: throw Incomplete{"fcmp predicate"};
      } break; }
    default: throw Incomplete{"floating point operation"};
    }
    f.R[d.dst] = C(r & maskw(d.w)); f.pc++;
    return true;
  }
  case I_RMW: {
    unsigned n = d.w / 8; uint64_t off;
    uint32_t id = access(S, ev(S, f, d.o[0], 64), n, true, off, "write");
    Val old = loadN(S, id, off, n), v = ev(S, f, d.o[1], d.w);
    storeN(S, id, off, n, d.sub == 255 ? v : binv(S, d.sub, old, v, d.w));
    f.R[d.dst] = old; f.pc++;
    return true;
  }
  case I_CALL: {
    DFunc *D = d.callee;
    size_t na = d.o.size();
    if (!D) {
      na--;
      uint64_t fp = concretize(S, ev(S, f, d.o[na], 64), 64);
      auto it = OBJ2F.find((uint32_t)(fp >> 32));
      if (it == OBJ2F.end() || (fp & 0xffffffffull) != ADDR_OFF) throw Violation{"call through an invalid function pointer"};
      D = it->second;
    }
    if (D->hasBody) {
      std::vector<Val> args(na);
      for (size_t i = 0; i < na; i++) args[i] = ev(S, f, d.o[i], d.ow[i]);
      pushFrame(S, tid, D, args, d.ow);
      return true;
    }
    if (D->intr < 0) throw Incomplete{"call of unmodelled function " + D->name};
    Val args[16];
    if (na > 16) throw Incomplete{"too many arguments"};
    for (size_t i = 0; i < na; i++) args[i] = ev(S, f, d.o[i], d.ow[i]);
    Val r = C(0);
    int act = callIntrinsic(S, D, d, args, (int)na, r);
    Frame &g = S.th[tid].st.back();
    if (d.dst >= 0) g.R[d.dst] = r;
    g.pc++;
    if (act == 1) return false;
    return true;
  }
  default: throw Incomplete{"unsupported instruction " + d.note + " in " + f.f->name};
  }
}

static void pathEnd(State &S) {
  uint64_t p = ++SH->paths;
  uint64_t m = SH->maxSteps; if (S.steps > m) SH->maxSteps = S.steps;
  m = SH->maxDepth; if (S.depth > m) SH->maxDepth = S.depth;
  if ((p <= 2 || (p & (p - 1)) == 0) && SH->nsamples < maxSamples) {
    int n = SH->nsamples++;
    if (n < maxSamples) dumpCase(S, outDir + "/sample-" + std::to_string(n) + ".json", "", "", S.wit);
  }
}
static int nchild = 0;
static void flushStats() {
  SH->queries += SLV.queries; SH->sat += SLV.sat; SH->unsat += SLV.unsat; SH->unknown += SLV.unknown; SH->hits += SLV.hits; SH->asserts += SLV.asserts;
  SH->us += (uint64_t)(SLV.secs * 1e6); uint64_t mu = (uint64_t)(SLV.maxsec * 1e6), o = SH->maxus; if (mu > o) SH->maxus = mu;
  SLV.queries = SLV.sat = SLV.unsat = SLV.unknown = SLV.hits = SLV.asserts = 0; SLV.secs = SLV.maxsec = 0;
}
static void spawn() {
  // hand the oldest half of the pending states to a new process
  if (WL.size() < 2) return;
  int a = SH->active.load();
  if (a >= jobs) return;
  if (!SH->active.compare_exchange_strong(a, a + 1)) return;
  size_t half = WL.size() / 2; if (!half) half = 1;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { SH->active--; return; }
  SH->procs++;
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);      // a parent waits for its children, so it only dies first when killed
    for (size_t i = half; i < WL.size(); i++) delete WL[i];
    WL.resize(half);
    nchild = 0;
    SLV.queries = SLV.sat = SLV.unsat = SLV.unknown = SLV.hits = SLV.asserts = 0; SLV.secs = SLV.maxsec = 0;
  } else {
    nchild++;
    for (size_t i = 0; i < half; i++) delete WL[i];
    WL.erase(WL.begin(), WL.begin() + half);
  }
}
static void explore() {
  while (!WL.empty()) {
    if (SH->stop) break;
    if (deadline && now() > deadline) { noteIncomplete("time budget exhausted with " + std::to_string(WL.size()) + " states pending"); SH->stop = 2; break; }
    spawn();
    if (WL.empty()) break;
    State *S = WL.back(); WL.pop_back();
    uint64_t cnt = 0, s0 = S->steps;
    try {
      for (;;) {
        if (!step(*S)) { pathEnd(*S); break; }
        if ((++cnt & 0x3fff) == 0) {
          if (SH->stop) break;
          if (S->steps > maxSteps) throw Violation{"no termination within " + std::to_string(maxSteps) + " instructions (hang)"};
          if (deadline && now() > deadline) { noteIncomplete("time budget exhausted inside a path"); SH->stop = 2; break; }
          if (WL.size() >= 1) { // let idle processes take the pending work
            WL.push_back(S); size_t before = WL.size();
            if (before >= 2) spawn();
            if (WL.empty() || WL.back() != S) { S = nullptr; break; }
            WL.pop_back();
          }
        }
      }
    } catch (KillPath &) { SH->killed++; }
    catch (Violation &v) { SH->paths++; reportViolation(*S, v.msg, S->wit); }
    catch (Incomplete &i) { SH->paths++; noteIncomplete(i.msg + " at " + where(*S, 4)); }
    if (S) { SH->instrs += S->steps - s0; delete S; }
  }
  flushStats();
}

int main(int argc, char **argv) {
  std::string bc, fnlist; uint64_t rl = 40000000; double budget = 0; std::string summary, dumpDir; uint64_t dumpEvery = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--entry") entryName = nx(); else if (a == "--out") outDir = nx();
    else if (a == "--param") params.push_back(atoll(argv[++i])); else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--max-viol") maxViol = atoi(argv[++i]); else if (a == "--max-steps") maxSteps = atoll(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--rlimit") rl = atoll(argv[++i]);
    else if (a == "--samples") maxSamples = atoi(argv[++i]); else if (a == "--repo") repoPrefix = nx(); else if (a == "-v") verbose = true; else if (a == "--reuse") reuseHeap = true;
    else if (a == "--dump-every") dumpEvery = atoll(argv[++i]); else if (a == "--dump-dir") dumpDir = nx();
    else { fprintf(stderr, "symx: bad option %s\n", a.c_str()); return 3; }
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (getenv("SYMX_COV")) COV = (uint8_t *)mmap(nullptr, (size_t)8192 * 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->active = 1;
  double t0 = now();
  if (budget > 0) deadline = t0 + budget;
  SMDiagnostic err;
  M = parseIRFile(bc, err, LC);
  if (!M) { err.print("symx", errs()); return 3; }
  DL = &M->getDataLayout();
  SLV.init(rl);
  SLV.dumpDir = dumpDir; SLV.dumpEvery = dumpEvery;
  State *S = new State();
  S->th.resize(1);
  // functions and globals
  for (auto &F : *M) {
    DFunc *D = new DFunc();
    D->name = F.getName().str(); D->hasBody = !F.isDeclaration(); D->vararg = F.isVarArg(); D->llvm = &F; D->nargs = F.arg_size();
    D->retw = tw(F.getReturnType());
    if (auto *sp = F.getSubprogram()) { D->file = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) D->file = sp->getFilename().str(); D->repo = D->file.compare(0, repoPrefix.size(), repoPrefix) == 0; }
    D->idx = FUNCS.size();
    if (D->idx >= 8192) return 3;
    FUNCS.push_back(D); FM[&F] = D;
    if (!D->hasBody) D->intr = findIntrinsic(D->name);
    Obj *o = new Obj(K_FUNC, 1, 0); o->ro = true;
    D->objId = S->mem.add(o);
    OBJ2F[D->objId] = D;
    GADDR[&F] = addrOf(D->objId);
  }
  for (auto &G : M->globals()) {
    uint64_t sz = DL->getTypeAllocSize(G.getValueType());
    Obj *o = new Obj(G.isConstant() ? K_CONST : K_GLOBAL, sz ? sz : 1, 0);
    GADDR[&G] = addrOf(S->mem.add(o));
  }
  for (auto &A : M->aliases()) { bool u = false; GADDR[&A] = constVal(A.getAliasee(), u); }
  for (auto &G : M->globals()) {
    uint32_t id = (uint32_t)(GADDR[&G] >> 32);
    if (G.hasInitializer()) initGlobal(*S, id, 0, G.getInitializer());
    else if (G.getName() != "stdout" && G.getName() != "stderr" && G.getName() != "stdin" && !G.getName().starts_with("llvm.")) fprintf(stderr, "symx: warning: external global %s\n", G.getName().str().c_str());
    if (!G.hasInitializer()) storeN(*S, id, 0, (unsigned)std::min<uint64_t>(8, DL->getTypeAllocSize(G.getValueType())), C(G.getName() == "stdout" ? 0xf001 : G.getName() == "stderr" ? 0xf002 : G.getName() == "stdin" ? 0xf000 : 0));
    if (G.isConstant()) S->mem.getW(id)->ro = true;
  }
  Function *EF = M->getFunction(entryName);
  if (!EF || EF->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entryName.c_str()); return 3; }
  pushFrame(*S, 0, FM[EF], {}, {});
  WL.push_back(S);
  pid_t root = getpid();
  explore();
  SH->active--;
  while (nchild > 0) {
    int st; pid_t p = wait(&st);
    if (p < 0) break;
    nchild--;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; }
  }
  if (getpid() != root) { _exit(0); }
  if (COV) if (FILE *f = fopen(getenv("SYMX_COV"), "a")) {
    for (auto *D : FUNCS) if (D->repo && SH->fnUsed[D->idx]) {
      decode(D);
      for (auto &d : D->code) if (d.line) fprintf(f, "%s %s %u %d %d\n", D->file.c_str(), D->name.c_str(), d.line, COV[(size_t)D->idx * 4096 + (d.line & 4095)], d.op == I_CBR);
    }
    fclose(f);
  }
  // summary
  std::string fns;
  for (auto *D : FUNCS) if (D->repo && SH->fnUsed[D->idx]) { if (!fns.empty()) fns += ","; fns += jstr(D->name); }
  FILE *f = fopen((outDir + "/summary.json").c_str(), "w");
  fprintf(f, "{\"entry\":%s,\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"asserted\":%llu,\"checks\":%llu,\"checks_solver\":%llu,\"max_fork_depth\":%llu,\"max_path_steps\":%llu,\"max_constraints\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"processes\":%llu,\"violations\":%d,\"incomplete\":%llu,\"stopped\":%d,\"crashed\":%d,\"wall_s\":%.2f,\n\"functions\":[%s],\n\"covers\":{",
    jstr(entryName).c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->killed, (unsigned long long)SH->forks, (unsigned long long)SH->instrs,
    (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->hits, (unsigned long long)SH->asserts,
    (unsigned long long)SH->checks, (unsigned long long)SH->checksSolver, (unsigned long long)SH->maxDepth, (unsigned long long)SH->maxSteps, (unsigned long long)SH->maxCons,
    SH->us / 1e6, SH->maxus / 1e6, (unsigned long long)SH->procs + 1, (int)SH->nviol, (unsigned long long)SH->incomplete, (int)SH->stop, (int)SH->crashed, now() - t0, fns.c_str());
  for (int i = 0; i < SH->ncover; i++) fprintf(f, "%s%s:%llu", i ? "," : "", jstr(SH->coverName[i]).c_str(), (unsigned long long)SH->cover[i]);
  fprintf(f, "},\n\"incomplete_reasons\":[");
  for (int i = 0; i < SH->nincMsg && i < 16; i++) fprintf(f, "%s%s", i ? "," : "", jstr(SH->incMsg[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
