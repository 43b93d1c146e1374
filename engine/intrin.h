// Engine intrinsics: harness API and byte-level libc primitives.
typedef int (*IntrFn)(State &, const DInst &, Val *, int, Val &);
static std::vector<IntrFn> INTR;
static std::map<std::string, int> INTRN;

static std::string cstrAt(State &S, const Val &a) {      // concrete string (labels)
  std::string s;
  if (a.e) throw Incomplete{"symbolic label"};
  uint32_t id = (uint32_t)(a.v >> 32);
  Obj *o = S.mem.get(id);
  if (!o) return "?";
  uint64_t off = (a.v & 0xffffffffu) - ADDR_OFF;
  for (; off < o->size; off++) { Page *p = o->rd(off); if (!p || p->st[off % PGSZ] != 1 || !p->b[off % PGSZ]) break; s += (char)p->b[off % PGSZ]; }
  return s;
}
static int i_sym(State &S, const DInst &d, Val *a, int, Val &r) {
  unsigned w = (unsigned)a[1].v;
  if (a[1].e || w < 1 || w > 64) throw Incomplete{"sx_sym width"};
  E v = freshVar(S, w, 0);
  S.log.push_back({v, cstrAt(S, a[0])});
  r = SV(mkZExt(v, 64));
  return 0;
}
static int i_choose(State &S, const DInst &d, Val *a, int, Val &r) {
  if (a[1].e) throw Incomplete{"sx_choose with symbolic bound"};
  uint64_t n = a[1].v & 0xffffffffu;
  if (n == 0) throw KillPath();
  unsigned w = 1; while ((1ull << w) < n) w++;
  E v = freshRange(S, w, 0, 0, n - 1, nullptr);
  S.log.push_back({mkZExt(v, 32), cstrAt(S, a[0])});
  r = n == 1 ? C(0) : SV(mkZExt(v, 32));
  return 0;
}
static int i_bytes(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t off, n = concretize(S, a[1], 64);
  if (!n) return 0;
  uint32_t id = access(S, a[0], n, true, off, "write");
  std::string nm = cstrAt(S, a[2]);
  Obj *o = objW(S, id);
  for (uint64_t k = 0; k < n; k++) {
    E v = freshVar(S, 8, 0);
    S.log.push_back({v, nm + "[" + std::to_string(k) + "]"});
    storeByte(S, o, off + k, SV(v));
  }
  return 0;
}
static E nz(const Val &v, unsigned w) { return mkNot(mkCmp(O_Eq, toE(v, w), EP.cst(0, w))); }
static int i_assume(State &S, const DInst &d, Val *a, int, Val &r) {
  if (!a[0].e) { if (!(a[0].v & 0xffffffffu)) throw KillPath(); return 0; }
  assume(S, nz(a[0], 32));
  return 0;
}
static int i_check(State &S, const DInst &d, Val *a, int, Val &r) {
  SH->checks++;
  if (!a[0].e) { if (!(a[0].v & 0xffffffffu)) throw Violation{"check failed: " + cstrAt(S, a[1])}; return 0; }
  E c = nz(a[0], 32);
  int k = knownCond(S, c);
  if (k == 1) return 0;
  SH->checksSolver++;
  std::string msg;
  bool bad = k == 0;
  std::vector<uint64_t> asg = S.wit;
  if (!bad) {
    if (!EP.eval(c, S.wit)) bad = true;
    else {
      Res q = feasible(S, mkNot(c), asg);
      if (q == R_UNKNOWN) noteIncomplete("solver gave no answer for a check: " + cstrAt(S, a[1]));
      bad = q == R_SAT;
      if (!bad) { S.known.insert(c->id); return 0; }
    }
  }
  if (bad) reportViolation(S, "check failed: " + cstrAt(S, a[1]), asg);
  assume(S, c);
  return 0;
}
static int i_fail(State &S, const DInst &d, Val *a, int, Val &r) { throw Violation{cstrAt(S, a[0])}; }
static int i_incomplete(State &S, const DInst &d, Val *a, int, Val &r) { throw Incomplete{cstrAt(S, a[0])}; }
static int i_done(State &S, const DInst &d, Val *a, int, Val &r) { return 1; }
static int i_cover(State &S, const DInst &d, Val *a, int, Val &r) {
  std::string s = cstrAt(S, a[0]).substr(0, 63);
  int n = SH->ncover;
  for (int i = 0; i < n && i < 256; i++) if (s == SH->coverName[i]) { SH->cover[i]++; return 0; }
  n = SH->ncover++;
  if (n >= 256) { SH->ncover = 256; return 0; }
  strcpy(SH->coverName[n], s.c_str()); SH->cover[n]++;
  return 0;
}
static int i_concrete(State &S, const DInst &d, Val *a, int, Val &r) { r = C(concretize(S, a[0], 64)); return 0; }
static int i_issym(State &S, const DInst &d, Val *a, int, Val &r) { uint64_t x; r = C(!isConcrete(S, a[0], x)); return 0; }
// sx_digit(v, n, i): i-th of the n decimal digits of v, v known to have n digits.  The
// model states afterwards, with sx_equate, that the digits spell v.
static int digitOf(State &S, Val *a, Val &r, bool padded) {
  if (a[1].e || a[2].e) throw Incomplete{"sx_digit"};
  unsigned n = (unsigned)a[1].v, i = (unsigned)a[2].v;
  E v = toE(a[0], 64);
  uint64_t q = 1; for (unsigned k = i + 1; k < n; k++) q *= 10;
  unsigned tag = padded ? 0x40 : 0;
  if (n == 1) { r = SV(v); return 0; }       // v is below ten
  E &m = S.digits[{v, n | tag, i}];
  bool fresh = !m;
  if (fresh) m = freshRange(S, 4, EP.eval(v, S.wit) / q % 10, !padded && i == 0 ? 1 : 0, n == 20 && i == 0 ? 1 : 9,
                         EP.mk(O_Concat, 64, v, EP.cst(n | tag, 8), EP.cst(i, 8)));   // (value, n, i): a label only
  if (fresh && i + 1 == n) {                 // the digits spell v
    E acc = nullptr;
    for (unsigned k = 0; k < n; k++) {
      E &dk = S.digits[{v, n | tag, k}];
      if (!dk) throw Incomplete{"sx_digit: digits out of order"};
      E z = EP.mk(O_ZExt, 64, dk);
      acc = acc ? EP.mk(O_Add, 64, EP.mk(O_Mul, 64, acc, EP.cst(10, 64)), z) : z;
    }
    E c = EP.mk(O_Eq, 1, acc, v);
    if (!EP.eval(c, S.wit)) throw Incomplete{"sx_digit: wrong number of digits"};
    if (n < 20 && !padded) {                 // size constraints on v follow from the digits
      uint64_t lo = 1; for (unsigned k = 1; k < n; k++) lo *= 10;
      std::vector<E> keep;
      for (E x : S.cons) {
        bool lower = (x->op == O_Ule || x->op == O_Ult) && x->b == v && isC(x->a) && x->a->v + (x->op == O_Ult) <= lo;
        bool upper = (x->op == O_Ule || x->op == O_Ult) && x->a == v && isC(x->b) && x->b->v - (x->op == O_Ult) >= lo * 10 - 1 && n < 19;
        if (!lower && !upper) keep.push_back(x);
      }
      S.cons.swap(keep);
    }
    rawCons(S, c);
  }
  r = SV(mkZExt(m, 64));
  return 0;
}
static int i_digit(State &S, const DInst &d, Val *a, int, Val &r) { return digitOf(S, a, r, false); }
static int i_fdigit(State &S, const DInst &d, Val *a, int, Val &r) { return digitOf(S, a, r, true); }   // with leading zeros
// sx_equate(a, b): a is b, by the meaning of the digits in a; from now on a is written as b
static int i_equate(State &S, const DInst &d, Val *a, int, Val &r) {
  E x = toE(a[0], 64), y = toE(a[1], 64);
  if (x == y || x->op == O_Const) return 0;
  if (EP.eval(x, S.wit) != EP.eval(y, S.wit)) throw Incomplete{"sx_equate"};
  EP.equal[x] = y;
  return 0;
}
static int i_param(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t i = a[0].v & 0xffffffffu;
  r = C(i < params.size() ? (uint64_t)params[i] : 0);
  return 0;
}
static int i_observe(State &S, const DInst &d, Val *a, int, Val &r) { S.obs.push_back({cstrAt(S, a[0]), a[1]}); return 0; }
static int i_tnew(State &S, const DInst &d, Val *a, int, Val &r) {
  auto it = OBJ2F.find((uint32_t)(a[0].v >> 32));
  if (a[0].e || it == OBJ2F.end()) throw Incomplete{"sx_thread_new"};
  S.th.emplace_back();
  int t = (int)S.th.size() - 1;
  pushFrame(S, t, it->second, {a[1]}, {64});
  r = C(t);
  return 0;
}
static int i_tswitch(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t t = concretize(S, a[0], 32);
  if (t >= S.th.size() || S.th[t].st.empty()) throw Incomplete{"sx_thread_switch"};
  S.cur = (int)t;
  return 0;
}
static int i_tself(State &S, const DInst &d, Val *a, int, Val &r) { r = C(S.cur); return 0; }

// ---- allocation
static uint64_t blockClass(uint64_t n) { return n <= 24 ? 24 : ((n + 8 + 15) & ~15ull) - 8; }
static Val mkHeap(State &S, ObjKind k, const Val &n) {
  uint64_t x;
  uint32_t id;
  if (isConcrete(S, n, x)) {
    id = 0;
    if (reuseHeap && k == K_HEAP)
      for (size_t i = S.freed.size(); i-- > 0 && !id;) if (blockClass(S.mem.get(S.freed[i])->size) == blockClass(x)) {
        id = S.freed[i]; S.freed.erase(S.freed.begin() + i);
        Obj *o = objW(S, id);
        o->alive = true; o->ro = false; o->size = x; o->symSize = nullptr; o->site = site(S);
        o->pg.assign((std::min(x, MATCAP) + PGSZ - 1) / PGSZ, nullptr);
      }
    if (!id) id = newObj(S, k, x);
  } else {
    Obj *o = new Obj(k, 1u << 20, site(S));
    o->symSize = simp(S, n.e);
    id = S.mem.add(o);
  }
  if (k == K_HEAP) S.liveHeap++;
  return C(addrOf(id));
}
static int i_malloc(State &S, const DInst &d, Val *a, int, Val &r) { r = mkHeap(S, K_HEAP, a[0]); return 0; }
static int i_alloc(State &S, const DInst &d, Val *a, int, Val &r) {
  Val n = C(concretize(S, a[0], 64));
  r = mkHeap(S, K_MODEL, n);
  if (n.v) { uint32_t id = (uint32_t)(r.v >> 32); Obj *o = objW(S, id); for (uint64_t k = 0; k < n.v; k++) storeByte(S, o, k, C(0)); }
  return 0;
}
static int i_calloc(State &S, const DInst &d, Val *a, int, Val &r) {
  Val n = C(concretize(S, a[0], 64) * concretize(S, a[1], 64));
  r = mkHeap(S, K_HEAP, n);
  uint32_t id = (uint32_t)(r.v >> 32); Obj *o = objW(S, id);
  for (uint64_t k = 0; k < n.v; k++) storeByte(S, o, k, C(0));
  return 0;
}
static uint32_t heapPtr(State &S, const Val &a, ObjKind k, const char *what) {
  uint64_t addr = concretize(S, a, 64);
  if (!addr) return 0;
  uint32_t id = (uint32_t)(addr >> 32);
  Obj *o = S.mem.get(id);
  if (!o || o->kind != k || (addr & 0xffffffffu) != ADDR_OFF) throw Violation{std::string("memory: ") + what + " of a pointer that is not the start of an allocated block"};
  if (!o->alive) throw Violation{std::string("memory: ") + what + " of a block already freed (double free)"};
  return id;
}
static void freeObj(State &S, uint32_t id) {
  Obj *o = objW(S, id);
  o->alive = false;
  o->clear();
  if (o->kind == K_HEAP) {
    S.liveHeap--;
    if (reuseHeap && !o->symSize) { if (S.freed.size() >= 64) S.freed.erase(S.freed.begin()); S.freed.push_back(id); }
  }
}
static int i_free(State &S, const DInst &d, Val *a, int, Val &r) { uint32_t id = heapPtr(S, a[0], K_HEAP, "free"); if (id) freeObj(S, id); return 0; }
static int i_release(State &S, const DInst &d, Val *a, int, Val &r) { uint32_t id = heapPtr(S, a[0], K_MODEL, "release"); if (id) freeObj(S, id); return 0; }
static int i_realloc(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = concretize(S, a[1], 64);
  uint32_t id = heapPtr(S, a[0], K_HEAP, "realloc");
  if (id && S.mem.get(id)->symSize) throw Incomplete{"realloc of a symbolic-size block"};
  r = mkHeap(S, K_HEAP, C(n));
  if (id) {
    uint64_t m = std::min(n, S.mem.get(id)->size);
    if (m) copyBytes(S, (uint32_t)(r.v >> 32), 0, id, 0, m);
    freeObj(S, id);
  }
  return 0;
}
static int i_live(State &S, const DInst &d, Val *a, int, Val &r) { r = C((uint64_t)S.liveHeap); return 0; }
static int i_leak(State &S, const DInst &d, Val *a, int, Val &r) {   // sx_check_live(expected, msg)
  SH->checks++;
  if (S.liveHeap == (int64_t)a[0].v) return 0;
  std::string m = cstrAt(S, a[1]);
  // newest surviving block
  for (uint32_t id = S.mem.next - 1; id > 0 && verbose; id--) { Obj *o = S.mem.get(id); if (o && o->kind == K_HEAP && o->alive) { fprintf(stderr, "live block allocated at %s\n", sites[o->site].c_str()); break; } }
  throw Violation{"check failed: " + m};
}
static int i_accessible(State &S, const DInst &d, Val *a, int, Val &r) { // sx_access(ptr, n, write)
  uint64_t off;
  if (!a[1].e) { access(S, a[0], a[1].v, a[2].v & 1, off, "access"); return 0; }
  // symbolic length: [p, p+n) must be inside the block for every n allowed here
  uint64_t addr = concretize(S, a[0], 64);
  if (decide(S, mkCmp(O_Eq, a[1].e, EP.cst(0, 64)))) return 0;
  access(S, C(addr), 1, a[2].v & 1, off, "access");
  Obj *o = S.mem.get((uint32_t)(addr >> 32));
  E lim = o->symSize ? o->symSize : EP.cst(o->size, 64);
  E room = mkBin(O_Sub, lim, EP.cst(off, 64));
  if (!decide(S, mkCmp(O_Ule, a[1].e, room))) memErr(std::string("access out of bounds of a ") + kindName(o->kind) + " block (length given to a system or library call)");
  return 0;
}

// ---- bytes
static int i_memcpy(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = concretize(S, a[2], 64), so, dof;
  r = a[0];
  if (!n) return 0;
  uint32_t s = access(S, a[1], n, false, so, "copy from"), t = access(S, a[0], n, true, dof, "copy to");
  if (s == t && so != dof && so < dof + n && dof < so + n) throw Violation{"memory: memcpy of overlapping ranges"};
  copyBytes(S, t, dof, s, so, n);
  return 0;
}
static int i_memmove(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = concretize(S, a[2], 64), so, dof;
  r = a[0];
  if (!n) return 0;
  uint32_t s = access(S, a[1], n, false, so, "copy from"), t = access(S, a[0], n, true, dof, "copy to");
  copyBytes(S, t, dof, s, so, n);
  return 0;
}
static int i_memset(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = concretize(S, a[2], 64), off;
  r = a[0];
  if (!n) return 0;
  uint32_t t = access(S, a[0], n, true, off, "fill");
  Val b = a[1].e ? SV(mkExtract(a[1].e, 0, 8)) : C(a[1].v & 0xff);
  Obj *o = objW(S, t);
  for (uint64_t k = 0; k < n; k++) storeByte(S, o, off + k, b);
  return 0;
}
static const uint8_t *onesPage() { static uint8_t o[PGSZ]; if (!o[0]) memset(o, 1, PGSZ); return o; }
static uint64_t strLen(State &S, const Val &a, uint64_t maxn, const char *what, unsigned char stop = 0) {
  uint64_t off;
  if (!maxn) return 0;
  uint32_t id = access(S, a, 1, false, off, what);
  Obj *o = S.mem.get(id);
  for (uint64_t k = 0; k < maxn; k++) {
    if (o->symSize) { if (!decide(S, mkCmp(O_Ult, EP.cst(off + k, 64), o->symSize))) memErr(std::string(what) + " runs past the end of the block (no terminating NUL)"); }
    else if (off + k >= o->size) memErr(std::string(what) + " runs past the end of the block (no terminating NUL)");
    if (off + k >= MATCAP) throw Incomplete{"materialisation cap"};
    if (!o->symSize) {                          // the rest of a page at once where it is concrete
      Page *p = o->rd(off + k);
      uint32_t i = (off + k) % PGSZ, e = p ? (uint32_t)std::min<uint64_t>({p->n, o->size - (off + k) + i, maxn - k + i}) : i;
      if (e > i + 8 && memcmp(p->st + i, onesPage(), e - i) == 0) {
        const uint8_t *f = (const uint8_t *)memchr(p->b + i, stop, e - i);
        if (f) return k + (f - (p->b + i));
        k += e - i - 1;
        continue;
      }
    }
    Val b = loadByte(S, id, off + k);
    o = S.mem.get(id);
    bool z = b.e ? decide(S, mkCmp(O_Eq, b.e, EP.cst(stop, 8))) : b.v == stop;
    if (z) return k;
  }
  return maxn;
}
static int i_strlen(State &S, const DInst &d, Val *a, int, Val &r) { r = C(strLen(S, a[0], ~0ull, "string read")); return 0; }
static int i_scan(State &S, const DInst &d, Val *a, int, Val &r) { uint64_t n = concretize(S, a[2], 64); r = C(strLen(S, a[0], n, "memchr", (unsigned char)concretize(S, a[1], 32))); return 0; }
static int i_strnlen(State &S, const DInst &d, Val *a, int, Val &r) { r = C(strLen(S, a[0], concretize(S, a[1], 64), "string read")); return 0; }
static Val cmpBytes(State &S, const Val &pa, const Val &pb, uint64_t n, bool str) {
  if (!n) return C(0);
  uint64_t oa, ob;
  uint32_t ia = access(S, pa, 1, false, oa, "compare"), ib = access(S, pb, 1, false, ob, "compare");
  struct P { E a, b; };
  std::vector<P> l;
  E term = nullptr;
  auto sgn = [](E x, E y) { return mkIte(mkCmp(O_Ult, x, y), EP.cst(0xffffffffu, 32), EP.cst(1, 32)); };
  for (uint64_t k = 0; !term; k++) {
    if (k == n) { term = EP.cst(0, 32); break; }
    Obj *A = S.mem.get(ia), *B = S.mem.get(ib);
    bool outA = A->symSize ? !decide(S, mkCmp(O_Ult, EP.cst(oa + k, 64), A->symSize)) : oa + k >= A->size;
    bool outB = B->symSize ? !decide(S, mkCmp(O_Ult, EP.cst(ob + k, 64), B->symSize)) : ob + k >= B->size;
    if (outA || outB) {
      // reaching this byte is an error; only possible if all previous bytes may be equal
      bool all = true;
      for (auto &p : l) {
        E c = mkCmp(O_Eq, p.a, p.b);
        if (str) c = mkBin(O_And, c, mkNot(mkCmp(O_Eq, p.a, EP.cst(0, 8))));
        if (!decide(S, c)) { all = false; break; }
      }
      if (all) memErr("comparison runs past the end of a block");
      term = EP.cst(0, 32);   // unreachable remainder
      break;
    }
    Val a = loadByte(S, ia, oa + k), b = loadByte(S, ib, ob + k);
    E ea = simp(S, toE(a, 8)), eb = simp(S, toE(b, 8));
    if (isC(ea) && isC(eb)) {
      if (ea->v != eb->v) term = EP.cst(ea->v < eb->v ? 0xffffffffu : 1, 32);
      else if (str && ea->v == 0) term = EP.cst(0, 32);
    } else if (str && isC(ea, 0)) term = mkIte(mkCmp(O_Eq, eb, ea), EP.cst(0, 32), EP.cst(0xffffffffu, 32));
    else if (str && isC(eb, 0)) term = mkIte(mkCmp(O_Eq, ea, eb), EP.cst(0, 32), EP.cst(1, 32));
    else if (ea != eb || str) {
      E ne = mkNot(mkCmp(O_Eq, ea, eb));
      E c = ne; int kc = knownCond(S, c);
      if (kc == 1) { term = sgn(ea, eb); break; }
      l.push_back({ea, eb});
    }
  }
  E r = term;
  for (size_t i = l.size(); i-- > 0;) {
    E x = l[i].a, y = l[i].b;
    if (str && !(isC(x) && x->v) && !(isC(y) && y->v)) {
      E z = mkCmp(O_Eq, x, EP.cst(0, 8));
      if (knownCond(S, z) != 0) r = mkIte(z, EP.cst(0, 32), r);
    }
    if (x != y) r = mkIte(mkCmp(O_Eq, x, y), r, sgn(x, y));
  }
  return SV(r);
}
static int i_strcmp(State &S, const DInst &d, Val *a, int, Val &r) { r = cmpBytes(S, a[0], a[1], ~0ull, true); return 0; }
static int i_strncmp(State &S, const DInst &d, Val *a, int, Val &r) { r = cmpBytes(S, a[0], a[1], concretize(S, a[2], 64), true); return 0; }
static int i_memcmp(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = concretize(S, a[2], 64), o;
  if (n) { access(S, a[0], n, false, o, "compare"); access(S, a[1], n, false, o, "compare"); }
  r = cmpBytes(S, a[0], a[1], n, false);
  return 0;
}
static int i_strcpy(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = strLen(S, a[1], ~0ull, "string copy") + 1, so, dof;
  uint32_t s = access(S, a[1], n, false, so, "string copy from"), t = access(S, a[0], n, true, dof, "string copy to");
  if (s == t && so < dof + n && dof < so + n) throw Violation{"memory: strcpy of overlapping ranges"};
  copyBytes(S, t, dof, s, so, n);
  r = a[0];
  return 0;
}
// ---- crc32 (zlib polynomial), exact: GF(2)-linear forms when the data is symbolic
static uint32_t crcTab[256];
static void crcInit() {
  if (crcTab[1]) return;
  for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; crcTab[i] = c; }
}
typedef std::vector<E> Lin;     // sorted by id; constant handled separately
static void linXor(Lin &a, const Lin &b) {
  Lin r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i]->id < b[j]->id)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j]->id < a[i]->id) r.push_back(b[j++]);
    else { i++; j++; }
  }
  a.swap(r);
}
static void linAtoms(E e, Lin &l, bool &cst) {
  if (isC(e)) { cst ^= (e->v & 1); return; }
  if (e->op == O_Xor && e->w == 1) { linAtoms(e->a, l, cst); linAtoms(e->b, l, cst); return; }
  if (e->op == O_Not) { cst ^= 1; linAtoms(e->a, l, cst); return; }
  linXor(l, Lin{e});
}
static int i_crc(State &S, const DInst &d, Val *a, int, Val &r) {
  crcInit();
  uint64_t n = concretize(S, a[2], 32);
  uint64_t bp = concretize(S, a[1], 64);
  if (bp == 0) { r = C(0); return 0; }
  if (!n) { r = a[0]; return 0; }
  uint64_t off; uint32_t id = access(S, C(bp), n, false, off, "checksum");
  bool sym = a[0].e != nullptr;
  uint32_t c = ~(uint32_t)a[0].v;
  uint64_t k = 0;
  if (!sym) for (; k < n; k++) {
    Val b = loadByte(S, id, off + k);
    if (b.e) { E s = simp(S, b.e); if (!isC(s)) break; b = C(s->v); }
    c = crcTab[(c ^ b.v) & 0xff] ^ (c >> 8);
  }
  if (!sym && k == n) { r = C((uint32_t)~c); return 0; }
  /* the expression depends on what the path knows about the bytes: a later checksum of the same bytes must be the same one */
  std::pair<uint32_t, std::vector<uint64_t>> key;
  if (!sym && n <= 4096) {
    key.first = (uint32_t)a[0].v;
    for (uint64_t i = 0; i < n; i++) { Val b = loadByte(S, id, off + i); key.second.push_back(b.e ? 256 + (uint64_t)b.e->id : b.v & 0xff); }
    auto it = S.crcs.find(key);
    if (it != S.crcs.end()) { r = SV(it->second); return 0; }
  }
  Lin st[32]; bool cb[32];
  for (int j = 0; j < 32; j++) {
    cb[j] = (c >> j) & 1;
    if (sym) { cb[j] = true; linAtoms(mkExtract(a[0].e, j, 1), st[j], cb[j]); }
  }
  for (; k < n; k++) {
    /* a run of concrete bytes: the known part as usual, the unknown part by the power of the step matrix */
    uint64_t m = 0; uint32_t cc = 0;
    for (int j = 0; j < 32; j++) cc |= (uint32_t)cb[j] << j;
    for (; k + m < n; m++) { Val b = loadByte(S, id, off + k + m); if (b.e) break; cc = crcTab[(cc ^ b.v) & 0xff] ^ (cc >> 8); }
    if (m >= 4) {
      uint32_t col[32];                                  /* image of each bit of the state after m zero bytes */
      uint32_t sq[32];
      for (int i = 0; i < 32; i++) { col[i] = 1u << i; sq[i] = crcTab[(1u << i) & 0xff] ^ ((1u << i) >> 8); }
      auto ap = [](const uint32_t *M, uint32_t v) { uint32_t r = 0; for (int i = 0; v; i++, v >>= 1) if (v & 1) r ^= M[i]; return r; };
      for (uint64_t q = m; q; q >>= 1) {
        if (q & 1) for (int i = 0; i < 32; i++) col[i] = ap(sq, col[i]);
        uint32_t t[32];
        for (int i = 0; i < 32; i++) t[i] = ap(sq, sq[i]);
        memcpy(sq, t, sizeof t);
      }
      Lin ns[32];
      for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) if (col[i] >> j & 1) linXor(ns[j], st[i]);
      for (int j = 0; j < 32; j++) { st[j].swap(ns[j]); cb[j] = cc >> j & 1; }
      k += m;
      if (k >= n) break;
    }
    E b = simp(S, toE(loadByte(S, id, off + k), 8));
    Lin x[8]; bool xc[8];
    for (int i = 0; i < 8; i++) { x[i] = st[i]; xc[i] = cb[i]; bool t = false; Lin l; linAtoms(mkExtract(b, i, 1), l, t); linXor(x[i], l); xc[i] ^= t; }
    Lin ns[32]; bool nc[32];
    for (int j = 0; j < 32; j++) {
      if (j < 24) { ns[j] = st[j + 8]; nc[j] = cb[j + 8]; } else nc[j] = false;
      for (int i = 0; i < 8; i++) if ((crcTab[1u << i] >> j) & 1) { linXor(ns[j], x[i]); nc[j] ^= xc[i]; }
    }
    for (int j = 0; j < 32; j++) { st[j].swap(ns[j]); cb[j] = nc[j]; }
  }
  E res = nullptr;
  for (int j = 0; j < 32; j++) {
    E bit = EP.cst(0, 1);
    for (E t : st[j]) bit = bit->op == O_Const ? t : EP.mk(O_Xor, 1, bit, t);
    if (!cb[j]) bit = mkNot(bit);     // final complement
    res = res ? mkConcat(bit, res) : bit;
  }
  E out = mkZExt(res, 64);
  if (!key.second.empty()) S.crcs[key] = out;
  r = SV(out);
  return 0;
}
static int i_bswap(State &S, const DInst &d, Val *a, int, Val &r) {
  unsigned w = d.w;
  if (!a[0].e) { uint64_t v = 0; for (unsigned k = 0; k < w; k += 8) v |= ((a[0].v >> k) & 0xff) << (w - 8 - k); r = C(v); return 0; }
  E e = mkExtract(a[0].e, 0, 8);
  for (unsigned k = 8; k < w; k += 8) e = mkConcat(e, mkExtract(a[0].e, k, 8));
  r = SV(e);
  return 0;
}
static int i_vastart(State &S, const DInst &d, Val *a, int, Val &r) {
  Frame &f = S.th[S.cur].st.back();
  if (!f.varObj) throw Incomplete{"va_start"};
  uint64_t off; uint32_t id = access(S, a[0], 24, true, off, "va_start");
  storeN(S, id, off, 4, C(48)); storeN(S, id, off + 4, 4, C(176));
  storeN(S, id, off + 8, 8, C(addrOf(f.varObj))); storeN(S, id, off + 16, 8, C(0));
  return 0;
}
static int i_vacopy(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t o1, o2; uint32_t t = access(S, a[0], 24, true, o1, "va_copy"), s = access(S, a[1], 24, false, o2, "va_copy");
  copyBytes(S, t, o1, s, o2, 24);
  return 0;
}
static int i_nop(State &S, const DInst &d, Val *a, int, Val &r) { return 0; }
static int i_strtod(State &S, const DInst &d, Val *a, int, Val &r) {   // sx_strtod(const char*, uint64_t* out, size_t* used) concrete strings only
  std::string s;
  uint64_t n = strLen(S, a[0], ~0ull, "string read"), off;
  if (n) { uint32_t id = access(S, a[0], n, false, off, "read"); for (uint64_t k = 0; k < n; k++) { Val b = loadByte(S, id, off + k); uint64_t x; if (!isConcrete(S, b, x)) throw Incomplete{"floating point text that is symbolic"}; s += (char)x; } }
  char *e; double v = strtod(s.c_str(), &e); uint64_t u; memcpy(&u, &v, 8);
  uint32_t id = access(S, a[1], 8, true, off, "write"); storeN(S, id, off, 8, C(u));
  id = access(S, a[2], 8, true, off, "write"); storeN(S, id, off, 8, C(e - s.c_str()));
  return 0;
}
static int i_fmtd(State &S, const DInst &d, Val *a, int, Val &r) {  // int sx_fmt_double(char* out, size_t cap, const char* fmt, double)
  std::string f = cstrAt(S, a[2]); char buf[512]; double v; uint64_t u;
  if (!isConcrete(S, a[3], u)) u = sampleFP(S, a[3], 64, "formatting of a symbolic floating point value");
  memcpy(&v, &u, 8);
  int n = snprintf(buf, sizeof buf, f.c_str(), v);
  uint64_t off; uint32_t id = access(S, a[0], n + 1, true, off, "write"); Obj *o = objW(S, id);
  for (int k = 0; k <= n; k++) storeByte(S, o, off + k, C((uint8_t)buf[k]));
  r = C(n);
  return 0;
}
// int sx_bigfmt(char *out, uint64_t bits): the decimal digits of a finite double of 2^63 or more (an integer).
// The digits are fresh; sx_bigvalue(text, n, &bits) recognises them, and only them, when they are read back.
static int i_bigfmt(State &S, const DInst &d, Val *a, int, Val &r) {
  static std::vector<uint64_t> lim;            // lim[n]: least double with more than n digits
  if (lim.empty()) for (int n = 0; n < 309; n++) {
    std::string t = "1e" + std::to_string(n); double x = strtod(t.c_str(), nullptr); char b[400];
    if (snprintf(b, sizeof b, "%.0f", x) < n + 1) x = std::nextafter(x, INFINITY);
    uint64_t u; memcpy(&u, &x, 8); lim.push_back(u);
  }
  E v = toE(a[1], 64);
  int lo = 1, hi = 309;                        // digits
  while (lo < hi) {
    int m = (lo + hi + 1) / 2;
    if (decide(S, mkCmp(O_Ule, EP.cst(lim[m - 1], 64), v))) lo = m; else hi = m - 1;
  }
  auto &big = S.big[{v, (unsigned)lo}];
  if (big.empty()) {
    uint64_t u = EP.eval(v, S.wit); double x; memcpy(&x, &u, 8); char b[400];
    if (snprintf(b, sizeof b, "%.0f", x) != lo) throw Incomplete{"sx_bigfmt"};
    for (int i = 0; i < lo; i++) {
      E m = freshRange(S, 4, b[i] - '0', i == 0 ? 1 : 0, 9, EP.mk(O_Concat, 64, v, EP.cst(lo, 16), EP.cst(i | 0x8000, 16)));
      big.push_back(mkBin(O_Add, mkZExt(m, 8), EP.cst('0', 8)));
    }
  }
  uint64_t off; uint32_t id = access(S, a[0], lo, true, off, "write"); Obj *o = objW(S, id);
  for (int i = 0; i < lo; i++) storeByte(S, o, off + i, SV(big[i]));
  r = C(lo);
  return 0;
}
static int i_bigvalue(State &S, const DInst &d, Val *a, int, Val &r) {
  uint64_t n = a[1].v, off; uint32_t id = access(S, a[0], n, false, off, "read");
  std::vector<E> t;
  for (uint64_t i = 0; i < n; i++) t.push_back(toE(loadByte(S, id, off + i), 8));
  r = C(0);
  for (auto &kv : S.big) if (kv.second == t) {
    uint32_t oid = access(S, a[2], 8, true, off, "write");
    storeN(S, oid, off, 8, SV(kv.first.first));
    r = C(1);
  }
  return 0;
}
static int i_expect(State &S, const DInst &d, Val *a, int n, Val &r) { r = a[0]; return 0; }
static int i_objsize(State &S, const DInst &d, Val *a, int n, Val &r) { r = C(maskw(d.w)); return 0; }
static int i_isconst(State &S, const DInst &d, Val *a, int n, Val &r) { r = C(0); return 0; }
template <uint8_t CMP, bool TAKE> static int i_minmax(State &S, const DInst &d, Val *a, int n, Val &r) { E x = toE(a[0], d.w), y = toE(a[1], d.w); E c = mkCmp(CMP, x, y); r = SV(TAKE ? mkIte(c, x, y) : mkIte(c, y, x)); return 0; }
static int i_abs(State &S, const DInst &d, Val *a, int n, Val &r) { E x = toE(a[0], d.w), z = EP.cst(0, d.w); r = SV(mkIte(mkCmp(O_Slt, x, z), mkBin(O_Sub, z, x), x)); return 0; }
static E bitAt(E x, unsigned k) { return mkExtract(x, k, 1); }
static int i_ctpop(State &S, const DInst &d, Val *a, int n, Val &r) { E x = toE(a[0], d.w), t = EP.cst(0, d.w); for (unsigned k = 0; k < d.w; k++) t = mkBin(O_Add, t, d.w > 1 ? mkZExt(bitAt(x, k), d.w) : x); r = SV(t); return 0; }
static int i_ctlz(State &S, const DInst &d, Val *a, int n, Val &r) { E x = toE(a[0], d.w), t = EP.cst(d.w, d.w); for (unsigned k = 0; k < d.w; k++) t = mkIte(bitAt(x, k), EP.cst(d.w - 1 - k, d.w), t); r = SV(t); return 0; }
static int i_cttz(State &S, const DInst &d, Val *a, int n, Val &r) { E x = toE(a[0], d.w), t = EP.cst(d.w, d.w); for (unsigned k = d.w; k-- > 0;) t = mkIte(bitAt(x, k), EP.cst(k, d.w), t); r = SV(t); return 0; }
static int fsh(State &S, const DInst &d, Val *a, Val &r, bool left) {
  uint64_t s = concretize(S, a[2], d.w) % d.w; E x = toE(a[0], d.w), y = toE(a[1], d.w);
  if (!s) { r = SV(left ? x : y); return 0; }
  r = SV(left ? mkBin(O_Or, mkBin(O_Shl, x, EP.cst(s, d.w)), mkBin(O_LShr, y, EP.cst(d.w - s, d.w))) : mkBin(O_Or, mkBin(O_Shl, x, EP.cst(d.w - s, d.w)), mkBin(O_LShr, y, EP.cst(s, d.w))));
  return 0;
}
static int i_fshl(State &S, const DInst &d, Val *a, int n, Val &r) { return fsh(S, d, a, r, true); }
static int i_fshr(State &S, const DInst &d, Val *a, int n, Val &r) { return fsh(S, d, a, r, false); }
static void reg(const char *n, IntrFn f) { INTRN[n] = INTR.size(); INTR.push_back(f); }
static int findIntrinsic(const std::string &n0) {
  if (INTR.empty()) {
    reg("sx_sym", i_sym); reg("sx_choose", i_choose); reg("sx_bytes", i_bytes); reg("sx_assume", i_assume); reg("sx_check", i_check);
    reg("sx_fail", i_fail); reg("sx_incomplete", i_incomplete); reg("sx_done", i_done); reg("sx_cover", i_cover); reg("sx_concrete", i_concrete); reg("sx_is_symbolic", i_issym); reg("sx_digit", i_digit); reg("sx_fdigit", i_fdigit); reg("sx_scan", i_scan); reg("sx_equate", i_equate);
    reg("sx_param", i_param); reg("sx_observe", i_observe); reg("sx_thread_new", i_tnew); reg("sx_thread_switch", i_tswitch); reg("sx_thread_self", i_tself);
    reg("sx_malloc", i_malloc); reg("sx_calloc", i_calloc); reg("sx_free", i_free); reg("sx_realloc", i_realloc); reg("sx_alloc", i_alloc); reg("sx_release", i_release);
    reg("sx_live_allocs", i_live); reg("sx_check_live", i_leak); reg("sx_access", i_accessible); reg("sx_crc32", i_crc); reg("sx_strtod", i_strtod); reg("sx_bigfmt", i_bigfmt); reg("sx_bigvalue", i_bigvalue); reg("sx_fmt_double", i_fmtd);
    reg("memcpy", i_memcpy); reg("memmove", i_memmove); reg("memset", i_memset); reg("memcmp", i_memcmp); reg("bcmp", i_memcmp);
    reg("strlen", i_strlen); reg("strnlen", i_strnlen); reg("strcmp", i_strcmp); reg("strncmp", i_strncmp); reg("strcpy", i_strcpy); reg("crc32", i_crc); reg("crc32_z", i_crc);
    reg("llvm.va_start", i_vastart); reg("llvm.va_end", i_nop); reg("llvm.va_copy", i_vacopy); reg("llvm.bswap", i_bswap); reg("llvm.trap", i_fail);
    reg("llvm.memcpy", i_memcpy); reg("llvm.memmove", i_memmove); reg("llvm.memset", i_memset); reg("llvm.stacksave", i_nop); reg("llvm.stackrestore", i_nop);
    reg("llvm.expect", i_expect); reg("llvm.objectsize", i_objsize); reg("llvm.is", i_isconst); reg("llvm.prefetch", i_nop); reg("llvm.debugtrap", i_nop); reg("llvm.abs", i_abs);
    reg("llvm.umin", i_minmax<O_Ult, true>); reg("llvm.umax", i_minmax<O_Ult, false>); reg("llvm.smin", i_minmax<O_Slt, true>); reg("llvm.smax", i_minmax<O_Slt, false>);
    reg("llvm.ctpop", i_ctpop); reg("llvm.ctlz", i_ctlz); reg("llvm.cttz", i_cttz); reg("llvm.fshl", i_fshl); reg("llvm.fshr", i_fshr); reg("llvm.annotation", i_expect); reg("llvm.ptr", i_expect); reg("llvm.launder", i_expect); reg("llvm.strip", i_expect);
  }
  std::string n = n0;
  auto it = INTRN.find(n);
  if (it != INTRN.end()) return it->second;
  if (n.compare(0, 5, "llvm.") == 0) {
    size_t p = n.find('.', 5);
    if (p != std::string::npos) { it = INTRN.find(n.substr(0, p)); if (it != INTRN.end()) return it->second; }
  }
  return -1;
}
static int callIntrinsic(State &S, DFunc *D, const DInst &d, Val *a, int n, Val &r) { return INTR[D->intr](S, d, a, n, r); }
