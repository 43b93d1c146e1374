// Objects, pages and the copy-on-write object table.
#pragma once
#include "expr.h"
#include <memory>
enum ObjKind : uint8_t { K_NULL, K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_MODEL, K_FUNC, K_VARARG };
static const uint32_t PGSZ = 2048;
static const uint64_t MATCAP = 64ull << 20;     // bytes of one object that can be materialised
static const uint64_t ADDR_OFF = 0x10000000ull;

struct Page {
  uint32_t rc, n;
  uint8_t *b, *st;            // st: 0 uninitialised, 1 concrete, 2 symbolic
  E *sym;
  static Page *mk(uint32_t n) {
    Page *p = (Page *)malloc(sizeof(Page));
    p->rc = 1; p->n = n; p->sym = nullptr;
    p->b = (uint8_t *)malloc(2 * n); p->st = p->b + n;
    memset(p->st, 0, n);
    return p;
  }
  Page *clone() {
    Page *p = mk(n);
    memcpy(p->b, b, 2 * n);
    if (sym) { p->sym = (E *)malloc(n * sizeof(E)); memcpy(p->sym, sym, n * sizeof(E)); }
    return p;
  }
  void drop() { if (--rc == 0) { free(b); free(sym); free(this); } }
  void setSym(uint32_t i, E e) {
    if (!sym) sym = (E *)calloc(n, sizeof(E));
    sym[i] = e; st[i] = 2;
  }
};

struct Obj {
  uint32_t rc = 1;
  ObjKind kind;
  bool alive = true, ro = false;
  uint64_t size;              // concrete size (capacity when symSize set)
  E symSize = nullptr;
  std::vector<Page *> pg;
  uint32_t site;              // allocation site (index of a call-stack string)
  Obj(ObjKind k, uint64_t sz, uint32_t st) : kind(k), size(sz), site(st) {
    uint64_t c = std::min(sz, MATCAP);
    pg.assign((c + PGSZ - 1) / PGSZ, nullptr);
  }
  Obj(const Obj &o) : rc(1), kind(o.kind), alive(o.alive), ro(o.ro), size(o.size), symSize(o.symSize), pg(o.pg), site(o.site) {
    for (auto p : pg) if (p) p->rc++;
  }
  ~Obj() { clear(); }
  void clear() { for (auto p : pg) if (p) p->drop(); pg.clear(); pg.shrink_to_fit(); }
  uint32_t pgn(uint64_t i) const { return (uint32_t)std::min<uint64_t>(PGSZ, size - i * PGSZ); }
  Page *rd(uint64_t off) { return pg[off / PGSZ]; }
  Page *wr(uint64_t off) {
    Page *&p = pg[off / PGSZ];
    if (!p) p = Page::mk(pgn(off / PGSZ));
    else if (p->rc > 1) { Page *q = p->clone(); p->rc--; p = q; }
    return p;
  }
};

struct Chunk {
  uint32_t rc = 1;
  Obj *o[64];
  Chunk() { memset(o, 0, sizeof o); }
  Chunk(const Chunk &c) { memcpy(o, c.o, sizeof o); for (auto x : o) if (x) x->rc++; }
  ~Chunk() { for (auto x : o) if (x && --x->rc == 0) delete x; }
};

struct ObjTab {
  std::vector<Chunk *> c;
  uint32_t next = 1;
  ObjTab() {}
  ObjTab(const ObjTab &t) : c(t.c), next(t.next) { for (auto x : c) if (x) x->rc++; }
  ObjTab &operator=(const ObjTab &) = delete;
  ~ObjTab() { for (auto x : c) if (x && --x->rc == 0) delete x; }
  Obj *get(uint32_t id) { if (id == 0 || id >= next) return nullptr; Chunk *k = c[id / 64]; return k ? k->o[id % 64] : nullptr; }
  Obj *getW(uint32_t id) {
    Chunk *&k = c[id / 64];
    if (k->rc > 1) { Chunk *n = new Chunk(*k); k->rc--; k = n; }
    Obj *&o = k->o[id % 64];
    if (o->rc > 1) { Obj *n = new Obj(*o); o->rc--; o = n; }
    return o;
  }
  uint32_t add(Obj *o) {
    uint32_t id = next++;
    if (id / 64 >= c.size()) c.push_back(nullptr);
    Chunk *&k = c[id / 64];
    if (!k) k = new Chunk();
    else if (k->rc > 1) { Chunk *n = new Chunk(*k); k->rc--; k = n; }
    k->o[id % 64] = o;
    return id;
  }
  // forget a dead stack object completely
  void remove(uint32_t id) {
    Chunk *&k = c[id / 64];
    if (!k) return;
    if (k->rc > 1) { Chunk *n = new Chunk(*k); k->rc--; k = n; }
    Obj *&o = k->o[id % 64];
    if (o && --o->rc == 0) delete o;
    o = nullptr;
    bool any = false;
    for (auto x : k->o) if (x) { any = true; break; }
    if (!any && id / 64 != (next - 1) / 64) { delete k; k = nullptr; }
  }
};
