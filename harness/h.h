/* Shared parts of the harnesses: symbolic keys, reference trees, comparison. */
#ifndef H_H
#define H_H
#define _GNU_SOURCE
#include "vm.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <zlib.h>
#include "kvtree.h"
#include "kvtree_util.h"
#include "kvtree_io.h"
#include "kvtree_helpers.h"
#include "kvtree_err.h"
#include "mpi.h"
#include "kvtree_mpi.h"

/* ---- reference tree: ordered list of (key, subtree) */
#ifndef RT_MAX
#define RT_MAX 12                                       /* entries per level of a reference tree */
#endif
typedef struct rt { int n; struct { char *k; struct rt *t; } e[RT_MAX]; } rt;
static rt *rt_new(void) { rt *r = sx_alloc(sizeof(rt)); r->n = 0; return r; }
static char *rt_dup(const char *s) { size_t n = strlen(s) + 1; char *p = sx_alloc(n); memcpy(p, s, n); return p; }
static int rt_find(const rt *r, const char *k) { if (r) for (int i = 0; i < r->n; i++) if (strcmp(r->e[i].k, k) == 0) return i; return -1; }
static rt *rt_get(const rt *r, const char *k) { int i = rt_find(r, k); return i < 0 ? NULL : r->e[i].t; }
static rt *rt_put(rt *r, const char *k, rt *t) {
  int i = rt_find(r, k);
  if (i < 0) { if (r->n >= RT_MAX) sx_incomplete("reference tree is full"); i = r->n++; r->e[i].k = rt_dup(k); }
  r->e[i].t = t;
  return t;
}
/* child, created when missing */
static rt *rt_sub(rt *r, const char *k) { int i = rt_find(r, k); if (i >= 0 && r->e[i].t) return r->e[i].t; return rt_put(r, k, rt_new()); }
static void rt_del(rt *r, const char *k) { int i = rt_find(r, k); if (i < 0) return; for (; i + 1 < r->n; i++) r->e[i] = r->e[i + 1]; r->n--; }
static rt *rt_copy(const rt *r) { rt *c = rt_new(); if (r) for (int i = 0; i < r->n; i++) { c->e[i].k = r->e[i].k; c->e[i].t = rt_copy(r->e[i].t); c->n++; } return c; }
static void rt_merge(rt *a, const rt *b) { if (b) for (int i = 0; i < b->n; i++) rt_merge(rt_sub(a, b->e[i].k), b->e[i].t); }
static int rt_eq(const rt *a, const rt *b) {
  int na = a ? a->n : 0, nb = b ? b->n : 0;
  if (na != nb) return 0;
  for (int i = 0; i < na; i++) { int j = rt_find(b, a->e[i].k); if (j < 0 || !rt_eq(a->e[i].t, b->e[j].t)) return 0; }
  return 1;
}
/* ---- kvtree against a reference tree: same keys, each once, equal subtrees; NULL counts as empty */
static int kv_is(const kvtree *t, const rt *r) {
  int n = 0; unsigned char seen[RT_MAX] = { 0 };
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    const char *k = kvtree_elem_key(e);
    if (!k || ++n > RT_MAX) return 0;
    int i = rt_find(r, k);
    if (i < 0 || seen[i]) return 0;
    seen[i] = 1;
    if (!kv_is(kvtree_elem_hash(e), r->e[i].t)) return 0;
  }
  return n == (r ? r->n : 0) && kvtree_size(t) == n;
}
/* same keys, same order */
static int kv_is_ordered(const kvtree *t, const rt *r) {
  int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e), n++) {
    const char *k = kvtree_elem_key(e);
    if (n >= r->n || !k || strcmp(k, r->e[n].k) != 0 || !kv_is_ordered(kvtree_elem_hash(e), r->e[n].t)) return 0;
  }
  return n == (r ? r->n : 0);
}
static int kv_eq(const kvtree *a, const kvtree *b) {
  int n = 0, m = 0;
  for (kvtree_elem *e = kvtree_elem_first(a); e; e = kvtree_elem_next(e)) n++;
  for (kvtree_elem *e = kvtree_elem_first(b); e; e = kvtree_elem_next(e)) m++;
  if (n != m) return 0;
  for (kvtree_elem *e = kvtree_elem_first(a); e; e = kvtree_elem_next(e)) {
    int hit = 0;
    for (kvtree_elem *f = kvtree_elem_first(b); f; f = kvtree_elem_next(f)) if (strcmp(kvtree_elem_key(e), kvtree_elem_key(f)) == 0) { if (hit++) return 0; if (!kv_eq(kvtree_elem_hash(e), kvtree_elem_hash(f))) return 0; }
    if (!hit) return 0;
  }
  return 1;
}
/* release an element taken out of a tree */
static void elem_free(kvtree_elem *e) { kvtree *h = kvtree_elem_hash(e); kvtree_delete(&h); free(kvtree_elem_key(e)); free(e); }
/* ---- building */
static rt *rt_of(const kvtree *t) { rt *r = rt_new(); for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) rt_put(r, kvtree_elem_key(e), rt_of(kvtree_elem_hash(e))); return r; }
static kvtree *kv_of(const rt *r) { kvtree *t = kvtree_new(); if (r) for (int i = r->n - 1; i >= 0; i--) kvtree_set(t, r->e[i].k, r->e[i].t ? kv_of(r->e[i].t) : NULL); return t; }
/* text of symbolic bytes, exactly n characters, no NUL inside */
static char *sym_str(int n, const char *name) {
  char *p = sx_alloc(n + 1);
  sx_bytes(p, n, name);
  for (int i = 0; i < n; i++) sx_assume(p[i] != 0);
  p[n] = 0;
  return p;
}
/* text of at most max characters (each length its own path) */
static char *sym_key(int max, const char *name) { return sym_str((int)sx_concrete(sx_choose("key length", max + 1)), name); }
/* arbitrary tree shape: at most budget nodes, depth levels; keys of symbolic bytes */
static int sym_nodes, sym_nulls;     /* nodes still allowed; 1: leaves may be NULL subtrees */
static rt *sym_tree(int depth, int width, int keymax) {
  rt *r = rt_new();
  if (depth == 0) return r;
  while (sym_nodes > 0 && r->n < width) {
    if (!sx_choose("another element", 2)) break;
    sym_nodes--;
    char *k = sym_key(keymax, "key");
    for (int i = 0; i < r->n; i++) sx_assume(strcmp(r->e[i].k, k) != 0);
    int i = r->n++;
    r->e[i].k = k;
    r->e[i].t = NULL;
    if (sym_nulls && sx_choose("NULL subtree", 2)) continue;
    r->e[i].t = sym_tree(depth - 1, width, keymax);
  }
  return r;
}
/* fixed tree shapes with unconstrained key characters: */
static rt *leaf(rt *r, const char *k) { return rt_put(r, k, rt_new()); }
/* is s the canonical decimal rendering of v? */
static int is_udec(const char *s, unsigned long long v) {
  unsigned long long a = 0;
  if (!*s || (*s == '0' && s[1])) return 0;
  for (; *s; s++) { unsigned d = (unsigned)(unsigned char)*s - '0'; if (d > 9) return 0; a = a * 10 + d; }
  return a == v;
}
static int is_dec(const char *s, long long v) {
  if (*s == '-') return v < 0 && is_udec(s + 1, 0ull - (unsigned long long)v);
  return v >= 0 && is_udec(s, (unsigned long long)v);
}
/* 0x... without leading zeros; zero is "0" */
static int is_hex(const char *s, unsigned long long v) {
  unsigned long long a = 0;
  if (s[0] == '0' && !s[1]) return v == 0;
  if (s[0] != '0' || s[1] != 'x' || !s[2] || s[2] == '0') return 0;
  for (s += 2; *s; s++) {
    unsigned d = (unsigned)(unsigned char)*s - '0', l = (unsigned)(unsigned char)*s - 'a';
    if ((d > 9) & (l > 5)) return 0;
    a = a * 16 + (d <= 9) * d + (l <= 5) * (l + 10);
  }
  return a == v;
}
/* ---- independent reader of the documented formats */
static uint64_t be(const unsigned char *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
/* packed tree at p[*pos..n): reference tree, or NULL when it is not well formed */
static rt *ref_unpack(const unsigned char *p, size_t n, size_t *pos) {
  if (n - *pos < 4) return NULL;
  uint64_t c = sx_concrete(be(p + *pos, 4));
  *pos += 4;
  if (c > RT_MAX) return NULL;
  rt *r = rt_new();
  for (uint64_t i = 0; i < c; i++) {
    size_t b = *pos;
    *pos += strnlen((const char *)p + *pos, n - *pos);
    if (*pos >= n) return NULL;
    (*pos)++;
    rt *t = ref_unpack(p, n, pos);
    if (!t) return NULL;
    if (rt_find(r, (const char *)p + b) >= 0) return NULL;
    rt_put(r, (const char *)p + b, t);
  }
  return r;
}
/* complete file in the documented format: its tree, or NULL */
static rt *ref_file(const unsigned char *p, size_t n) {
  if (n < 28 || be(p, 4) != 0x951fc3f5 || be(p + 4, 2) != 1 || be(p + 6, 2) != 1 || be(p + 8, 8) != n || be(p + 16, 4) != 1) return NULL;
  if (be(p + n - 4, 4) != (uint32_t)sx_crc32(0, p, (unsigned)(n - 4))) return NULL;
  size_t pos = 20;
  rt *r = ref_unpack(p, n - 4, &pos);
  return pos == n - 4 ? r : NULL;
}
static void put_be(unsigned char *p, uint64_t v, int n) { while (n--) { p[n] = (unsigned char)v; v >>= 8; } }
static size_t ref_pack(unsigned char *p, const rt *t) {
  size_t n = 4;
  put_be(p, t ? t->n : 0, 4);
  if (t) for (int i = 0; i < t->n; i++) { size_t l = strlen(t->e[i].k) + 1; memcpy(p + n, t->e[i].k, l); n += l; n += ref_pack(p + n, t->e[i].t); }
  return n;
}
/* documented file image of a tree */
static size_t ref_image(unsigned char *p, const rt *t) {
  size_t n = 20 + ref_pack(p + 20, t) + 4;
  put_be(p, 0x951fc3f5, 4); put_be(p + 4, 1, 2); put_be(p + 6, 1, 2); put_be(p + 8, n, 8); put_be(p + 16, 1, 4);
  put_be(p + n - 4, (uint32_t)sx_crc32(0, p, (unsigned)(n - 4)), 4);
  return n;
}
/* small concrete trees, by number */
static rt *tree_no(int i) {
  rt *r = rt_new(), *s;
  switch (i) {
  case 0: break;
  case 1: leaf(r, "k"); break;
  case 2: leaf(rt_put(r, "key", rt_new()), "value"); break;
  case 3: leaf(r, ""); s = rt_put(r, "a", rt_new()); leaf(s, "b"); leaf(s, "c"); break;
  case 4: s = rt_put(r, "x", rt_new()); s = rt_put(s, "y", rt_new()); leaf(s, "z"); leaf(r, "w"); break;
  case 5: leaf(rt_put(r, "key", rt_new()), "other"); leaf(r, "k"); break;
  case 6: leaf(rt_put(r, "key", rt_new()), "velue"); break;
  default: for (int j = 0; j < 6; j++) { char b[12] = "entry-"; b[6] = 'a' + j; leaf(rt_put(r, b, rt_new()), "some longer value text"); } break;
  }
  return r;
}
static int in(uint64_t v, uint64_t lo, uint64_t hi) { return v >= lo && v <= hi; }
/* every division of n ranks into groups; the ranks of a group are numbered upwards or downwards */
static inline int gsize(int n, int g) { int c = 0; for (int i = 0; i < n; i++) c += vm_group[i] == g; return c; }
static inline int gworld(int n, int g, int r) { for (int i = 0; i < n; i++) if (vm_group[i] == g && vm_group_rank[i] == r) return i; return -1; }
static inline int split(int n) {
  int ng = 0, down = (int)sx_concrete(sx_choose("numbering within the groups", 2));
  for (int i = 0; i < n; i++) { vm_group[i] = i ? (int)sx_concrete(sx_choose("group", ng + 1)) : 0; if (vm_group[i] == ng) ng++; }
  for (int g = 0; g < ng; g++) { int k = gsize(n, g), j = 0; for (int i = 0; i < n; i++) if (vm_group[i] == g) { vm_group_rank[i] = down ? k - 1 - j : j; j++; } }
  return ng;
}
/* a number below n; two choices, so that few paths wait at a time */
static int pick(const char *what, int n) {
  int h = (int)sx_concrete(sx_choose(what, (unsigned)(n + 31) / 32)), l = (int)sx_concrete(sx_choose(what, 32));
  if (h * 32 + l >= n) sx_done();
  return h * 32 + l;
}
#endif
