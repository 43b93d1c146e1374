/* Shared by the checks of the collective file operations: trees of all sizes per
 * rank, an independent reader of the documented file set. */
#ifndef MIO_H
#define MIO_H
#include "h.h"
#ifndef MAXN
#define MAXN 12
#endif
static int N;
static int cls[MAXN];                                    /* size class of each rank's tree */
static int symrank = -1; static char *symkey;            /* one rank with a key of arbitrary bytes */
static int gen;                                          /* generation of the contents */
extern unsigned long vm_segsize;
static size_t big(int c) {
  static const size_t B[] = { 0, 0, 0, 350000, 700000, 1300000, 1048440 }, S[] = { 0, 0, 0, 30, 65, 130, 0 };
  if (vm_segsize >= 1024 * 1024) return B[c];
  return c == 6 ? vm_segsize > 60 ? vm_segsize - 60 : 1 : S[c] * vm_segsize / 100;
}
static void segsize(int i) { if (sx_param(i)) vm_segsize = sx_param(i); }
static rt *rank_tree(int r) {
  int c = cls[r];
  if (c <= 1) return rt_new();
  rt *t = rt_new();
  char b[40];
  snprintf(b, sizeof b, "rank %d of generation %d", r, gen); leaf(rt_put(t, "data", rt_new()), b);
  if (r == symrank) leaf(t, symkey);
  if (c >= 3) { size_t n = big(c); char *k = sx_alloc(n + 1); memset(k, 'a' + r, n); k[n] = 0; leaf(t, k); }
  return t;
}
static int wmap_on, wmap[MAXN];                          /* the ranks of a group: their ranks among all */
static int group_rank_of(int r) { return wmap_on ? wmap[r] : r; }
static kvtree *rank_kv(int r) { return cls[r] == 0 ? NULL : kv_of(rank_tree(r)); }
static const char *num(int i) { static char b[4][12]; static int k; k = (k + 1) & 3; snprintf(b[k], 12, "%d", i); return b[k]; }
static rt *file_rt(const char *path) { return vm_file_exists(path) ? ref_file(vm_file_data(path), vm_file_size(path)) : NULL; }
static int only(const rt *t, int i) { return t && t->n == 1 && t->e[0].t && t->e[0].t->n == 0; }
static int field(const rt *t, const char *k) { rt *v = rt_get(t, k); return v && v->n == 1 && v->e[0].t->n == 0 ? atoi(v->e[0].k) : -1; }
/* the documented file set below prefix holds exactly the trees of ranks 0..n-1 */
static unsigned char seen[MAXN]; static int seen_ranks, seen_files;
static void walk(const char *prefix, const char *suffix, int level, int n) {
  char p[1200];
  snprintf(p, sizeof p, "%s%s", prefix, suffix);
  rt *t = file_rt(p);
  sx_check(t != NULL, "a file of the set is missing or not in the documented format");
  int l = field(t, "LEVEL");
  if (level < 0) sx_check(l >= 1, "the root file is not at level 1 or above"); else sx_check(l == level, "a file does not carry its LEVEL");
  sx_check(field(t, "RANKS") == n, "a file does not carry the number of ranks");
  seen_files++;
  rt *rk = rt_get(t, "RANK");
  sx_check(rk != NULL && t->n == 3, "a file has other fields than LEVEL, RANKS and RANK");
  for (int i = 0; i < rk->n; i++) {
    int r = atoi(rk->e[i].k);
    sx_check(r >= 0 && r < n && strcmp(num(r), rk->e[i].k) == 0, "a file lists an invalid rank");
    if (l == 0) {
      sx_check(!seen[r], "the tree of a rank is stored twice"); seen[r] = 1; seen_ranks++;
      sx_check(rt_eq(rk->e[i].t, rank_tree(group_rank_of(r))), "a file holds another tree than the rank wrote");
    } else {
      rt *f = rt_get(rk->e[i].t, "FILE"), *o = rt_get(rk->e[i].t, "OFFSET");
      sx_check(f && f->n == 1 && o && o->n == 1 && strcmp(o->e[0].k, "0") == 0, "a map entry lacks FILE or OFFSET");
      char b[40]; snprintf(b, sizeof b, ".%d.%d", l - 1, r);
      sx_check(strcmp(f->e[0].k, b) == 0, "a file is not named prefix.level.rank");
      walk(prefix, f->e[0].k, l - 1, n);
    }
  }
}
static void check_set(const char *prefix, int n) {
  seen_ranks = seen_files = 0; memset(seen, 0, sizeof seen);
  walk(prefix, "", -1, n);
  sx_check(seen_ranks == n, "the tree of a rank is not stored");
}
/* the sets of all groups of n ranks: prefix-group */
static void check_groups(const char *prefix, int n, int ng) {
  wmap_on = 1;
  for (int g = 0; g < ng; g++) {
    char p[80]; snprintf(p, sizeof p, "%s-%d", prefix, g);
    for (int r = 0; r < gsize(n, g); r++) wmap[r] = gworld(n, g, r);
    check_set(p, gsize(n, g));
  }
  wmap_on = 0;
}
/* a prefix of n characters, made of directories whose names have up to 200 characters */
static const char *long_prefix(int n) {
  char *p = sx_alloc(n + 1);
  for (int i = 0; i < n; i++) p[i] = (char)('a' + i % 23);
  p[0] = '/';
  for (int i = 150; i < n - 1; i += 151) { p[i] = 0; vm_dir_add(p); p[i] = '/'; }
  return p;
}
/* ---- file sets made by hand */
static void put_tree(const char *prefix, const char *suffix, const rt *t) {
  char p[1200]; size_t cap = 400;
  snprintf(p, sizeof p, "%s%s", prefix, suffix);
  unsigned char *img = sx_alloc(cap * 8);
  vm_file_set(p, img, ref_image(img, t), 0644);
}
#endif
