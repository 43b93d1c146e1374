#include "h.h"
#include "softfp.h"
/* params: key length limit */
static rt *R; static kvtree *T; static int kl;
static void start(int nodes, int depth) { sym_nulls = 1; sym_nodes = nodes; R = sym_tree(depth, 2, kl); T = kv_of(R); }
static rt *rt_set_kv(rt *r, const char *k, const char *v) { return rt_sub(rt_sub(r, k), v); }
void h_c03_set(void) {
  kl = (int)sx_param(1); start((int)sx_param(0), 2);
  char *k = sym_key(kl, "key"), *v = sym_key(kl, "value");
  kvtree *k0 = kvtree_get(T, k), *v0 = kvtree_get(k0, v);
  kvtree *x = kvtree_set_kv(T, k, v);
  rt *rx = rt_set_kv(R, k, v);
  sx_check((!k0 || kvtree_get(T, k) == k0) && (!v0 || x == v0), "set keeps the existing subtrees themselves");
  sx_check(x != NULL && kv_is(x, rx), "set returns the subtree of the sub-key");
  sx_check(kv_is(T, R), "set creates what is missing and keeps everything else");
  sx_check(kvtree_get(kvtree_get(T, k), v) == x, "set returns the stored subtree itself");
  sx_check(kvtree_get_kv(T, k, v) == x, "get finds what set stored");
  kvtree_set(x, "below", kvtree_new()); leaf(rx, "below");
  sx_check(kvtree_set_kv(T, k, v) == x && kv_is(T, R), "setting again keeps the existing subtree");
  kvtree_delete(&T); sx_cover("done");
}
void h_c03_get(void) {
  kl = (int)sx_param(1); start((int)sx_param(0), 2);
  char *k = sym_key(kl, "key"), *v = sym_key(kl, "value");
  rt *q = rt_get(R, k); int i = q ? rt_find(q, v) : -1;
  kvtree *x = kvtree_get_kv(T, k, v);
  kvtree *y = kvtree_getf(T, "%s %s", k, v), *z = kvtree_getf(T, "%s", k);
  if (strchr(k, ' ') == NULL) {}
  rt *want = i >= 0 ? q->e[i].t : NULL;
  sx_check((x != NULL) == (want != NULL) && (!x || (x == kvtree_get(kvtree_get(T, k), v) && kv_is(x, want))), "get equals two nested lookups");
  sx_check(y == x, "formatted get equals two nested lookups");
  sx_check(z == kvtree_get(T, k), "formatted get of one key equals a lookup");
  sx_check(kv_is_ordered(T, R), "getting changes nothing");
  if (x) sx_cover("found"); else sx_cover("missing");
  kvtree_delete(&T);
}
void h_c03_unset(void) {
  kl = (int)sx_param(1);
  long base = sx_live_allocs();
  start((int)sx_param(0), 2);
  char *k = sym_key(kl, "key"), *v = sym_key(kl, "value");
  rt *q = rt_get(R, k);
  int rc = kvtree_unset_kv(T, k, v);
  sx_check(rc == KVTREE_SUCCESS, "unset succeeds");
  if (q) { if (rt_find(q, v) >= 0) sx_cover("removed"); rt_del(q, v); }
  int i = rt_find(R, k);
  if (i >= 0 && (!q || q->n == 0)) { rt_del(R, k); sx_cover("key removed"); }
  sx_check(kv_is(T, R), "unset removes the sub-key and the key if it became empty, nothing else");
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
}
/* integer sub-keys over the whole int range; siblings 7, -3 and abc */
void h_c03_int(void) {
  T = kvtree_new(); R = rt_new();
  rt *K = rt_put(R, "K", rt_new()); leaf(rt_put(K, "7", rt_new()), "seven"); leaf(K, "-3"); leaf(K, "abc"); leaf(R, "other");
  T = kv_of(R);
  int v = (int)sx_sym("v", 32), w = v;
  if (sx_concrete(sx_choose("another integer", 2))) { w = (int)sx_sym("w", 32); sx_assume(w != v); }
  kvtree *x = kvtree_set_kv_int(T, "K", v);
  sx_check(x != NULL && kvtree_get_kv_int(T, "K", v) == x, "get with the same integer finds the subtree");
  int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(kvtree_get(T, "K")); e; e = kvtree_elem_next(e)) if (kvtree_elem_hash(e) == x) { n++; sx_check(is_dec(kvtree_elem_key(e), v), "the sub-key is the decimal rendering"); sx_check(kvtree_elem_key_int(e) == v, "the element's integer key"); }
  sx_check(n == 1, "the sub-key is stored once");
  int known = v == 7 || v == -3;
  sx_check(kvtree_size(kvtree_get(T, "K")) == (known ? 3 : 4), "one sub-key is added");
  sx_check(kv_is(kvtree_get(kvtree_get(T, "K"), "7"), rt_get(K, "7")) && kvtree_elem_get(kvtree_get(T, "K"), "-3") && kvtree_elem_get(kvtree_get(T, "K"), "abc") && kvtree_elem_get(T, "other"), "siblings are kept");
  if (known) sx_cover("existing"); else sx_cover("new");
  kvtree *y = kvtree_get_kv_int(T, "K", w);
  sx_check((y != NULL) == (w == v || w == 7 || w == -3), "get with another integer finds only the stored ones");
  sx_check(kvtree_getf(T, "%s %d", "K", w) == y, "formatted get with an integer is the same lookup");
  sx_check(kvtree_unset_kv_int(T, "K", v) == KVTREE_SUCCESS, "unset succeeds");
  sx_check(kvtree_get_kv_int(T, "K", v) == NULL && kvtree_size(kvtree_get(T, "K")) == (known ? 2 : 3), "unset removes exactly the integer");
  kvtree_delete(&T);
}
/* unset of an integer empties and drops the key only when nothing is left */
void h_c03_int_unset(void) {
  int v = (int)sx_sym("v", 32), w = v;
  if (sx_concrete(sx_choose("another integer", 2))) { w = (int)sx_sym("w", 32); sx_assume(w != v); }
  T = kvtree_new();
  kvtree_set(T, "other", kvtree_new());
  kvtree_set_kv_int(T, "K", v);
  sx_check(kvtree_unset_kv_int(T, "K", w) == KVTREE_SUCCESS, "unset succeeds");
  if (v == w) { sx_check(kvtree_elem_get(T, "K") == NULL && kvtree_size(T) == 1, "the empty key goes away"); sx_cover("same"); }
  else { sx_check(kvtree_get_kv_int(T, "K", v) != NULL && kvtree_size(T) == 2, "another integer stays"); sx_cover("different"); }
  kvtree_elem *e = kvtree_elem_extract_int(kvtree_get(T, "K"), v);
  sx_check((e != NULL) == (v != w), "element extract by integer");
  if (e) { sx_check(is_dec(kvtree_elem_key(e), v) && kvtree_size(kvtree_get(T, "K")) == 0, "the extracted element is detached"); kvtree *h = kvtree_elem_hash(e); kvtree_delete(&h); free(kvtree_elem_key(e)); free(e); }
  kvtree_delete(&T);
}
/* each conversion, alone and below other levels; param 0: conversion number */
static const kvtree_elem *only(const kvtree *t) { sx_check(kvtree_size(t) == 1, "exactly one key is stored"); return kvtree_elem_first(t); }
#define CONV(F, TYPE, V, W, IS) { \
  TYPE v_ = (TYPE)(V); TYPE w_ = v_; if (sx_concrete(sx_choose("a different value", 2))) { w_ = (TYPE)(W); sx_assume(w_ != v_); } kvtree *val = kvtree_new(), *val2 = kvtree_new(); leaf_kv(val, "one"); leaf_kv(val2, "two"); \
  x = kvtree_setf(T, val, F, v_); sx_check(x == val, "formatted set returns the value"); e = only(T); sx_check(kvtree_elem_hash(e) == val && IS(kvtree_elem_key(e), v_), "the key is the requested rendering"); \
  sx_check(kvtree_getf(T, F, v_) == val, "formatted get finds it"); \
  x = kvtree_getf(T, F, w_); sx_check((x != NULL) == (v_ == w_), "formatted get distinguishes the values"); \
  x = kvtree_setf(T, val2, "%s " F " %s", "L", v_, "end"); sx_check(x == val2, "set below missing levels"); \
  sx_check(kvtree_getf(T, F, v_) == val && kvtree_size(T) == 2, "existing entries stay"); \
  kvtree *m = kvtree_get(T, "L"); e = only(m); sx_check(IS(kvtree_elem_key(e), v_), "the middle key is the requested rendering"); e = only(kvtree_elem_hash(e)); sx_check(strcmp(kvtree_elem_key(e), "end") == 0 && kvtree_elem_hash(e) == val2, "the last level holds the value"); \
  sx_check(kvtree_getf(T, "%s " F " %s", "L", v_, "end") == val2, "nested formatted get"); \
  kvtree *val3 = kvtree_new(); x = kvtree_setf(T, val3, "%s " F, "L", v_); sx_check(x == val3 && kvtree_size(m) == 1 && kvtree_getf(T, "%s " F, "L", v_) == val3, "setting the last key replaces its subtree"); \
  sx_check(kvtree_getf(T, "%s " F " %s", "L", v_, "end") == NULL, "the replaced subtree is gone"); }
static void leaf_kv(kvtree *t, const char *k) { kvtree_set(t, k, kvtree_new()); }
static int is_str(const char *k, const char *v) { return strcmp(k, v) == 0; }
static int is_ptr(const char *k, void *v) { return v ? is_hex(k, (uintptr_t)v) : strcmp(k, "(nil)") == 0; }
void h_c03_conv(void) {
  int c = (int)sx_param(0);
  long base = sx_live_allocs();
  T = kvtree_new();
  uint64_t v = c == 6 ? 0 : sx_sym("v", 64), w = c == 6 ? 0 : sx_sym("w", 64);
  kvtree *x; const kvtree_elem *e;
  switch (c) {
  case 0: CONV("%d", int, v, w, is_dec) break;
  case 1: CONV("%lld", long long, v, w, is_dec) break;
  case 2: CONV("%lu", unsigned long, v, w, is_udec) break;
  case 3: CONV("%llu", unsigned long long, v, w, is_udec) break;
  case 4: CONV("%#x", unsigned int, v, w, is_hex) break;
  case 5: CONV("%#lx", unsigned long, v, w, is_hex) break;
  case 6: { char *s = sym_key(2, "s"), *u = sym_key(2, "u"); 
    kvtree *val = kvtree_new(), *val2 = kvtree_new();
    x = kvtree_setf(T, val, "%s", s); sx_check(x == val && is_str(kvtree_elem_key(only(T)), s), "string key as it is");
    sx_check((kvtree_getf(T, "%s", u) != NULL) == (strcmp(s, u) == 0), "string lookup");
    x = kvtree_setf(T, val2, "%s %s", s, u); sx_check(x == val2 && kvtree_size(T) == 1 && kvtree_get(kvtree_get(T, s), u) == val2, "two string levels");
    sx_check(kvtree_getf(T, "%s %s", s, u) == val2 && kvtree_getf(T, "%s %s", s, "nope") == NULL, "two string levels lookup");
    break; }
  case 7: CONV("%p", void *, v, w, is_ptr) break;
  }
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
  sx_cover("done");
}
/* doubles of binary exponent param 0 .. param 1: the key is the value rounded to six decimals */
typedef union { double v; uint64_t b; } dbl;
#define SGN (1ul << 63)
static void six(uint64_t b, uint64_t *i, uint64_t *f) { sxf_decimal(b & ~SGN, 6, i, f); }
static int is_fix(const char *k, uint64_t b) {
  uint64_t i, f, a = 0; int n = 0;
  six(b, &i, &f);
  if ((*k == '-') != (int)(b >> 63)) return 0;
  if (b >> 63) k++;
  for (; *k != '.'; k++, n++) { if (*k < '0' || *k > '9' || n > 19) return 0; a = a * 10 + (uint64_t)(unsigned)((unsigned char)*k - '0'); }
  if (n == 0 || a != i) return 0;
  for (k++, a = 0, n = 0; *k; k++, n++) { if (*k < '0' || *k > '9' || n > 5) return 0; a = a * 10 + (uint64_t)(unsigned)((unsigned char)*k - '0'); }
  return n == 6 && a == f;
}
void h_c03_double(void) {
  int lo = (int)sx_param(0), hi = (int)sx_param(1);
  T = kvtree_new();
  dbl v, w; v.b = sx_sym("v", 64);
  int e = (int)((v.b >> 52) & 0x7ff);
  sx_assume(lo <= e); sx_assume(e <= hi);
  int other = (int)sx_concrete(sx_choose("other", 3));
  w.b = other == 0 ? v.b : other == 1 ? v.b ^ SGN : 0x3ff0000000000000ul;   /* itself, negated, one */
  uint64_t vi, vf, wi, wf; six(v.b, &vi, &vf); six(w.b, &wi, &wf);
  int same = vi == wi && vf == wf && v.b >> 63 == w.b >> 63;
  kvtree *val = kvtree_new(), *val2 = kvtree_new(), *x; leaf_kv(val, "one"); leaf_kv(val2, "two");
  x = kvtree_setf(T, val, "%f", v.v); sx_check(x == val, "formatted set returns the value");
  const kvtree_elem *el = only(T); sx_check(kvtree_elem_hash(el) == val && is_fix(kvtree_elem_key(el), v.b), "the key is the requested rendering");
  sx_check(kvtree_getf(T, "%f", v.v) == val, "formatted get finds it");
  sx_check((kvtree_getf(T, "%f", w.v) != NULL) == same, "formatted get distinguishes the renderings");
  x = kvtree_setf(T, val2, "%s %f %s", "L", v.v, "end"); sx_check(x == val2, "set below missing levels");
  kvtree *m = kvtree_get(T, "L"); sx_check(is_fix(kvtree_elem_key(only(m)), v.b) && kvtree_getf(T, "%s %f %s", "L", v.v, "end") == val2, "nested formatted get");
  sx_check(kvtree_getf(T, "%f", v.v) == val && kvtree_size(T) == 2, "existing entries stay");
  kvtree_delete(&T);
  sx_cover("done");
}
/* formatted set/get over an arbitrary existing tree, three levels */
void h_c03_setf(void) {
  kl = (int)sx_param(1); start((int)sx_param(0), 3);
  char *a = sym_str(1, "a"), *b = sym_str(1, "b"), *c = sym_str(1, "c");
  int levels = 1 + (int)sx_concrete(sx_choose("levels", 3));
  kvtree *v = kvtree_new(); leaf_kv(v, "nv"); rt *rv = rt_new(); leaf(rv, "nv");
  kvtree *a0 = kvtree_get(T, a), *b0 = kvtree_get(a0, b);
  kvtree *x = levels == 1 ? kvtree_setf(T, v, "%s", a) : levels == 2 ? kvtree_setf(T, v, "%s %s", a, b) : kvtree_setf(T, v, "%s %s %s", a, b, c);
  sx_check(x == v, "formatted set returns the value");
  rt *p = R; if (levels > 1) p = rt_sub(p, a); if (levels > 2) p = rt_sub(p, b);
  rt_put(p, levels == 1 ? a : levels == 2 ? b : c, rv);
  sx_check(kv_is(T, R), "formatted set replaces the last key's subtree and keeps everything else");
  sx_check((levels < 2 || !a0 || kvtree_get(T, a) == a0) && (levels < 3 || !b0 || kvtree_get(kvtree_get(T, a), b) == b0), "formatted set keeps the existing levels themselves");
  kvtree *g = levels == 1 ? kvtree_getf(T, "%s", a) : levels == 2 ? kvtree_getf(T, "%s %s", a, b) : kvtree_getf(T, "%s %s %s", a, b, c);
  sx_check(g == v && kv_is(T, R), "formatted get finds it and changes nothing");
  kvtree *n = kvtree_setf(T, NULL, "%s %s", "fresh", a); rt_put(rt_sub(R, "fresh"), a, NULL);
  sx_check(n == NULL && kv_is(T, R), "a NULL value is stored as an empty entry");
  kvtree_delete(&T); sx_cover("done");
}
/* mixed conversions over many levels, some of which exist; no siblings, or siblings with similar keys */
#define LV 10
static const char *fm[LV] = {"%s", "%d", "%lu", "%s", "%#x", "%lld", "%s", "%p", "%#lx", "%llu"};
static char *ks[LV];
#define ARGS(x) "first", -12, 4000000000ul, s, 0xbeefu, -5000000000ll, "", (void *)0x1234, 0xfeedfacecafeul, (x)
static kvtree *getn(int n, const char *s, unsigned long long l) {
  char f[100] = "";
  for (int i = 0; i < n; i++) { if (i) strcat(f, i == 4 ? "  " : " "); strcat(f, fm[i]); }
  return kvtree_getf(T, f, ARGS(l));
}
void h_c03_deep(void) {
  long base = sx_live_allocs();
  char *s = sym_str(2, "string");
  const char *c[LV] = {"first", "-12", "4000000000", s, "0xbeef", "-5000000000", "", "0x1234", "0xfeedfacecafe", "18446744073709551615"};
  int have = (int)sx_concrete(sx_choose("levels that exist", LV + 1)), n = 1 + (int)sx_concrete(sx_choose("levels set", LV)), sib = (int)sx_concrete(sx_choose("siblings", 2));
  kvtree *lv[LV + 1]; lv[0] = T = kvtree_new(); R = rt_new(); rt *r[LV + 1]; r[0] = R;
  for (int i = 0; i < LV; i++) { lv[i + 1] = NULL; r[i + 1] = NULL; }
  for (int i = 0; i <= have && i < LV; i++) {
    if (sib) { kvtree_set(lv[i], "firs", kvtree_new()); leaf(r[i], "firs"); kvtree_set(lv[i], "-1", NULL); leaf(r[i], "-1"); kvtree *q = kvtree_set(lv[i], "0xbeefe", kvtree_new()); leaf_kv(q, "q"); leaf(leaf(r[i], "0xbeefe"), "q"); }
    if (i < have) { lv[i + 1] = kvtree_set(lv[i], c[i], kvtree_new()); r[i + 1] = leaf(r[i], c[i]); }
  }
  for (int i = 1; i <= LV; i++) sx_check(getn(i, s, ~0ull) == lv[i], "formatted get over many levels");
  sx_check(kv_is(T, R), "formatted get over many levels changes nothing");
  char f[100] = "";
  for (int i = 0; i < n; i++) { if (i) strcat(f, " "); strcat(f, fm[i]); }
  kvtree *v = kvtree_new(); leaf_kv(v, "new");
  sx_check(kvtree_setf(T, v, f, ARGS(~0ull)) == v, "formatted set over many levels returns the value");
  rt *w = R;
  for (int i = 0; i < n; i++) {
    if (i + 1 < n) { w = rt_sub(w, c[i]); if (lv[i + 1]) sx_check(getn(i + 1, s, ~0ull) == lv[i + 1], "existing levels stay themselves"); }
    else { rt *x = rt_new(); leaf(x, "new"); rt_put(w, c[i], x); }
  }
  sx_check(kv_is(T, R), "formatted set over many levels creates what is missing and keeps the rest");
  sx_check(getn(n, s, ~0ull) == v, "formatted get over many levels finds it");
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
  sx_cover("done");
}
/* key and sub-key of any length */
void h_c03_longkv(void) {
  int n = (int)sx_param(0), m = (int)sx_param(1);
  if (sx_param(2)) { int d = pick("length", (int)sx_param(2)); n += d; m += d; }
  char *k = sx_alloc(n + 2), *v = sx_alloc(m + 2), *k2, *v2;
  memset(k, 'k', n); memset(v, 'v', m); k2 = rt_dup(k); v2 = rt_dup(v);
  sx_bytes(k + n - 1, 1, "last of key"); sx_bytes(v + m - 1, 1, "last of sub-key"); sx_assume(k[n - 1] && v[m - 1]);
  R = rt_new(); leaf(leaf(leaf(R, k2), v2), "x"); leaf(R, "y");
  T = kv_of(R);
  int same = strcmp(k, k2) == 0 && strcmp(v, v2) == 0;
  sx_check((kvtree_get_kv(T, k, v) != NULL) == same, "get of long keys");
  kvtree *x = kvtree_set_kv(T, k, v); rt_set_kv(R, k, v);
  sx_check(x && kv_is(T, R) && kvtree_get_kv(T, k, v) == x, "set of long keys");
  sx_check(kvtree_unset_kv(T, k, v) == KVTREE_SUCCESS, "unset of long keys");
  rt *q = rt_get(R, k); rt_del(q, v); if (q->n == 0) rt_del(R, k);
  sx_check(kv_is(T, R) && kvtree_get_kv(T, k, v) == NULL, "unset of long keys removes exactly them");
  kvtree_delete(&T);
  sx_cover("done");
}
/* integer sub-keys in any existing tree: parameters as in h_c03_set */
void h_c03_inttree(void) {
  kl = (int)sx_param(1); start((int)sx_param(0), 2);
  char *k = sym_key(kl, "key"); int v = (int)sx_sym("integer", 32);
  sx_assume(v > -10 && v < 100);
  char d[16]; snprintf(d, sizeof d, "%d", v);
  kvtree *k0 = kvtree_get(T, k), *v0 = kvtree_get(k0, d);
  sx_check(kvtree_get_kv_int(T, k, v) == v0 && kv_is(T, R), "get with an integer equals two lookups");
  if (sx_concrete(sx_choose("set or unset", 2))) {
    kvtree *x = kvtree_set_kv_int(T, k, v); rt_set_kv(R, k, d);
    sx_check(x && (!v0 || x == v0) && (!k0 || kvtree_get(T, k) == k0) && kvtree_get(kvtree_get(T, k), d) == x, "set with an integer keeps what exists");
  } else {
    sx_check(kvtree_unset_kv_int(T, k, v) == KVTREE_SUCCESS, "unset with an integer succeeds");
    rt *q = rt_get(R, k); if (q) rt_del(q, d);
    if (rt_find(R, k) >= 0 && (!q || q->n == 0)) rt_del(R, k);
  }
  sx_check(kv_is(T, R), "the integer accessors equal nested operations on the decimal rendering");
  kvtree_delete(&T);
  sx_cover("done");
}
/* keys up to the documented limit */
void h_c03_long(void) {
  char k[1024], k2[1024];
  int n = 1000 + (int)sx_concrete(sx_choose("length", 24));
  memset(k, 'a', n); k[n] = 0; strcpy(k2, k);
  sx_bytes(k + n - 1, 1, "last"); sx_assume(k[n - 1] != 0);
  T = kvtree_new();
  kvtree *v = kvtree_new();
  sx_check(kvtree_setf(T, v, "%s %s", k, k) == v && kvtree_get(kvtree_get(T, k), k) == v && kvtree_size(T) == 1, "long keys are stored whole");
  sx_check(kvtree_getf(T, "%s %s", k, k) == v, "long keys are found");
  sx_check((kvtree_getf(T, "%s %s", k2, k2) != NULL) == (k[n - 1] == 'a'), "the last character counts");
  kvtree_delete(&T); sx_cover("done");
}
/* what the format accessors cannot do ends the program instead of touching another key */
static int lop, llen, ltok; static char *lkey; static kvtree *lret; static char *lfmt;
static void limit(void *a) {
  switch (lop) {
  case 0: lret = kvtree_setf(T, NULL, lfmt, lkey, "sub"); break;
  default: lret = kvtree_getf(T, lfmt, lkey, "sub"); break;
  }
}
/* parameters: 0 setf, 1 getf; 1: the long key is the last */
void h_c03_limit(void) {
  lop = (int)sx_param(0);
  int last = (int)sx_param(1), n = sx_concrete(sx_choose("just around the limit", 2)) ? 1020 + (int)sx_concrete(sx_choose("length", 9)) : 1024 * (int)(1 + sx_concrete(sx_choose("far above", 5)));
  char k[6000]; memset(k, 'a', n); k[n] = 0; sx_bytes(k + (n > 1022 ? 1022 : n - 1), 1, "key"); sx_assume(k[n > 1022 ? 1022 : n - 1] != 0);
  char c[1024]; memcpy(c, k, 1023); c[n < 1023 ? n : 1023] = 0;
  R = rt_new(); leaf(rt_put(R, c, rt_new()), "sub"); leaf(R, "other"); if (n > 1023) leaf(rt_put(R, k, rt_new()), "sub");
  T = kv_of(R); lkey = k; lfmt = last ? "%s" : "%s %s"; lret = NULL;
  int code = 0, ex = vm_call_exit(limit, NULL, &code);
  sx_check(!ex || n >= 1024, "a key of up to 1023 characters ends the program");
  if (ex) { sx_check((code & 255) != 0, "a key that is too long ends the program with success"); sx_check(kv_is(T, R), "a key that is too long changes the tree"); sx_cover("too long"); }
  else { if (lop) sx_check(lret == (last ? kvtree_get(T, k) : kvtree_get_kv(T, k, "sub")), "get of a long key"); else { if (last) rt_get(R, k)->n = 0; sx_check(lret == NULL && kv_is(T, R), "set of a long key"); } sx_cover("fits"); }
  kvtree_delete(&T);
}
/* parameters: 0 setf, 1 getf; characters of the token, 1: behind a first level */
void h_c03_token(void) {
  lop = (int)sx_param(0); ltok = (int)sx_param(1);
  static const char *ok[] = { "%s", "%d", "%lld", "%lu", "%llu", "%#x", "%#lx", "%f", "%p" };
  char *f = sym_str(ltok, "token");
  for (int i = 0; i < ltok; i++) sx_assume(f[i] != ' ');
  for (int i = 0; i < 9; i++) sx_assume(strcmp(f, ok[i]) != 0);
  lfmt = sx_alloc(ltok + 20); strcpy(lfmt, sx_param(2) ? "%s " : ""); strcat(lfmt, f); if (sx_concrete(sx_choose("more tokens", 2))) strcat(lfmt, " %s");
  R = tree_no(3); leaf(rt_put(R, "key", rt_new()), "sub"); T = kv_of(R); lkey = "key";
  int code = 0, ex = vm_call_exit(limit, NULL, &code);
  sx_check(ex && (code & 255) != 0, "an unknown format token does not end the program with an error");
  sx_check(kv_is(T, R), "an unknown format token changes the tree");
  kvtree_delete(&T);
  sx_cover("done");
}
