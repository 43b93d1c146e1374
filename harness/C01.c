#include "h.h"
/* a map kept by the harness: keys, the pointers that were stored, their contents */
#define CAP 64
static struct { char *k; kvtree *p; rt *t; } M[CAP]; static int nm;
static kvtree *T;
static int m_find(const char *k) { for (int i = 0; i < nm; i++) if (strcmp(M[i].k, k) == 0) return i; return -1; }
static void m_put(const char *k, kvtree *p, rt *t) { int i = m_find(k); if (i < 0) { if (nm >= CAP) sx_incomplete("map is full"); i = nm++; M[i].k = rt_dup(k); } M[i].p = p; M[i].t = t; }
static void m_del(const char *k) { int i = m_find(k); if (i < 0) return; for (; i + 1 < nm; i++) M[i] = M[i + 1]; nm--; }
static kvtree *mkval(int i, rt **rv) {
  kvtree *v = kvtree_new(); rt *r = rt_new();
  char b[4] = {'v', (char)('0' + i), 0};
  kvtree_set(v, b, kvtree_new()); rt_put(r, b, rt_new());
  *rv = r;
  return v;
}
/* exactly the bindings of the map; lookups in the middle of an iteration change nothing */
static void agree(const char *why) {
  uint64_t seen = 0; int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) {
    const char *k = kvtree_elem_key(e);
    sx_check(k != NULL && ++n <= nm, why);
    int i = m_find(k);
    sx_check(i >= 0 && !(seen >> i & 1), why);
    seen |= 1ull << i;
    sx_check(kvtree_elem_hash(e) == M[i].p, why);
    sx_check(kv_is(M[i].p, M[i].t), why);
    sx_check(kvtree_elem_get(T, k) == e, why);
    sx_check(kvtree_get(T, M[(i + 1) % nm].k) == M[(i + 1) % nm].p, why);
  }
  sx_check(n == nm && kvtree_size(T) == nm, why);
}
static int pre, kl;                                      /* leading characters shared by all keys; arbitrary characters (negative: up to) */
static char *newkey(const char *name) {
  int n = kl < 0 ? (int)sx_concrete(sx_choose("key length", 1 - kl)) : kl;
  char *p = sx_alloc(pre + n + 1);
  memset(p, 'p', pre);
  sx_bytes(p + pre, n, name);
  for (int i = 0; i < n; i++) sx_assume(p[pre + i] != 0);
  p[pre + n] = 0;
  return p;
}
static void free_elem(kvtree_elem *e) { kvtree *h = kvtree_elem_hash(e); kvtree_delete(&h); free(kvtree_elem_key(e)); free(e); }
static void step(int i, int ops) {
  int op = (int)sx_concrete(sx_choose("operation", ops));
  char *k = op == 4 || op == 6 ? NULL : newkey("key");
  rt *rv; kvtree *v, *x; kvtree_elem *e; int j = k ? m_find(k) : -1;
  switch (op) {
  case 0: v = mkval(i, &rv); x = kvtree_set(T, k, v); sx_check(x == v, "set returns the subtree it stored"); m_put(k, v, rv); sx_cover("set"); break;
  case 1: sx_check(kvtree_unset(T, k) == KVTREE_SUCCESS, "unset succeeds"); m_del(k); sx_cover("unset"); break;
  case 2: x = kvtree_extract(T, k); sx_check(x == (j >= 0 ? M[j].p : NULL), "extract returns the subtree bound to exactly this key");
    if (x) { sx_check(kv_is(x, M[j].t), "extract returns the subtree intact"); kvtree_delete(&x); sx_check(x == NULL, "delete clears the pointer"); sx_cover("extract"); } m_del(k); break;
  case 3: e = kvtree_elem_extract(T, k); sx_check((e != NULL) == (j >= 0), "element extract finds exactly the bound keys");
    if (e) { sx_check(strcmp(kvtree_elem_key(e), k) == 0 && kvtree_elem_hash(e) == M[j].p && kv_is(M[j].p, M[j].t), "element extract returns the element intact"); m_del(k); agree("the other elements stay, the extracted one is detached"); free_elem(e); sx_cover("element extract"); }
    break;
  case 4: sx_check(kvtree_unset_all(T) == KVTREE_SUCCESS, "unset_all succeeds"); nm = 0; sx_cover("unset all"); break;
  case 5: x = kvtree_set(T, k, NULL); sx_check(x == NULL, "set of a NULL subtree"); m_put(k, NULL, NULL); break;
  case 6: e = kvtree_elem_first(T);
    if (e && nm > 1 && sx_concrete(sx_choose("second", 2))) e = kvtree_elem_next(e);
    if (e) { char *ek = rt_dup(kvtree_elem_key(e)); sx_check(kvtree_elem_extract_by_addr(T, e) == e && strcmp(kvtree_elem_key(e), ek) == 0 && kv_is(kvtree_elem_hash(e), M[m_find(ek)].t), "extract by address returns the element"); m_del(ek); agree("the other elements stay"); free_elem(e); sx_cover("extract by address"); }
    break;
  }
  agree("the tree holds exactly the bindings of the reference map");
}
static void lookup(void) {
  char *q = newkey("lookup");
  kvtree *g = kvtree_get(T, q); kvtree_elem *ge = kvtree_elem_get(T, q);
  int i = m_find(q);
  sx_check((ge != NULL) == (i >= 0), "lookup finds exactly the bound keys");
  if (i >= 0) { sx_check(g == M[i].p && kvtree_elem_hash(ge) == g && strcmp(kvtree_elem_key(ge), q) == 0, "lookup returns the subtree bound last"); sx_cover("hit"); }
  else { sx_check(g == NULL, "lookup of a missing key is NULL"); sx_cover("miss"); }
}
static void finish(long base) {
  sx_observe("size", kvtree_size(T));
  agree("at the end");
  kvtree_unset_all(T);
  sx_check_live(base, "removed bindings are released");
  nm = 0;
  agree("empty");
  kvtree_delete(&T);
}
/* parameters: operations, arbitrary characters per key, shared leading characters, kinds of operation */
void h_c01_ops(void) {
  int n = (int)sx_param(0); kl = (int)sx_param(1); pre = (int)sx_param(2);
  T = kvtree_new();
  long base = sx_live_allocs();
  for (int i = 0; i < n; i++) step(i, sx_param(3) ? (int)sx_param(3) : 7);
  lookup();
  finish(base);
}
/* parameters: operations in the first tree, in the second one, arbitrary characters, shared leading characters, 1: the first one is emptied by delete:
 * a tree that lives where another one was */
void h_c01_twice(void) {
  kl = (int)sx_param(2); pre = (int)sx_param(3);
  for (int round = 0; round < 2; round++) {
    T = kvtree_new();
    long base = sx_live_allocs();
    for (int i = 0; i < sx_param(round); i++) step(i, 4);
    if (round == 0 && sx_param(4)) { lookup(); kvtree_delete(&T); sx_check_live(base - 1, "delete releases the tree"); nm = 0; }
    else { lookup(); finish(base); }
  }
}
/* parameters: elements present, arbitrary characters, shared leading characters, operations: then operations */
void h_c01_many(void) {
  int n = (int)sx_param(0); kl = (int)sx_param(1); pre = (int)sx_param(2);
  T = kvtree_new();
  long base = sx_live_allocs();
  char *b = sx_alloc(pre + 8);
  memset(b, 'p', pre);
  for (int i = 0; i < n; i++) {
    /* keys of mixed lengths, some the beginning of others */
    snprintf(b + pre, 8, i % 3 == 0 ? "%c" : i % 3 == 1 ? "%c%c" : "%c1", 'a' + i / 3, 'A' + i % 26);
    rt *rv; kvtree *v = mkval(i % 10, &rv);
    sx_check(kvtree_set(T, b, v) == v, "set"); m_put(b, v, rv);
  }
  agree("many elements");
  for (int i = 0; i < sx_param(3); i++) step(i, 7);
  lookup();
  finish(base);
}
/* element extract by integer: exactly the element whose key is the decimal rendering */
void h_c01_int(void) {
  kl = (int)sx_param(0);
  T = kvtree_new();
  long base = sx_live_allocs();
  for (int i = 0; i < sx_param(1); i++) { rt *rv; kvtree *v = mkval(i, &rv); char *k = newkey("key"); kvtree_set(T, k, v); m_put(k, v, rv); }
  int v = (int)sx_sym("integer", 32);
  char d[16]; snprintf(d, sizeof d, "%d", v);
  int j = m_find(d);
  kvtree_elem *e = kvtree_elem_extract_int(T, v);
  sx_check((e != NULL) == (j >= 0), "element extract by integer finds exactly the decimal rendering");
  if (e) { sx_check(strcmp(kvtree_elem_key(e), d) == 0 && kvtree_elem_hash(e) == M[j].p, "element extract by integer returns the element intact"); m_del(d); agree("the others stay"); free_elem(e); sx_cover("found"); }
  else sx_cover("missing");
  agree("after extract by integer");
  finish(base);
}
/* very many elements: number and iteration */
void h_c01_count(void) {
  unsigned n = (unsigned)sx_param(0);
  unsigned char *b = sx_alloc(4 + n * 12ul), *p = b + 4;
  put_be(b, n, 4);
  for (unsigned i = 0; i < n; i++) { p[0] = 'a' + i % 26; p[1] = 'a' + i / 26 % 26; p[2] = 'a' + i / 676 % 26; p[3] = 'a' + i / 17576; p[4] = 0; put_be(p + 5, 0, 4); p += 9; }
  T = kvtree_new();
  sx_check(kvtree_unpack((char *)b, T) == (size_t)(p - b), "unpack");
  sx_check(kvtree_size(T) == (int)n, "size counts the keys");
  unsigned c = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) c++;
  sx_check(c == n, "iteration visits each element once");
  char *k = sym_str(4, "key");
  sx_assume(k[0] == 'a' && k[1] == 'z');
  sx_assume(k[2] == 'q' && k[3] >= 'a' && k[3] <= 'd');
  int there = kvtree_get(T, k) != NULL;
  sx_check(there == (650u + 16 * 676 + 17576u * (unsigned)(k[3] - 'a') < n), "lookup");
  sx_check(kvtree_unset(T, k) == KVTREE_SUCCESS && kvtree_size(T) == (int)n - there, "unset");
  kvtree_unset_all(T);
  sx_check(kvtree_size(T) == 0 && kvtree_elem_first(T) == NULL, "nothing is left");
  kvtree_delete(&T);
  sx_cover("done");
}
/* parameters: shortest key, number of lengths from there: keys that differ in their first or last character or in length */
void h_c01_length(void) {
  int n = (int)sx_param(0) + pick("length", (int)sx_param(1));
  T = kvtree_new();
  long base = sx_live_allocs();
  char *b = sx_alloc(n + 2);
  for (int i = 0; i < 4; i++) {
    memset(b, 'p', n + 1); b[n] = 0;
    if (i == 1) b[n - 1] = 'q';
    if (i == 2) b[0] = 'q';
    if (i == 3) { b[n] = 'p'; b[n + 1] = 0; }
    if (i == 2 && n == 1) continue;
    rt *rv; kvtree *v = mkval(i, &rv);
    sx_check(kvtree_set(T, b, v) == v, "set"); m_put(b, v, rv);
  }
  agree("every key is bound");
  memset(b, 'p', n); b[n] = 0;
  int at = (int)sx_concrete(sx_choose("arbitrary character", 2)) ? n - 1 : 0;
  b[at] = (char)sx_sym("character", 8); sx_assume(b[at] != 0);
  kvtree *g = kvtree_get(T, b); int i = m_find(b);
  if (i >= 0) { sx_check(g == M[i].p, "lookup returns the subtree bound last"); sx_cover("hit"); } else { sx_check(g == NULL, "lookup of a missing key is NULL"); sx_cover("miss"); }
  sx_check((kvtree_unset(T, b) == KVTREE_SUCCESS) | (i < 0), "unset"); m_del(b);
  agree("unset removes the key and nothing else");
  finish(base);
}
