#include "h.h"
/* params: nodes of A, nodes of B, key length limit */
static void touch(kvtree *t) { for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) { kvtree_elem_key(e)[0] = 'Z'; touch(kvtree_elem_hash(e)); } }
void h_c02_merge(void) {
  int na = (int)sx_param(0), nb = (int)sx_param(1), kl = (int)sx_param(2);
  sym_nulls = 1;
  sym_nodes = na; rt *ra = sym_tree(2, 2, kl);
  sym_nodes = nb; rt *rb = sym_tree(2, 2, kl);
  long base = sx_live_allocs();
  kvtree *A = kv_of(ra), *B = kv_of(rb);
  if (ra->n && rb->n && strcmp(ra->e[0].k, rb->e[0].k) == 0) sx_cover("common key");
  int rc = kvtree_merge(A, B);
  sx_check(rc == KVTREE_SUCCESS, "merge succeeds");
  rt *ru = rt_copy(ra); rt_merge(ru, rb);
  sx_check(kv_is(A, ru), "merge gives the recursive union");
  sx_check(kv_is_ordered(B, rb), "merge leaves the source unchanged");
  /* independence: whatever happens to one tree leaves the other alone */
  if (sx_choose("destroy which", 2)) { touch(B); kvtree_delete(&B); sx_check(kv_is(A, ru), "the result does not depend on the source"); kvtree_delete(&A); }
  else { touch(A); kvtree_delete(&A); sx_check(kv_is_ordered(B, rb), "the source does not depend on the result"); kvtree_delete(&B); }
  sx_check_live(base, "both trees are released");
}
/* merging twice / self merge / three trees: union is idempotent and order independent */
void h_c02_algebra(void) {
  int n = (int)sx_param(0);
  sym_nodes = n; rt *ra = sym_tree(2, 2, 1);
  sym_nodes = n; rt *rb = sym_tree(2, 2, 1);
  kvtree *A = kv_of(ra), *B = kv_of(rb), *C = kvtree_new();
  sx_check(kvtree_merge(A, B) == KVTREE_SUCCESS && kvtree_merge(A, B) == KVTREE_SUCCESS, "merging twice succeeds");
  sx_check(kvtree_merge(C, B) == KVTREE_SUCCESS, "merge into an empty tree");
  kvtree *A2 = kv_of(ra);
  sx_check(kvtree_merge(C, A2) == KVTREE_SUCCESS && kv_eq(A, C), "union does not depend on the order of merging");
  sx_check(kvtree_merge(A, NULL) == KVTREE_SUCCESS && kv_eq(A, C), "merging a NULL tree changes nothing");
  sx_check(kvtree_merge(A, A) == KVTREE_SUCCESS && kv_eq(A, C), "merging a tree into itself changes nothing");
  sx_check(kvtree_merge(NULL, A) != KVTREE_SUCCESS, "merging into NULL fails");
  kvtree_delete(&A); kvtree_delete(&B); kvtree_delete(&C); kvtree_delete(&A2);
  sx_cover("done");
}
/* deep chains and wide levels; one key symbolic. params: depth, width */
void h_c02_deep(void) {
  int depth = (int)sx_param(0), width = (int)sx_param(1);
  rt *ra = rt_new(), *rb = rt_new(), *a = ra, *b = rb;
  unsigned cut = (unsigned)sx_concrete(sx_choose("level where the trees part", depth + 1));
  for (int i = 0; i < depth; i++) {
    char k[3] = {'k', (char)('0' + i), 0}, k2[3] = {'m', (char)('0' + i), 0};
    for (int j = 0; j < width; j++) { char s[3] = {'s', (char)('a' + j), 0}, u[3] = {'u', (char)('a' + j), 0}; leaf(a, s); leaf(b, j & 1 ? s : u); }
    a = rt_put(a, k, rt_new()); b = rt_put(b, i < (int)cut ? k : k2, rt_new());
  }
  char *x = sym_str(1, "key"), *y = sym_str(1, "key");
  leaf(a, x); leaf(rt_put(b, y, rt_new()), "v");
  kvtree *A = kv_of(ra), *B = kv_of(rb);
  sx_check(kvtree_merge(A, B) == KVTREE_SUCCESS, "merge succeeds");
  rt *ru = rt_copy(ra); rt_merge(ru, rb);
  sx_check(kv_is(A, ru), "merge gives the recursive union");
  sx_check(kv_is_ordered(B, rb), "merge leaves the source unchanged");
  kvtree_delete(&B);
  sx_check(kv_is(A, ru), "the result does not depend on the source");
  kvtree_delete(&A);
  sx_cover("done");
}
/* wide and long: parameters: elements of A, of B, shared leading characters of all keys; one arbitrary key in each */
void h_c02_wide(void) {
  int na = (int)sx_param(0), nb = (int)sx_param(1), pre = (int)sx_param(2);
  long base = sx_live_allocs();
  kvtree *A = kvtree_new(), *B = kvtree_new();
  char *k = sx_alloc(pre + 16);
  memset(k, 'p', pre);
  /* A: 0..na-1 with value "a", B: na/2..na/2+nb-1 with value "b" */
  for (int i = 0; i < na; i++) { sprintf(k + pre, "%d", i); kvtree_set(kvtree_set(A, k, kvtree_new()), "a", kvtree_new()); }
  for (int i = na / 2; i < na / 2 + nb; i++) { sprintf(k + pre, "%d", i); kvtree_set(kvtree_set(B, k, kvtree_new()), "b", kvtree_new()); }
  sx_bytes(k + pre, 1, "key of B"); sx_assume(k[pre] != 0); k[pre + 1] = 0;
  int digit = k[pre] >= '0' && k[pre] <= '9', d = k[pre] - '0';
  int in_a = digit && d < na, in_b = digit && d >= na / 2 && d < na / 2 + nb;
  kvtree *x = kvtree_get(B, k); if (!x) x = kvtree_set(B, k, kvtree_new());
  kvtree_set(x, "special", kvtree_new());
  sx_check(kvtree_merge(A, B) == KVTREE_SUCCESS, "merge succeeds");
  char *q = sx_alloc(pre + 16); memset(q, 'p', pre);
  for (int round = 0; round < 2; round++) {
    int total = na > na / 2 + nb ? na : na / 2 + nb;
    sx_check(kvtree_size(A) == total + (in_a || in_b ? 0 : 1), "merge gives the union");
    for (int i = 0; i < total; i++) {
      sprintf(q + pre, "%d", i);
      kvtree *v = kvtree_get(A, q);
      int a = i < na, b = i >= na / 2 && i < na / 2 + nb, s = digit && i == d;
      sx_check(v && (kvtree_elem_get(v, "a") != NULL) == a && (kvtree_elem_get(v, "b") != NULL) == b && kvtree_size(v) == a + b + s, "merge gives the union of the subtrees");
      if (round == 0) { kvtree *w = kvtree_get(B, q); sx_check(w ? w != v && kvtree_size(w) == b + s : !b, "merge leaves the source unchanged"); }
    }
    sx_check(kvtree_elem_get(kvtree_get(A, k), "special") != NULL, "the arbitrary key is merged");
    if (round == 0) { sx_check(kvtree_size(B) == nb + !in_b, "merge leaves the source unchanged"); kvtree_delete(&B); }
  }
  kvtree_delete(&A);
  sx_check_live(base, "both trees are released");
  sx_cover("done");
}
