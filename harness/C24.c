/* C24: operations that only read a tree leave it, its order and every pointer into it as they were. */
#include "mio.h"
#define PATH "/d/file"
#define MAXS 64
typedef struct { int n; struct { const kvtree_elem *e; const char *k; const kvtree *h; const char *t; } s[MAXS]; } snap;
static void take(snap *s, const kvtree *t) {
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    if (s->n >= MAXS) sx_incomplete("too many elements");
    s->s[s->n].e = e; s->s[s->n].k = kvtree_elem_key(e); s->s[s->n].h = kvtree_elem_hash(e); s->s[s->n++].t = rt_dup(kvtree_elem_key(e));
    take(s, kvtree_elem_hash(e));
  }
}
static int cmp(const snap *s, int *i, const kvtree *t) {
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    int j = (*i)++;
    if (j >= s->n || s->s[j].e != e || s->s[j].k != kvtree_elem_key(e) || s->s[j].h != kvtree_elem_hash(e) || strcmp(s->s[j].t, kvtree_elem_key(e)) != 0) return 0;
    if (!cmp(s, i, kvtree_elem_hash(e))) return 0;
  }
  return 1;
}
static int same(const snap *s, const kvtree *t) { int i = 0; return cmp(s, &i, t) && i == s->n; }
/* the same elements, in any order on the first level */
static int same_top(const snap *s, const kvtree *t) {
  int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    int j = 0;
    while (j < s->n && s->s[j].e != e) j++;
    if (j == s->n) return 0;
    int i = j + 1;
    if (s->s[j].k != kvtree_elem_key(e) || s->s[j].h != kvtree_elem_hash(e) || strcmp(s->s[j].t, kvtree_elem_key(e)) != 0 || !cmp(s, &i, kvtree_elem_hash(e))) return 0;
    n += i - j;
  }
  return n == s->n;
}
static char *any(void) { return sym_key((int)sx_param(2), "asked for"); }
#define NOPS 30
static void reader(int op, const kvtree *t) {
  int i, n, *l = NULL, fd; unsigned long ul; char *s, *k, *v; void *p; size_t z; double d; int64_t q; uLong c; kvtree *x; kvtree_elem *e;
  switch (op) {
  case 0: kvtree_get(t, any()); break;
  case 1: k = any(); kvtree_getf(t, "%s", k); break;
  case 2: k = any(); v = any(); kvtree_getf(t, "%s %s", k, v); break;
  case 3: k = any(); v = any(); kvtree_getf(t, "%s %s %d", k, v, 3); break;
  case 4: k = any(); v = any(); kvtree_get_kv(t, k, v); break;
  case 5: k = any(); kvtree_get_kv_int(t, k, (int)sx_sym("number", 3)); break;
  case 6: kvtree_get_val(t, any()); break;
  case 7: kvtree_size(t); break;
  case 8: kvtree_elem_get(t, any()); break;
  case 9: kvtree_elem_get_first_val(t, any()); break;
  case 10: for (e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) { kvtree_elem_key(e); kvtree_elem_key_int(e); kvtree_elem_hash(e); } break;
  case 11: kvtree_list_int(t, &n, &l); free(l); break;
  case 12: z = kvtree_pack_size(t); s = sx_alloc(z); kvtree_pack(s, t); break;
  case 13: p = NULL; if (kvtree_write_persist(&p, &z, t) == KVTREE_SUCCESS) free(p); break;
  case 14: kvtree_print(t, 2); break;
  case 15: kvtree_print_mode(t, 0, KVTREE_PRINT_KEYVAL); break;
  case 16: kvtree_log(t, 1, 0); break;
  case 17: kvtree_util_get_bytecount(t, any(), &ul); break;
  case 18: kvtree_util_get_crc32(t, any(), &c); break;
  case 19: kvtree_util_get_int(t, any(), &i); break;
  case 20: kvtree_util_get_unsigned_long(t, any(), &ul); break;
  case 21: kvtree_util_get_str(t, any(), &s); break;
  case 22: kvtree_util_get_int64(t, any(), &q); break;
  case 23: kvtree_util_get_double(t, any(), &d); break;
  case 24: kvtree_util_get_ptr(t, any(), &p); break;
  case 25: x = kvtree_new(); kvtree_set_kv(x, "k", "v"); kvtree_merge(x, t); kvtree_unset_all(x); kvtree_delete(&x); break;
  case 26: kvtree_write_file(PATH, t); break;
  case 27: fd = open(PATH, O_RDWR | O_CREAT, 0600); if (fd >= 0) { kvtree_write_fd(PATH, fd, t); close(fd); } break;
  case 28: fd = kvtree_open_with_lock(PATH, O_RDWR | O_CREAT, 0600, 1); if (fd >= 0) kvtree_write_close_unlock(PATH, &fd, t); break;
  default: x = kvtree_new(); kvtree_exchange_sendq(x, 3, t); kvtree_exchange_sendq(x, 3, t); kvtree_unset_all(x); kvtree_delete(&x); break;
  }
}
/* parameters: operation, elements, key length */
void h_c24(void) {
  int op = (int)sx_param(0);
  vm_dir_add("/d");
  sym_nodes = (int)sx_param(1); sym_nulls = 1;
  rt *r = sym_tree(3, 3, (int)sx_param(2));
  kvtree *t = kv_of(r);
  static snap s; take(&s, t);
  if (op >= 26) { vm_faults = (unsigned)sx_param(3); vm_fault_budget = 1; vm_intr_errno = EINTR; }
  reader(op, t);
  vm_faults = 0;
  sx_check(same(&s, t), "an operation that only reads a tree changes it");
  sx_check(kv_is(t, r), "an operation that only reads a tree changes its size or contents");
  kvtree_delete(&t);
  sx_cover("done");
}
/* parameters: operation, elements of concrete values with fields of every kind */
void h_c24_fields(void) {
  int op = (int)sx_param(0);
  vm_dir_add("/d");
  char *v = sym_str((int)sx_param(1), "value"), *w = sym_str((int)sx_param(1), "second value");
  rt *r = rt_new(); leaf(rt_put(r, "a", rt_new()), v); rt *x = rt_put(r, "key", rt_new()); leaf(x, w); leaf(x, v); leaf(rt_put(r, "b", rt_new()), "12"); rt_put(rt_put(r, "c", rt_new()), "n", NULL);
  sx_assume(strcmp(v, w) != 0);
  kvtree *t = kv_of(r), *q = kvtree_get(t, "key");
  static snap s; take(&s, t);
  int i, n, *l = NULL; unsigned long ul; char *str; void *p; double d; int64_t g; uLong c;
  const char *k = sx_concrete(sx_choose("which", 2)) ? "a" : sx_concrete(sx_choose("which", 2)) ? "key" : "c";
  switch (op) {
  case 0: kvtree_util_get_bytecount(t, k, &ul); break;
  case 1: kvtree_util_get_crc32(t, k, &c); break;
  case 2: kvtree_util_get_int(t, k, &i); break;
  case 3: kvtree_util_get_unsigned_long(t, k, &ul); break;
  case 4: kvtree_util_get_str(t, k, &str); break;
  case 5: kvtree_util_get_int64(t, k, &g); break;
  case 6: kvtree_util_get_double(t, k, &d); break;
  case 7: kvtree_util_get_ptr(t, k, &p); break;
  case 8: kvtree_list_int(q, &n, &l); free(l); break;
  default: kvtree_get_val(t, k); kvtree_elem_get_first_val(t, k); break;
  }
  sx_check(same(&s, t) && kv_is(t, r), "a getter changes the tree");
  kvtree_delete(&t);
  sx_cover("done");
}
/* ---- ranks */
static snap S[MAXN], S2[MAXN]; static int from;
static void body(int r) {
  kvtree *k = kv_of(tree_no(r + 2)), *q = kvtree_new(), *s = kvtree_new(), *o = kvtree_new();
  kvtree_set(s, num((r + from) % N), kv_of(tree_no(3))); kvtree_set(s, num((r + 1 + from) % N), kv_of(tree_no(r + 1)));
  take(&S[r], k); take(&S2[r], s);
  int top = 0;
  switch (sx_param(0)) {
  case 0: if (r == from) kvtree_send(k, (r + 1) % N, MPI_COMM_WORLD); if (r == (from + 1) % N) kvtree_recv(q, from, MPI_COMM_WORLD); break;
  case 1: kvtree_sendrecv(k, (r + 1) % N, q, (r + N - 1) % N, MPI_COMM_WORLD); break;
  case 2: kvtree_bcast(r == from ? k : q, from, MPI_COMM_WORLD); break;
  case 3: kvtree_exchange(s, o, MPI_COMM_WORLD); break;
  case 4: kvtree_exchange_direction(s, o, MPI_COMM_WORLD, KVTREE_EXCHANGE_LEFT); break;
  case 5: kvtree_exchange_direction(s, o, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT); break;
  default: vm_faults = (unsigned)sx_param(2); vm_fault_budget = 1; vm_intr_errno = EINTR; kvtree_write_gather("/d/set", k, MPI_COMM_WORLD); break;
  }
  (void)top;
  sx_check(same(&S[r], k), "a transfer changes the tree it sends");
  sx_check(same(&S2[r], s), "an exchange changes the trees it sends");
  /* what was received is the receiver's own */
  kvtree_unset_all(q); kvtree_unset_all(o);
  sx_check(same(&S[r], k) && same(&S2[r], s), "a received tree shares parts with the sent one");
  kvtree_delete(&k); kvtree_delete(&q); kvtree_delete(&s); kvtree_delete(&o);
}
/* parameters: operation, ranks, faults */
void h_c24_ranks(void) {
  N = (int)sx_param(1); segsize(3); from = (int)sx_concrete(sx_choose("from", N));
  vm_dir_add("/d");
  vm_mpi_run(N, body);
  sx_cover("done");
}
/* the tree of all ranks: sorted at most. parameters: ranks, entries per file, faults */
void h_c24_gather(void) {
  N = (int)sx_param(0); vm_dir_add("/d");
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = rt_dup(num((int)sx_param(1)));
  kvtree *t = kvtree_new(); unsigned done = 0;
  for (int i = 0; i < N; i++) { int r = (int)sx_concrete(sx_choose("next rank", N)); sx_assume(!(done >> r & 1)); done |= 1u << r; kvtree_set(t, num(r), kv_of(tree_no(r + 1))); }
  static snap s; take(&s, t);
  vm_faults = (unsigned)sx_param(2); vm_fault_budget = 1; vm_intr_errno = EINTR;
  kvtree_write_to_gather("/d/set", t, N);
  vm_faults = 0;
  sx_check(same_top(&s, t), "kvtree_write_to_gather changes the trees it writes");
  kvtree_delete(&t);
  sx_cover("done");
}
