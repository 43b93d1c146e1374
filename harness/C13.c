/* C13: point-to-point and broadcast transfers deliver an exact copy. */
#include "h.h"
#define MAXN 8
static int N, src, dst, nullsrc, to[MAXN], from[MAXN], root;
static rt *T[MAXN], *prior[MAXN];
static int isnull[MAXN];
static kvtree *own(int r) { return isnull[r] ? NULL : kv_of(T[r]); }
static const rt *sent(int r) { return isnull[r] ? NULL : T[r]; }
static void unchanged(kvtree *k, int r) { if (k) sx_check(kv_is(k, T[r]), "sending changes the sender's tree"); }
/* trees: one arbitrary, the others fixed and different from each other */
static void trees(int n, int which, int nodes, int depth, int key) {
  for (int r = 0; r < n; r++) {
    T[r] = tree_no(r + 2); char b[3] = { 'r', '0' + r, 0 }; leaf(T[r], b);
    prior[r] = r ? prior[0] : tree_no((int)sx_concrete(sx_choose("what the receiver holds", 3)) * 2);
  }
  if (which >= 0) {
    isnull[which] = (int)sx_concrete(sx_choose("NULL tree", 2));
    sym_nodes = nodes; sym_nulls = 1; T[which] = sym_tree(depth, 3, key);
  }
}
static void p2p(int r) {
  if (r == src) {
    kvtree *k = own(r);
    sx_check(kvtree_send(k, dst, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_send fails");
    unchanged(k, r);
    kvtree_delete(&k);
    k = kv_of(T[r]); kvtree_set(k, "second", kvtree_new());
    sx_check(kvtree_send(k, dst, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_send fails");
    kvtree_delete(&k);
  } else if (r == dst) {
    kvtree *k = kv_of(prior[r]);
    sx_check(kvtree_recv(k, src, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_recv fails");
    sx_check(kv_is(k, sent(src)), "the received tree differs from the one sent");
    sx_check(kvtree_recv(k, src, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_recv fails");
    rt *e = rt_copy(T[src]); if (rt_find(e, "second") < 0) leaf(e, "second"); else rt_put(e, "second", rt_new());
    sx_check(kv_is(k, e), "the second tree received differs from the one sent");
    kvtree_delete(&k);
  }
}
/* parameters: ranks, nodes, depth, key length */
void h_c13_p2p(void) {
  N = (int)sx_param(0);
  src = (int)sx_concrete(sx_choose("sender", N)); dst = (int)sx_concrete(sx_choose("receiver", N));
  if (src == dst) return;
  trees(N, src, (int)sx_param(1), (int)sx_param(2), (int)sx_param(3));
  vm_mpi_run(N, p2p);
  sx_cover(isnull[src] ? "NULL" : "tree");
}
static void noone(int r) {
  kvtree *k = kv_of(T[0]), *q = kv_of(T[1]);
  sx_check(kvtree_send(k, MPI_PROC_NULL, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_send to nobody fails");
  sx_check(kv_is(k, T[0]), "sending changes the sender's tree");
  sx_check(kvtree_recv(q, MPI_PROC_NULL, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_recv from nobody fails");
  sx_check(kvtree_size(q) == 0 || kv_is(q, T[1]), "kvtree_recv from nobody invents data");
  kvtree_delete(&k); kvtree_delete(&q);
}
void h_c13_noone(void) { N = 2; trees(2, 0, 2, 2, 1); isnull[0] = 0; vm_mpi_run(2, noone); sx_cover("done"); }
static void pairwise(int r) {
  kvtree *k = own(r), *q = kv_of(prior[r]);
  int rounds = (int)sx_param(1);
  for (int i = 0; i < rounds; i++) {
    sx_check(kvtree_sendrecv(k, to[r], q, from[r], MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_sendrecv fails");
    unchanged(k, r);
    if (from[r] == MPI_PROC_NULL) sx_check(kv_is(q, prior[r]), "kvtree_sendrecv without a source changes the receiving tree");
    else sx_check(kv_is(q, sent(from[r])), "the received tree differs from the one sent");
  }
  kvtree_delete(&k); kvtree_delete(&q);
}
/* parameters: ranks, rounds, rank with an arbitrary tree, nodes, depth, key: every pattern of partners */
void h_c13_pair(void) {
  N = (int)sx_param(0);
  int used[MAXN] = {0}, some = 0, self = 0;
  for (int r = 0; r < N; r++) from[r] = MPI_PROC_NULL;
  for (int r = 0; r < N; r++) {
    int d = (int)sx_concrete(sx_choose("destination", N + 1)) - 1;
    if (d < 0) { to[r] = MPI_PROC_NULL; continue; }
    if (used[d]) return;
    used[d] = 1; to[r] = d; from[d] = r; some = 1; self |= d == r;
  }
  trees(N, (int)sx_param(2), (int)sx_param(3), (int)sx_param(4), (int)sx_param(5));
  vm_mpi_run(N, pairwise);
  sx_cover(!some ? "nobody" : self ? "to itself" : "others");
}
static void bc(int r) {
  kvtree *k = r == root ? own(r) : kv_of(prior[r]);
  sx_check(kvtree_bcast(k, root, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_bcast fails");
  if (r == root) unchanged(k, r); else sx_check(kv_is(k, sent(root)), "the tree received by broadcast differs from the root's");
  kvtree_delete(&k);
  int r2 = (root + 1) % N;
  k = r == r2 ? kv_of(tree_no(3)) : kv_of(prior[r]);
  sx_check(kvtree_bcast(k, r2, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_bcast fails");
  sx_check(kv_is(k, tree_no(3)), "the tree received by a second broadcast differs from the root's");
  kvtree_delete(&k);
}
void h_c13_bcast(void) {
  N = (int)sx_param(0);
  root = (int)sx_concrete(sx_choose("root", N));
  trees(N, root, (int)sx_param(1), (int)sx_param(2), (int)sx_param(3));
  vm_mpi_run(N, bc);
  sx_cover(isnull[root] ? "NULL" : "tree");
}
/* the three kinds after each other */
static void mixed(int r) {
  p2p(r);
  pairwise(r);
  bc(r);
  pairwise(r);
  p2p(r);
}
void h_c13_mixed(void) {
  N = (int)sx_param(0);
  src = (int)sx_concrete(sx_choose("sender", N)); dst = (src + 1) % N; root = (int)sx_concrete(sx_choose("root", N));
  int d = (int)sx_concrete(sx_choose("distance", N));
  for (int r = 0; r < N; r++) { to[r] = (r + d) % N; from[r] = (r + N - d) % N; }
  trees(N, -1, 0, 0, 0);
  vm_mpi_run(N, mixed);
  sx_cover("done");
}
/* parameters: elements, key length */
static void large(int r) {
  int n = (int)sx_param(0), l = (int)sx_param(1), me = (int)sx_param(2);
  kvtree *k = kvtree_new(), *q = kvtree_new();
  char *key = sx_alloc(l + 1);
  for (int i = 0; i < n; i++) { memset(key, 'a' + i % 26, l); key[l] = 0; key[0] = 'a' + i / 676; key[1] = 'a' + i / 26 % 26; key[2] = 'a' + r; kvtree_set(k, key, kvtree_new()); }
  if (me == 0) { if (r == 0) kvtree_send(k, 1, MPI_COMM_WORLD); else kvtree_recv(q, 0, MPI_COMM_WORLD); }
  else if (me == 1) kvtree_sendrecv(k, 1 - r, q, 1 - r, MPI_COMM_WORLD);
  else { if (r == 1) { kvtree_delete(&q); q = k; k = NULL; } kvtree_bcast(q, 1, MPI_COMM_WORLD); }
  if (me != 0 || r == 1) {
    sx_check(kvtree_size(q) == n, "wrong number of elements");
    int o = me == 2 ? 1 : 1 - r;
    for (int i = 0; i < n; i++) { memset(key, 'a' + i % 26, l); key[l] = 0; key[0] = 'a' + i / 676; key[1] = 'a' + i / 26 % 26; key[2] = 'a' + o; sx_check(kvtree_get(q, key) != NULL, "missing element"); }
  }
  if (k) kvtree_delete(&k);
  kvtree_delete(&q);
}
void h_c13_large(void) { vm_mpi_run(2, large); sx_cover("done"); }
/* parameters: smallest and largest exponent: packed sizes next to every power of two */
static size_t xl; static char *xkey; static int xk;
static void exact(int r) {
  kvtree *k = kvtree_new(), *q = kvtree_new();
  xkey[0] = 'a'; kvtree_set(k, xkey, kvtree_new());
  if (xk == 0) { if (r == 0) kvtree_send(k, 1, MPI_COMM_WORLD); else kvtree_recv(q, 0, MPI_COMM_WORLD); }
  else if (xk == 1) kvtree_sendrecv(k, 1 - r, q, 1 - r, MPI_COMM_WORLD);
  else { if (r == 1) { kvtree_delete(&q); q = k; k = NULL; } kvtree_bcast(q, 1, MPI_COMM_WORLD); }
  if (xk != 0 || r == 1) {
    kvtree_elem *x = kvtree_elem_first(q);
    sx_check(kvtree_size(q) == 1 && strlen(kvtree_elem_key(x)) == xl && memcmp(kvtree_elem_key(x), xkey, xl) == 0 && kvtree_size(kvtree_elem_hash(x)) == 0, "the tree received is another");
  }
  if (k) kvtree_delete(&k);
  kvtree_delete(&q);
}
void h_c13_exact(void) {
  int e = (int)sx_param(0) + (int)sx_concrete(sx_choose("power of two", (unsigned)(sx_param(1) - sx_param(0) + 1)));
  xl = ((size_t)1 << e) + sx_concrete(sx_choose("offset", 3)) - 1 - 9;
  xk = (int)sx_concrete(sx_choose("kind", 3));
  xkey = sx_alloc(xl + 1);
  for (size_t i = 0; i < xl; i++) xkey[i] = (char)('a' + (i >> 3) % 25);
  xkey[xl] = 0;
  vm_mpi_run(2, exact);
  sx_cover("done");
}
/* a tree larger than a message may be ends the job with an error status, nothing is sent in part.
   parameters: kind, shared levels: 2^levels leaves of 1 MB each. The tree shares its subtrees, so it takes 1 MB only. */
static void refused(int code) {
  sx_check((code & 255) != 0, "the job ends with success although a tree does not fit into a message");
  sx_cover("refused");
  sx_done();
}
static kvtree *huge(int levels) {
  size_t n = (1u << 20) - 4; char *k = sx_alloc(n + 1);
  memset(k, 'k', n); k[n] = 0;
  kvtree *t = kvtree_new();
  kvtree_set(t, k, NULL);
  for (int i = 0; i < levels; i++) { kvtree *u = kvtree_new(); kvtree_set(u, "a", t); kvtree_set(u, "b", t); t = u; }
  return t;
}
static void over(int r) {
  kvtree *q = kvtree_new(); int big = r == src, rc;
  kvtree *k = big ? huge((int)sx_param(1)) : kvtree_new();
  vm_exit_allowed = 1; vm_exit_hook = refused;
  switch (sx_param(0)) {
  case 0: rc = big ? kvtree_send(k, 1 - src, MPI_COMM_WORLD) : kvtree_recv(q, src, MPI_COMM_WORLD); break;
  case 1: rc = kvtree_sendrecv(k, 1 - r, q, 1 - r, MPI_COMM_WORLD); break;
  default: rc = kvtree_bcast(big ? k : q, src, MPI_COMM_WORLD); break;
  }
  sx_check(rc != KVTREE_SUCCESS, "a tree that does not fit into a message is sent with success");
}
void h_c13_oversize(void) { src = (int)sx_concrete(sx_choose("rank", 2)); vm_mpi_run(2, over); }
/* parameters: ranks, nodes, depth, key: every division into groups, every group transfers among itself */
static int dist, symw;
static void split_rank(int w) {
  int g = vm_group[w], n = gsize(N, g), me = vm_group_rank[w];
  for (int b = 0; b < n; b++) {
    int from = gworld(N, g, b);
    kvtree *k = me == b ? own(w) : kv_of(prior[w]);
    sx_check(kvtree_bcast(k, b, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_bcast fails");
    if (me == b) unchanged(k, w); else sx_check(kv_is(k, sent(from)), "the tree received by broadcast differs from the root's");
    kvtree_delete(&k);
  }
  kvtree *k = own(w), *q = kv_of(prior[w]);
  int d = dist % n, from = gworld(N, g, (me + n - d) % n);
  sx_check(kvtree_sendrecv(k, (me + d) % n, q, (me + n - d) % n, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_sendrecv fails");
  sx_check(kv_is(q, sent(from)), "the received tree differs from the one sent");
  if (n > 1 && me == n - 1) sx_check(kvtree_send(k, 0, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_send fails");
  if (n > 1 && me == 0) {
    sx_check(kvtree_recv(q, n - 1, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_recv fails");
    sx_check(kv_is(q, sent(gworld(N, g, n - 1))), "the received tree differs from the one sent");
  }
  unchanged(k, w);
  kvtree_delete(&k); kvtree_delete(&q);
}
void h_c13_split(void) {
  N = (int)sx_param(0);
  int ng = split(N);
  dist = (int)sx_concrete(sx_choose("distance", N));
  symw = (int)sx_concrete(sx_choose("rank with the arbitrary tree", N));
  trees(N, symw, (int)sx_param(1), (int)sx_param(2), (int)sx_param(3));
  vm_mpi_run(N, split_rank);
  sx_cover(ng == 1 ? "one group" : "several groups");
}
