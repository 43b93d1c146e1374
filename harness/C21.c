/* C21: NULL trees count as empty, NULL keys and elements as absent; file functions refuse NULL arguments. */
#include "mio.h"
/* an arbitrary tree or NULL, and its reference */
static rt *R;
static kvtree *tree(int nodes) {
  R = NULL;
  if (sx_concrete(sx_choose("NULL tree", 2))) return NULL;
  sym_nodes = nodes; sym_nulls = 1;
  R = sym_tree(2, 2, 1);
  return kv_of(R);
}
static void same(kvtree *t) { sx_check((t == NULL) == (R == NULL) && kv_is(t, R), "a NULL argument changes the tree"); }
#define NUL(x) sx_check((x) == NULL, #x " is not NULL")
#define OK(x) sx_check((x) == KVTREE_SUCCESS, #x " fails")
#define BAD(x) sx_check((x) == KVTREE_FAILURE, #x " does not fail")
/* the value of a set that does nothing stays with the caller */
static kvtree *theirs(void) { if (sx_concrete(sx_choose("NULL value", 2))) return NULL; kvtree *v = kvtree_new(); kvtree_set(v, "v", NULL); return v; }
static void kept(kvtree *v) { if (v) { sx_check(kvtree_size(v) == 1 && kvtree_elem_get(v, "v") != NULL, "the value of a set without effect is changed"); kvtree_delete(&v); } }
/* parameters: operation, nodes: a NULL tree with any key, or any tree with a NULL key */
#define NMAP 19
static void mapop(int op, kvtree *t) {
  char *k = t ? NULL : sym_key(2, "key"), *s = NULL; kvtree *v = NULL; int i = (int)sx_sym("integer", 32);
  if (op == 5 || op == 6 || op == 7) { s = sx_concrete(sx_choose("NULL value key", 2)) ? NULL : sym_key(1, "value"); if (t && s && sx_concrete(sx_choose("key", 2))) { k = s; s = NULL; } }
  if (op == 7 && t && k && rt_find(R, k) >= 0) sx_assume(rt_get(R, k) && rt_get(R, k)->n > 0);   /* removing nothing below an empty key also removes the key */
  switch (op) {
  case 0: v = theirs(); NUL(kvtree_set(t, k, v)); kept(v); break;
  case 1: NUL(kvtree_get(t, k)); break;
  case 2: NUL(kvtree_extract(t, k)); break;
  case 3: OK(kvtree_unset(t, k)); break;
  case 4: if (!t) { OK(kvtree_unset_all(t)); sx_check(kvtree_size(t) == 0, "a NULL tree is not empty"); OK(kvtree_delete(&t)); OK(kvtree_delete(NULL)); } break;
  case 5: NUL(kvtree_set_kv(t, k, s)); break;
  case 6: NUL(kvtree_get_kv(t, k, s)); break;
  case 7: OK(kvtree_unset_kv(t, k, s)); break;
  case 8: NUL(kvtree_set_kv_int(t, k, i)); break;
  case 9: NUL(kvtree_get_kv_int(t, k, i)); break;
  case 10: OK(kvtree_unset_kv_int(t, k, i)); break;
  case 11: NUL(kvtree_elem_get(t, k)); break;
  case 12: NUL(kvtree_elem_extract(t, k)); break;
  case 13: if (!t) NUL(kvtree_elem_extract_int(t, i)); break;
  case 14: NUL(kvtree_elem_extract_by_addr(t, NULL)); break;
  case 15: NUL(kvtree_get_val(t, k)); NUL(kvtree_elem_get_first_val(t, k)); break;
  case 16: v = theirs(); NUL(kvtree_setf(t, v, "%s", k)); kept(v); break;
  case 17: v = theirs(); NUL(kvtree_setf(t, v, "%s %d", k, i)); kept(v); break;
  default: NUL(kvtree_getf(t, "%s", k)); NUL(kvtree_getf(t, "%s %d", k, i)); if (!t) { NUL(kvtree_getf(t, "%d %s", i, k)); v = theirs(); NUL(kvtree_setf(t, v, "%d %s", i, k)); kept(v); } break;
  }
}
void h_c21_map(void) {
  kvtree *t = tree((int)sx_param(1));
  int op = (int)sx_param(0);
  mapop(op, t);
  same(t);
  sx_cover(t ? "NULL key" : "NULL tree");
}
/* iteration, listing, sorting, merging, packing */
void h_c21_walk(void) {
  kvtree *t = tree((int)sx_param(0)); int n = 5, *l = (int *)&n;
  if (!t) {
    NUL(kvtree_elem_first(t)); sx_check(kvtree_size(t) == 0, "a NULL tree is not empty");
    OK(kvtree_sort(t, sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING));
    OK(kvtree_sort_int(t, sx_concrete(sx_choose("order", 2)) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING));
    OK(kvtree_list_int(t, &n, &l)); sx_check(n == 0 && l == NULL, "the list of a NULL tree is not empty");
    char *b = sx_alloc(4); memset(b, 7, 4);
    sx_check(kvtree_pack_size(t) == 4, "a NULL tree does not pack like an empty one");
    sx_check(kvtree_pack(b, t) == 4 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 0, "a NULL tree does not pack like an empty one");
    vm_capture = 1; OK(kvtree_print(t, 0)); OK(kvtree_log(t, 1, 0)); vm_capture = 0;
  }
  NUL(kvtree_elem_next(NULL)); NUL(kvtree_elem_key(NULL)); NUL(kvtree_elem_hash(NULL)); sx_check(kvtree_elem_key_int(NULL) == 0, "the number of a NULL element is not zero");
  kvtree_elem none; memset(&none, 0, sizeof none); sx_check(kvtree_elem_key_int(&none) == 0, "the number of an element without a key is not zero");
  OK(kvtree_merge(t ? t : kvtree_new(), NULL)); same(t);
  if (t) BAD(kvtree_merge(NULL, t)); else kvtree_merge(NULL, NULL);
  same(t);
  /* a NULL buffer or a NULL tree: nothing is unpacked, nothing packed */
  char *b = sx_alloc(kvtree_pack_size(t)); kvtree_pack(b, t);
  sx_check(kvtree_unpack(b, NULL) == 0, "unpacking into a NULL tree consumes bytes");
  same(t);
  void *p = &n; size_t z = 77;
  if (t) BAD(kvtree_write_persist(NULL, &z, t)); else { BAD(kvtree_write_persist(&p, &z, t)); sx_check(p == &n && z == 77, "a refused kvtree_write_persist changes its outputs"); BAD(kvtree_write_persist(NULL, &z, t)); }
  same(t);
  sx_cover(t ? "tree" : "NULL tree");
}
/* fields: a NULL tree with any key, any tree with a NULL key */
void h_c21_field(void) {
  kvtree *t = tree((int)sx_param(0)); char *k = t ? NULL : sym_key(2, "key");
  unsigned long ul = 77; uLong c = 77; int i = 77; char *s = (char *)&i; int64_t q = 77; double d = 7.5; void *p = &i;
  kvtree_util_set_bytecount(t, k, 1); same(t); kvtree_util_set_crc32(t, k, 1); same(t); kvtree_util_set_int(t, k, 1); same(t); kvtree_util_set_unsigned_long(t, k, 1); same(t);
  kvtree_util_set_str(t, k, "x"); same(t); kvtree_util_set_int64(t, k, 1); same(t); kvtree_util_set_double(t, k, 1); same(t); kvtree_util_set_ptr(t, k, &i); same(t);
  BAD(kvtree_util_get_bytecount(t, k, &ul)); BAD(kvtree_util_get_crc32(t, k, &c)); BAD(kvtree_util_get_int(t, k, &i)); sx_check(ul == 77, "a failed read changes its output"); BAD(kvtree_util_get_unsigned_long(t, k, &ul));
  BAD(kvtree_util_get_str(t, k, &s)); BAD(kvtree_util_get_int64(t, k, &q)); BAD(kvtree_util_get_double(t, k, &d)); BAD(kvtree_util_get_ptr(t, k, &p));
  sx_check(ul == 77 && c == 77 && i == 77 && s == (char *)&i && q == 77 && d == 7.5 && p == &i, "a failed read changes its output");
  same(t);
  sx_cover(t ? "NULL key" : "NULL tree");
}
/* files: NULL names, trees, descriptors */
#define PATH "/d/file"
static unsigned char img[400]; static size_t imgn;
static int before;
static void untouched(kvtree *t) {
  sx_check(vm_file_count() == before, "a refused call creates or removes a file");
  sx_check((int)vm_file_exists(PATH) == (imgn > 0), "a refused call creates or removes the file");
  if (imgn) sx_check(vm_file_size(PATH) == imgn && memcmp(vm_file_data(PATH), img, imgn) == 0, "a refused call changes the file");
  sx_check(vm_open_fds() == 0, "a refused call leaves the file open"); sx_check(vm_locks_held() == 0, "a refused call leaves the file locked");
  same(t);
}
/* parameters: operation, the file exists */
#define NFILE 20
static void fileop(int op, kvtree *t) {
  int fd = -1, neg = -(int)sx_concrete(sx_choose("negative descriptor", 3)) - 1;
  switch (op) {
  case 0: BAD(kvtree_write_file(NULL, t)); break;
  case 1: if (!t) BAD(kvtree_write_file(PATH, t)); break;
  case 2: BAD(kvtree_read_file(NULL, t)); break;
  case 3: if (!t) BAD(kvtree_read_file(PATH, t)); break;
  case 4: BAD(kvtree_write_with_lock(NULL, t)); break;
  case 5: if (!t) BAD(kvtree_write_with_lock(PATH, t)); break;
  case 6: BAD(kvtree_read_with_lock(NULL, t)); break;
  case 7: if (!t) BAD(kvtree_read_with_lock(PATH, t)); break;
  case 8: fd = 77; BAD(kvtree_lock_open_read(NULL, &fd, t)); sx_check(fd < 0, "a refused kvtree_lock_open_read returns a descriptor"); break;
  case 9: if (!t) { fd = 77; BAD(kvtree_lock_open_read(PATH, &fd, t)); sx_check(fd < 0, "a refused kvtree_lock_open_read returns a descriptor"); } break;
  case 10: BAD(kvtree_lock_open_read(PATH, NULL, t)); break;
  case 11: fd = neg; BAD(kvtree_write_close_unlock(PATH, &fd, t)); break;
  case 12: BAD(kvtree_write_close_unlock(PATH, NULL, t)); break;
  case 13: sx_check(kvtree_write_fd(PATH, neg, t) == -1, "kvtree_write_fd accepts an invalid descriptor"); break;
  case 14: sx_check(kvtree_read_fd(PATH, neg, t) == -1, "kvtree_read_fd accepts an invalid descriptor"); break;
  case 15: if ((fd = open(PATH, O_RDWR)) < 0) break; sx_check(kvtree_write_fd(NULL, fd, t) == -1, "kvtree_write_fd accepts a NULL name"); if (!t) sx_check(kvtree_write_fd(PATH, fd, t) == -1, "kvtree_write_fd accepts a NULL tree"); close(fd); break;
  case 16: if ((fd = open(PATH, O_RDWR)) < 0) break; sx_check(kvtree_read_fd(NULL, fd, t) == -1, "kvtree_read_fd accepts a NULL name"); if (!t) sx_check(kvtree_read_fd(PATH, fd, t) == -1, "kvtree_read_fd accepts a NULL tree"); close(fd); break;
  case 17: BAD(kvtree_write_to_gather(NULL, t, 1)); break;
  case 18: BAD(kvtree_read_scatter_single(NULL, t)); break;
  default: /* a NULL tree or name leaves the descriptor and its lock with the caller, who can still close it */
    if ((fd = kvtree_open_with_lock(PATH, O_RDWR, 0644, 1)) < 0) break;
    if (!t) BAD(kvtree_write_close_unlock(PATH, &fd, t)); else BAD(kvtree_write_close_unlock(NULL, &fd, t));
    if (fd >= 0) kvtree_close_with_unlock(PATH, fd);
    break;
  }
}
void h_c21_file(void) {
  imgn = 0; vm_dir_add("/d");
  if (sx_param(1)) { imgn = ref_image(img, tree_no(3)); vm_file_set(PATH, img, imgn, 0644); }
  kvtree *t = tree(1);
  before = vm_file_count();
  int op = (int)sx_param(0);
  fileop(op, t);
  untouched(t);
  sx_cover(t ? "tree" : "NULL tree");
}
/* descriptors that are not open */
void h_c21_closed(void) {
  imgn = ref_image(img, tree_no(3)); vm_file_set(PATH, img, imgn, 0644);
  kvtree *t = tree(1);
  before = vm_file_count();
  int fd = open(PATH, O_RDWR); close(fd);
  if (t) switch (sx_concrete(sx_choose("operation", 3))) {
  case 0: sx_check(kvtree_write_fd(PATH, fd, t) == -1, "kvtree_write_fd succeeds on a closed descriptor"); break;
  case 1: sx_check(kvtree_read_fd(PATH, fd, t) == -1, "kvtree_read_fd succeeds on a closed descriptor"); break;
  default: sx_check(kvtree_write_close_unlock(PATH, &fd, t) != KVTREE_SUCCESS, "kvtree_write_close_unlock succeeds on a closed descriptor"); break;
  }
  untouched(t);
  sx_cover(t ? "tree" : "NULL tree");
}
/* ---- ranks */
static int null_prefix_op; static rt *C[MAXN];
static void gather(int r) {
  kvtree *k = cls[r] == 0 ? NULL : kv_of(C[r]);
  if (null_prefix_op) BAD(kvtree_read_scatter(NULL, k, MPI_COMM_WORLD)); else BAD(kvtree_write_gather(NULL, k, MPI_COMM_WORLD));
  sx_check(kv_is(k, cls[r] ? C[r] : NULL), "a NULL prefix changes the tree");
}
/* parameters: ranks */
void h_c21_prefix(void) {
  N = (int)sx_param(0); vm_dir_add("/d");
  null_prefix_op = (int)sx_concrete(sx_choose("operation", 2));
  for (int r = 0; r < N; r++) { C[r] = tree_no(r + 1); cls[r] = (int)sx_concrete(sx_choose("NULL tree", 2)); }
  before = vm_file_count();
  vm_mpi_run(N, gather);
  sx_check(vm_file_count() == before, "a NULL prefix creates files");
  sx_check(vm_open_fds() == 0, "a NULL prefix leaves a file open");
  sx_cover(null_prefix_op ? "read" : "write");
}
/* messages: a rank without a tree to receive into, a rank sending NULL */
static int mode, who; static char *mk;
static void talk(int r) {
  kvtree *mine = r == who ? NULL : kvtree_new();
  if (mine) kvtree_set(mine, mk, kvtree_new());
  int next = (r + 1) % N, prev = (r + N - 1) % N, rc; kvtree *got;
  rt *full = rt_new(); leaf(full, mk);
  switch (mode) {
  case 0:                                                       /* the tree of rank 0 to all, one of them has nowhere to put it */
    rc = kvtree_bcast(mine, 0, MPI_COMM_WORLD);
    if (r != who) sx_check(rc == KVTREE_SUCCESS && kv_is(mine, who == 0 ? NULL : full), "a broadcast with a NULL tree delivers another tree");
    break;
  case 1:                                                       /* a NULL tree is sent as an empty one */
    got = kvtree_new(); kvtree_set(got, "old", NULL);
    OK(kvtree_sendrecv(mine, next, got, prev, MPI_COMM_WORLD));
    sx_check(kv_is(got, prev == who ? NULL : full), "a NULL tree is not received as an empty one");
    kvtree_delete(&got);
    break;
  case 2:                                                       /* nowhere to put it */
    got = r == who ? NULL : kvtree_new();
    rc = kvtree_sendrecv(r == who ? NULL : mine, next, got, prev, MPI_COMM_WORLD);
    if (got) sx_check(rc == KVTREE_SUCCESS && kv_is(got, prev == who ? NULL : full), "a NULL receiving tree changes what others receive");
    kvtree_delete(&got);
    break;
  case 3:
    BAD(kvtree_recv(NULL, MPI_PROC_NULL, MPI_COMM_WORLD));
    BAD(kvtree_exchange_sendq(NULL, 0, mine));
    OK(kvtree_send(NULL, MPI_PROC_NULL, MPI_COMM_WORLD));
    break;
  default:                                                      /* a NULL queue sends nothing, a NULL message is an empty one */
    got = kvtree_new();
    if (mine) { kvtree_unset_all(mine); OK(kvtree_exchange_sendq(mine, next, NULL)); }
    OK(kvtree_exchange(mine, got, MPI_COMM_WORLD));
    sx_check(kvtree_size(got) == (prev != who), "a NULL queue or message is exchanged as another one");
    if (prev != who) sx_check(kvtree_elem_key_int(kvtree_elem_first(got)) == prev && kvtree_size(kvtree_elem_hash(kvtree_elem_first(got))) == 0, "a NULL message does not arrive as an empty tree");
    kvtree_delete(&got);
    break;
  }
  kvtree_delete(&mine);
}
/* parameters: ranks, mode */
void h_c21_ranks(void) {
  N = (int)sx_param(0); mode = (int)sx_param(1);
  who = (int)sx_concrete(sx_choose("rank", (unsigned)N));
  mk = sym_str(1, "key"); sx_assume(mk[0] != 'o');
  vm_mpi_run(N, talk);
  sx_cover("done");
}
