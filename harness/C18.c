/* C18: every call releases its temporary memory and closes its descriptors; deleting the caller's trees releases the rest. */
#include "mio.h"
static long base;
static void start(void) { base = sx_live_allocs(); }
/* nothing but n blocks of the caller may be left */
static void gone(const char *what) { sx_check_live(base, what); sx_check(vm_open_fds() == 0, "a descriptor stays open"); sx_check(vm_locks_held() == 0, "a lock stays held"); }
static char *key(const char *name) { return sx_concrete(sx_choose("NULL key", 2)) ? NULL : sym_str(1, name); }
static kvtree *val(void) { kvtree *v = NULL; if (!sx_concrete(sx_choose("NULL value", 2))) { v = kvtree_new(); kvtree_set(v, "v", sx_concrete(sx_choose("leaf", 2)) ? NULL : kvtree_new()); } return v; }
static void give(kvtree *ret, kvtree *t, const char *k, kvtree *v) { if (!t || !k) { sx_check(ret == NULL, "setting nothing returns a tree"); kvtree_delete(&v); } }
/* a tree of at most n elements below, with subtrees that may be NULL */
static kvtree *some(int n) {
  if (sx_concrete(sx_choose("NULL tree", 2))) return NULL;
  kvtree *t = kvtree_new();
  for (int i = 0; i < n; i++) {
    if (!sx_concrete(sx_choose("another element", 2))) break;
    kvtree *v = NULL;
    switch (sx_concrete(sx_choose("subtree", 3))) { case 0: break; case 1: v = kvtree_new(); break; default: v = kvtree_new(); kvtree_set(v, sym_str(1, "key"), kvtree_new()); kvtree_set(v, sym_str(1, "key"), NULL); break; }
    kvtree_set(t, sym_str(1, "key"), v);
  }
  return t;
}
#define NMAP 18
static void mapop(int op, kvtree *t, kvtree *u) {
  kvtree_elem *e; kvtree *x, *v; char *k, *s;
  switch (op) {
  case 0: k = key("key"); v = val(); give(kvtree_set(t, k, v), t, k, v); break;
  case 1: kvtree_unset(t, key("key")); break;
  case 2: x = kvtree_extract(t, key("key")); kvtree_delete(&x); break;
  case 3: e = kvtree_elem_extract(t, key("key")); if (e) elem_free(e); break;
  case 4: kvtree_unset_all(t); if (t) sx_check(kvtree_size(t) == 0, "kvtree_unset_all leaves elements"); break;
  case 5: kvtree_merge(t, u); break;
  case 6: kvtree_merge(u, t); break;
  case 7: k = key("key"); s = key("value"); kvtree_set_kv(t, k, s); break;
  case 8: k = key("key"); s = key("value"); kvtree_unset_kv(t, k, s); break;
  case 9: kvtree_set_kv_int(t, key("key"), -7); break;
  case 10: kvtree_unset_kv_int(t, key("key"), -7); break;
  case 11: v = val(); x = kvtree_setf(t, v, "%s %d", sym_str(1, "key"), 3); if (!t) kvtree_delete(&v); break;
  case 12: v = val(); x = kvtree_setf(t, v, "%s", sym_str(1, "key")); if (!t) kvtree_delete(&v); break;
  case 13: kvtree_getf(t, "%s %d", sym_str(1, "key"), 3); break;
  case 14: e = kvtree_elem_extract_int(t, 3); if (e) elem_free(e); break;
  case 15: e = kvtree_elem_first(t); if (e) { e = kvtree_elem_next(e) && sx_concrete(sx_choose("second", 2)) ? kvtree_elem_next(e) : e; elem_free(kvtree_elem_extract_by_addr(t, e)); } break;
  case 16: kvtree_delete(NULL); x = NULL; kvtree_delete(&x); kvtree_get(t, key("key")); kvtree_elem_get(t, key("key")); kvtree_size(t); break;
  default: k = key("key"); kvtree_get_kv(t, k, "v"); kvtree_get_kv_int(t, k, 3); kvtree_get_val(t, k); kvtree_elem_get_first_val(t, k); break;
  }
}
/* parameters: operations, elements of the trees, first operation (-1: any) */
void h_c18_map(void) {
  int n = (int)sx_param(0), m = (int)sx_param(1);
  start();
  kvtree *t = some(m), *u = n > 1 ? NULL : some(m);
  for (int i = 0; i < n; i++) mapop(i == 0 && sx_param(2) >= 0 ? (int)sx_param(2) : (int)sx_concrete(sx_choose("operation", NMAP)), t, u);
  kvtree_delete(&t);
  sx_check(t == NULL, "kvtree_delete does not clear the pointer");
  kvtree_delete(&u);
  gone("memory is not released after operations on trees");
  sx_cover("done");
}
/* listing, sorting, packing, persisting, fields, printing */
#define NUTIL 17
static void utilop(int op, kvtree *t) {
  int *l, n, i; unsigned long ul; char *s, *k; void *p; size_t z; double d; int64_t q; uLong c; kvtree *x;
  k = op >= 6 && op < 15 ? key("key") : NULL;
  switch (op) {
  case 0: kvtree_sort(t, sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); break;
  case 1: kvtree_sort_int(t, sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); break;
  case 2: kvtree_list_int(t, &n, &l); sx_check(n > 0 || l == NULL, "an empty list is not NULL"); free(l); break;
  case 3: z = kvtree_pack_size(t); s = sx_alloc(z); kvtree_pack(s, t); x = kvtree_new(); kvtree_unpack(s, x); kvtree_delete(&x); break;
  case 4: p = NULL; if (kvtree_write_persist(&p, &z, t) == KVTREE_SUCCESS) free(p); else sx_check(p == NULL, "a failed kvtree_write_persist returns a buffer"); break;
  case 5: kvtree_print(t, 0); kvtree_print_mode(t, 2, KVTREE_PRINT_KEYVAL); kvtree_log(t, 1, 0); break;
  case 6: kvtree_util_set_bytecount(t, k, 9); kvtree_util_get_bytecount(t, k, &ul); break;
  case 7: kvtree_util_set_crc32(t, k, 9); kvtree_util_get_crc32(t, k, &c); break;
  case 8: kvtree_util_set_int(t, k, 9); kvtree_util_get_int(t, k, &i); break;
  case 9: kvtree_util_set_unsigned_long(t, k, 9); kvtree_util_get_unsigned_long(t, k, &ul); break;
  case 10: kvtree_util_set_str(t, k, key("value")); kvtree_util_get_str(t, k, &s); break;
  case 11: kvtree_util_set_int64(t, k, -9); kvtree_util_get_int64(t, k, &q); break;
  case 12: kvtree_util_set_double(t, k, 9.5); kvtree_util_get_double(t, k, &d); break;
  case 13: kvtree_util_set_ptr(t, k, t); kvtree_util_get_ptr(t, k, &p); break;
  case 14: kvtree_util_get_str(t, k, &s); kvtree_util_get_int64(t, k, &q); kvtree_util_get_ptr(t, k, &p); break;
  case 15: x = kvtree_new(); kvtree_set(x, "x", NULL); kvtree_exchange_sendq(x, 3, t); kvtree_exchange_sendq(x, 3, t); kvtree_delete(&x); break;
  default: { int fd = -1; mode_t m = kvtree_getmode(1, 1, 0); (void)m; kvtree_write_fd("f", fd, t); kvtree_read_fd("f", fd, t); kvtree_write_close_unlock("f", &fd, t); kvtree_write_close_unlock("f", NULL, t); kvtree_lock_open_read("f", NULL, t); } break;
  }
}
/* parameters: elements */
void h_c18_util(void) {
  start();
  kvtree *t = some((int)sx_param(0));
  utilop((int)sx_concrete(sx_choose("operation", NUTIL)), t);
  kvtree_delete(&t);
  gone("memory is not released after operations on a tree");
  sx_cover("done");
}
/* ---- files */
#define PATH "/d/file"
static unsigned char img[4096];
static void armed(int i) { vm_faults = (unsigned)sx_param(i); vm_fault_budget = (int)sx_param(i + 1); vm_intr_errno = EINTR; }
static int fileop(int op, kvtree *t) {
  int fd = -1, rc = 1, x; unsigned f;
  switch (op) {
  case 0: rc = kvtree_write_file(PATH, t); break;
  case 1: rc = kvtree_write_with_lock(PATH, t); break;
  case 2: rc = kvtree_read_file(PATH, t); break;
  case 3: rc = kvtree_read_with_lock(PATH, t); break;
  case 4: rc = kvtree_lock_open_read(PATH, &fd, t);
    if (rc != KVTREE_SUCCESS) { sx_check(vm_open_fds() == 0, "a failed kvtree_lock_open_read keeps the file open"); sx_check(vm_locks_held() == 0, "a failed kvtree_lock_open_read keeps the lock"); break; }
    sx_check(vm_open_fds() == 1 && vm_locks_held() == 1, "kvtree_lock_open_read holds more than the caller's descriptor");
    rc = kvtree_write_close_unlock(PATH, &fd, t); sx_check(fd < 0, "kvtree_write_close_unlock leaves the descriptor set"); break;
  case 5: rc = kvtree_lock_open_read(PATH, &fd, t); if (rc == KVTREE_SUCCESS) kvtree_close_with_unlock(PATH, fd); break;
  default: f = vm_faults; vm_faults = 0; fd = open(PATH, O_RDWR); vm_faults = f; if (fd < 0) break;
    x = vm_open_fds(); rc = op == 6 ? kvtree_read_fd(PATH, fd, t) < 0 : kvtree_write_fd(PATH, fd, t) < 0; sx_check(vm_open_fds() == x, "a descriptor is opened or closed");
    vm_faults = 0; close(fd); break;
  }
  return (int)sx_concrete(rc == KVTREE_SUCCESS);
}
/* parameters: operation, faults, budget, tree in the file */
void h_c18_file(void) {
  start();
  kvtree *t = kv_of(tree_no(4));
  if (sx_param(3) >= 0) vm_file_set(PATH, img, ref_image(img, tree_no((int)sx_param(3))), 0644);
  armed(1);
  int ok = fileop((int)sx_param(0), t);
  vm_faults = 0;
  kvtree_delete(&t);
  gone("memory is not released after a file operation");
  sx_cover(ok ? "success" : "failure");
}
/* parameters: operation: files with any one byte altered, cut anywhere, with or without a valid checksum, missing, unreadable or empty */
void h_c18_damaged(void) {
  start();
  kvtree *t = kv_of(tree_no(4));
  size_t n = ref_image(img, tree_no(3)), e = n;
  switch (sx_concrete(sx_choose("damage", 6))) {
  case 0: break;
  case 1: vm_file_set(PATH, img, n, 0644); vm_file_readable(PATH, 0); break;
  case 2: vm_file_set(PATH, "", 0, 0644); break;
  case 3: vm_file_set(PATH, img, sx_concrete(sx_choose("length", (unsigned)n)), 0644); break;
  case 4: sx_bytes(img + sx_concrete(sx_choose("position", (unsigned)n)), 1, "new byte"); vm_file_set(PATH, img, n, 0644); break;
  default: {                                                  /* altered, with a fitting checksum or none */
    sx_bytes(img + 20 + sx_concrete(sx_choose("position", (unsigned)(n - 24))), 1, "new byte");
    int crc = (int)sx_concrete(sx_choose("checksum", 2));
    e = sx_concrete(sx_choose("shorter", 2)) ? 24 + sx_concrete(sx_choose("length", (unsigned)(n - 24))) : n;
    put_be(img + 8, e, 8); put_be(img + 16, crc, 4);
    if (crc) put_be(img + e - 4, (uint32_t)sx_crc32(0, img, (unsigned)e - 4), 4);
    vm_file_set(PATH, img, e, 0644);
  } break;
  }
  int ok = fileop((int)sx_param(0), t);
  kvtree_delete(&t);
  gone("memory is not released after reading a damaged file");
  sx_cover(ok ? "success" : "failure");
}
/* parameters: operation: a file that claims any size */
void h_c18_size(void) {
  start();
  kvtree *t = kv_of(tree_no(4));
  size_t n = ref_image(img, tree_no(3));
  sx_bytes(img + 8, 8, "size field"); put_be(img + 16, sx_concrete(sx_choose("checksum", 2)), 4);
  vm_file_set(PATH, img, n, 0644);
  fileop((int)sx_param(0), t);
  kvtree_delete(&t);
  gone("memory is not released after reading a file with a wrong size field");
  sx_cover("done");
}
/* ---- sets of files */
static const char *PRE = "/d/set";
static int oks[MAXN];
static void make(int per) { kvtree *t = kvtree_new(); for (int r = N - 1; r >= 0; r--) kvtree_set(t, num(r), rank_kv(r)); vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = rt_dup(num(per)); oks[0] = kvtree_write_to_gather(PRE, t, N) == KVTREE_SUCCESS; kvtree_delete(&t); }
static void writer(int r) { kvtree *k = rank_kv(r); oks[r] = kvtree_write_gather(PRE, k, MPI_COMM_WORLD) == KVTREE_SUCCESS; kvtree_delete(&k); }
static void reader(int r) { kvtree *k = kv_of(tree_no(2)); oks[r] = kvtree_read_scatter(PRE, k, MPI_COMM_WORLD) == KVTREE_SUCCESS; kvtree_delete(&k); }
static void single(void) { kvtree *k = kv_of(tree_no(2)); oks[0] = kvtree_read_scatter_single(PRE, k) == KVTREE_SUCCESS; kvtree_delete(&k); }
static void setop(int op) {
  switch (op) {
  case 0: make(1); break;
  case 1: make(2); break;
  case 2: single(); break;
  case 3: vm_mpi_run(N, writer); break;
  default: vm_mpi_run(N, reader); break;
  }
}
/* parameters: operation, ranks, faults, budget, size class of the trees (5: several files) */
void h_c18_set(void) {
  segsize(5);
  N = (int)sx_param(1);
  for (int r = 0; r < N; r++) cls[r] = (int)sx_param(4);
  int op = (int)sx_param(0);
  if (op == 2) make(1);
  if (op == 4) vm_mpi_run(N, writer);
  start();
  armed(2);
  setop(op);
  vm_faults = 0;
  gone("memory is not released after an operation on a set of files");
  sx_cover(oks[0] ? "success" : "failure");
}
/* parameters: operation (2, 4), ranks, levels of hand-made sets: any file missing, cut, without one of its fields or with a wrong one */
static void levels(int lv, int victim, int how) {
  int count = 0;
  for (int l = 0; l <= lv; l++) for (int g = 0; g < (l == lv ? 1 : N); g++, count++) {
    int hit = count == victim, bad = hit && how >= 2;
    rt *t = rt_new(), *rk;
    if (!(bad && how == 2)) leaf(rt_put(t, "LEVEL", rt_new()), bad && how == 3 ? "5" : num(l));
    if (!(bad && how == 4)) leaf(rt_put(t, "RANKS", rt_new()), num(bad && how == 5 ? N + 1 : N));
    if (!(bad && how == 6)) {
      rk = rt_put(t, "RANK", rt_new());
      for (int r = l == lv ? 0 : g; r < (l == lv ? N : g + 1); r++) {
        if (l == 0) { rt_put(rk, num(r), rank_tree(r)); continue; }
        rt *x = rt_put(rk, num(r), rt_new()); char b[40];
        snprintf(b, sizeof b, ".%d.%d", l - 1, r);
        if (!(bad && how == 7)) leaf(rt_put(x, "FILE", rt_new()), b);
        if (!(bad && how == 8)) leaf(rt_put(x, "OFFSET", rt_new()), "0");
      }
    }
    char b[40], p[80]; snprintf(b, sizeof b, ".%d.%d", l, g); snprintf(p, sizeof p, "%s%s", PRE, l == lv ? "" : b);
    if (hit && how == 0) continue;
    put_tree(PRE, l == lv ? "" : b, t);
    if (hit && how == 1) vm_file_truncate(p, vm_file_size(p) / 2);
  }
}
void h_c18_levels(void) {
  N = (int)sx_param(1);
  int lv = (int)sx_param(2);
  for (int r = 0; r < N; r++) cls[r] = 2;
  int file = (int)sx_concrete(sx_choose("file", (unsigned)(lv * N + 1))), how = (int)sx_concrete(sx_choose("damage", 9));
  levels(lv, file, how);
  start();
  setop((int)sx_param(0));
  gone("memory is not released after reading a damaged set of files");
  sx_cover(oks[0] ? "success" : "failure");
}
/* ---- transfers */
static int from, to;
static void moves(int r) {
  int nul = (int)sx_param(1);
  kvtree *k = nul ? NULL : kv_of(tree_no(r + 2)), *q = kv_of(tree_no(3)), *s = kvtree_new(), *o = kvtree_new();
  if (r == from && r != to) kvtree_send(k, to, MPI_COMM_WORLD);
  if (r == to && r != from) kvtree_recv(q, from, MPI_COMM_WORLD);
  kvtree_sendrecv(k, (r + from) % N, q, (r + N - from) % N, MPI_COMM_WORLD);
  kvtree_sendrecv(k, r == from ? to : MPI_PROC_NULL, q, r == to ? from : MPI_PROC_NULL, MPI_COMM_WORLD);
  kvtree_send(k, MPI_PROC_NULL, MPI_COMM_WORLD); kvtree_recv(q, MPI_PROC_NULL, MPI_COMM_WORLD); kvtree_recv(NULL, MPI_PROC_NULL, MPI_COMM_WORLD);
  kvtree_bcast(q, from, MPI_COMM_WORLD);
  kvtree_exchange_sendq(s, to, k); kvtree_exchange_sendq(s, (to + r) % N, q);
  kvtree_exchange(s, o, MPI_COMM_WORLD);
  kvtree_delete(&o); o = kvtree_new();
  kvtree_exchange_direction(s, o, MPI_COMM_WORLD, r >= 0 && sx_param(2) ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
  kvtree_delete(&k); kvtree_delete(&q); kvtree_delete(&s); kvtree_delete(&o);
}
/* parameters: ranks, 1: NULL trees, direction */
void h_c18_mpi(void) {
  N = (int)sx_param(0);
  from = (int)sx_concrete(sx_choose("from", N)); to = (int)sx_concrete(sx_choose("to", N));
  start();
  vm_mpi_run(N, moves);
  gone("memory is not released after transfers");
  sx_cover("done");
}
