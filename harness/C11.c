/* C11: a crash during a write never yields a partial or mixed tree; success means synced. */
#include "h.h"
#define PATH "/d/file"
static unsigned char buf[4096];
static int W, status = -1;
static rt *T, *O;
static kvtree *K;
static void writer(void *a) {
  int fd = -1, rc = KVTREE_SUCCESS;
  kvtree *r;
  switch (W) {
  case 0: rc = kvtree_write_file(PATH, K); break;
  case 1: rc = kvtree_write_with_lock(PATH, K); break;
  default:
    r = kvtree_new();
    rc = kvtree_lock_open_read(PATH, &fd, r);
    if (rc == KVTREE_SUCCESS) rc = kvtree_write_close_unlock(PATH, &fd, K);
    kvtree_delete(&r);
  }
  if (rc == KVTREE_SUCCESS) sx_check(vm_file_synced(PATH), "success is reported although the bytes are not flushed to stable storage");
  status = rc == KVTREE_SUCCESS;
}
static void later_read(const rt *g) {
  static const char *what = "after a crash the file reads as a partial or mixed tree";
  for (int q = 0; q < 4; q++) {
    kvtree *k = kv_of(g);
    rt *en = rt_copy(g), *eo = rt_copy(g); rt_merge(en, T); if (O) rt_merge(eo, O);
    int fd = -1, ok;
    if (q == 0) ok = kvtree_read_file(PATH, k) == KVTREE_SUCCESS;
    else if (q == 1) ok = kvtree_read_with_lock(PATH, k) == KVTREE_SUCCESS;
    else if (q == 2) { ok = kvtree_lock_open_read(PATH, &fd, k) == KVTREE_SUCCESS; if (ok) kvtree_close_with_unlock(PATH, fd); }
    else { fd = open(PATH, O_RDONLY); ok = fd >= 0 && kvtree_read_fd(PATH, fd, k) >= 0; if (fd >= 0) close(fd); }
    if (!ok) { sx_check(kv_is(k, g), "a failed read adds something"); sx_cover("read fails"); }
    else {
      int n = kv_is(k, en), o = kv_is(k, eo), e = kv_is(k, g);
      sx_check(n | o | e, what);
      if (n) sx_cover("new tree"); else if (o) sx_cover("previous tree"); else sx_cover("no entries");
    }
    if (status == 1 && !vm_crashed) sx_check(ok && kv_is(k, en), "a completed write does not read back");
    kvtree_delete(&k);
  }
}
static void run(int faults, int budget) {
  K = kv_of(T);
  if (O) { size_t n = ref_image(buf, O); vm_file_set(PATH, buf, n, 0644); }
  vm_crash_armed = 1; vm_faults = faults; vm_fault_budget = budget;
  vm_spawn(writer, NULL);
  vm_join_all();
  vm_crash_armed = 0; vm_faults = 0;
  sx_check(vm_locks_held() == 0, "a lock is held after the process ended");
  if (!vm_crashed) sx_cover("no crash"); else sx_cover("crash");
}
/* parameters: writer, new tree, old tree (-1 none, -2 empty file), faults, budget: every crash point */
void h_c11_fixed(void) {
  W = (int)sx_param(0);
  T = tree_no((int)sx_param(1));
  if (sx_param(2) >= 0) O = tree_no((int)sx_param(2)); else if (sx_param(2) == -2) vm_file_set(PATH, NULL, 0, 0644);
  run((int)sx_param(3), (int)sx_param(4));
  later_read(tree_no(sx_concrete(sx_choose("target", 2))));
}
/* two writes one after the other, the second (or first) crashes */
static int second;
static void two(void *a) { writer(a); T = tree_no(second); K = kv_of(T); O = tree_no((int)sx_param(1)); status = -1; writer(a); }
void h_c11_two(void) {
  W = (int)sx_param(0);
  T = tree_no((int)sx_param(1)); second = (int)sx_param(2);
  K = kv_of(T);
  vm_crash_armed = 1;
  vm_spawn(two, NULL);
  vm_join_all();
  vm_crash_armed = 0;
  later_read(tree_no(0));
  sx_cover(vm_crashed ? "crash" : "no crash");
}
/* parameters: writer, key length: old and new tree of the same shape, arbitrary keys (they differ in at most 4 bytes, which the CRC tells apart for sure) */
void h_c11_sym(void) {
  W = (int)sx_param(0);
  int n = (int)sx_param(1);
  T = rt_new(); O = rt_new();
  leaf(rt_put(T, sym_str(n, "new"), rt_new()), "v"); leaf(rt_put(O, sym_str(n, "old"), rt_new()), "v");
  run(0, 0);
  later_read(rt_new());
}
/* parameters: nodes, depth, key length: truncating writer, arbitrary new tree */
void h_c11_trunc(void) {
  W = 0;
  sym_nodes = (int)sx_param(0); sym_nulls = 1;
  T = sym_tree((int)sx_param(1), 3, (int)sx_param(2));
  O = tree_no(2);
  run(0, 0);
  later_read(rt_new());
}
/* parameters: ranks, entries per file; gather writer: success means every file is flushed */
void h_c11_gather(void) {
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = sx_param(1) == 1 ? "1" : "2";
  kvtree *t = kvtree_new();
  for (int i = 0; i < sx_param(0); i++) kvtree_merge(kvtree_setf(t, NULL, "%d", i), kv_of(tree_no(1)));
  vm_faults = (unsigned)sx_param(2); vm_fault_budget = 1;
  if (kvtree_write_to_gather("/d/pre", t, (int)sx_param(0)) == KVTREE_SUCCESS) {
    sx_check(vm_file_count() >= 2, "no files");
    for (int i = 0; i < vm_file_count(); i++) sx_check(vm_file_synced(vm_file_name(i)), "success is reported although the bytes are not flushed to stable storage");
    sx_cover("done");
  }
}
static void rank_main(int r) {
  kvtree *k = kv_of(tree_no(r + 1));
  if (kvtree_write_gather("/d/pre", k, MPI_COMM_WORLD) == KVTREE_SUCCESS) {
    for (int i = 0; i < vm_file_count(); i++) sx_check(vm_file_synced(vm_file_name(i)), "success is reported although the bytes are not flushed to stable storage");
    sx_cover("done");
  }
  kvtree_delete(&k);
}
/* parameters: ranks, bytes per segment, faults */
extern unsigned long vm_segsize;
void h_c11_mpi(void) { if (sx_param(1)) vm_segsize = sx_param(1); vm_faults = (unsigned)sx_param(2); vm_fault_budget = 1; vm_intr_errno = EINTR; vm_mpi_run((int)sx_param(0), rank_main); sx_check(sx_param(2) || vm_file_count() >= 2, "no files"); }
