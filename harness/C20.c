/* C20: permissions of created files follow the umask, which is preserved. */
#include "h.h"
#define PATH "/d/file"
static mode_t m0;
static void any_umask(void) { m0 = (mode_t)sx_sym("umask", 9); vm_umask_val = m0; }
static void check_file(const char *p) {
  sx_check(vm_file_exists(p), "the file is not created");
  sx_check(vm_file_mode(p) == (0666 & ~m0), "a created file has other permissions than the umask allows");
}
static void check_umask(void) { sx_check(vm_umask_val == m0, "the process umask is changed"); }
void h_c20_getmode(void) {
  any_umask();
  int r = (int)sx_sym("read", 32), w = (int)sx_sym("write", 32), x = (int)sx_sym("execute", 32);
  mode_t m = kvtree_getmode(r, w, x);
  mode_t e = ((r != 0) * 0444u | (w != 0) * 0222u | (x != 0) * 0111u) & ~m0;
  sx_check(m == e, "kvtree_getmode differs from the requested bits without the masked ones");
  check_umask();
  any_umask();                       /* another umask and other arguments later in the same process */
  int r2 = (int)sx_sym("read", 32), w2 = (int)sx_sym("write", 32), x2 = (int)sx_sym("execute", 32);
  sx_check(kvtree_getmode(r2, w2, x2) == (((r2 != 0) * 0444u | (w2 != 0) * 0222u | (x2 != 0) * 0111u) & ~m0), "second call: kvtree_getmode differs from the requested bits without the masked ones");
  check_umask();
  sx_cover("done");
}
static void file_op(int op);
/* parameters: operation; every umask */
void h_c20_file(void) {
  int op = (int)sx_param(0);
  if (sx_param(1)) { vm_faults = VM_OPEN | VM_OPEN_P | VM_LOCK | VM_WRITE_ERR_P | VM_READ_ERR_P | VM_CLOSE | VM_FSYNC | VM_UNLOCK | VM_TRUNC; vm_fault_budget = (int)sx_param(1); }
  file_op(op);
  if (!sx_param(1)) { vm_file_remove(PATH); file_op(op); }
}
static void file_op(int op) {
  any_umask();
  kvtree *k = kv_of(tree_no(2)), *r = kvtree_new();
  int fd = -1, ok = 0;
  switch (op) {
  case 0: ok = kvtree_write_file(PATH, k) == KVTREE_SUCCESS; break;
  case 1: ok = kvtree_write_with_lock(PATH, k) == KVTREE_SUCCESS; break;
  case 2: kvtree_read_with_lock(PATH, r); ok = !vm_faults_injected; break;
  case 3: ok = kvtree_lock_open_read(PATH, &fd, r) == KVTREE_SUCCESS; check_umask(); kvtree_write_close_unlock(PATH, &fd, k); break;
  case 4: fd = kvtree_open(PATH, O_RDWR | O_CREAT, kvtree_getmode(1, 1, 0)); ok = fd >= 0; if (ok) kvtree_close(PATH, fd); break;
  default: fd = kvtree_open_with_lock(PATH, O_RDWR | O_CREAT, kvtree_getmode(1, 1, 0), 1); ok = fd >= 0; if (ok) kvtree_close_with_unlock(PATH, fd); break;
  }
  check_umask();
  if (ok || vm_file_exists(PATH)) { check_file(PATH); sx_cover("created"); } else sx_cover("not created");
  for (int i = 0; i < vm_file_count(); i++) check_file(vm_file_name(i));
  /* an existing file keeps its permissions */
  if (op < 4 && !sx_param(1)) {
    vm_file_set(PATH, NULL, 0, 0640);
    switch (op) {
    case 0: kvtree_write_file(PATH, k); break;
    case 1: kvtree_write_with_lock(PATH, k); break;
    case 2: kvtree_read_with_lock(PATH, r); break;
    default: fd = -1; if (kvtree_lock_open_read(PATH, &fd, r) == KVTREE_SUCCESS) kvtree_write_close_unlock(PATH, &fd, k); break;
    }
    sx_check(vm_file_mode(PATH) == 0640, "the permissions of an existing file are changed");
    check_umask();
  }
}
/* parameters: ranks, entries per file; files of the serial gather writer */
void h_c20_gather(void) {
  any_umask();
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = sx_param(1) == 1 ? "1" : "2";
  kvtree *t = kvtree_new();
  for (int i = 0; i < sx_param(0); i++) kvtree_merge(kvtree_setf(t, NULL, "%d", i), kv_of(tree_no(1)));
  sx_check(kvtree_write_to_gather("/d/pre", t, (int)sx_param(0)) == KVTREE_SUCCESS, "kvtree_write_to_gather fails");
  check_umask();
  sx_check(vm_file_count() >= 2, "no part file");
  for (int i = 0; i < vm_file_count(); i++) check_file(vm_file_name(i));
  kvtree *r = kvtree_new();
  kvtree_read_scatter_single("/d/pre", r);
  check_umask();
  sx_cover("done");
}
static void rank_main(int r) {
  kvtree *k = kv_of(tree_no(r + 1)), *q = kvtree_new();
  sx_check(kvtree_write_gather("/d/pre", k, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_write_gather fails");
  check_umask();
  sx_check(kvtree_read_scatter("/d/pre", q, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_read_scatter fails");
  check_umask();
  kvtree_delete(&k); kvtree_delete(&q);
}
extern unsigned long vm_segsize;
void h_c20_mpi(void) {
  if (sx_param(1)) vm_segsize = sx_param(1);
  any_umask();
  vm_mpi_run((int)sx_param(0), rank_main);
  check_umask();
  sx_check(vm_file_count() >= 2, "no part file");
  for (int i = 0; i < vm_file_count(); i++) check_file(vm_file_name(i));
  sx_cover("done");
}
