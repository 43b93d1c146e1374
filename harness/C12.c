/* C12: locking readers, writers and read-modify-write pairs are serializable; locks are released. */
#include "h.h"
#define PATH "/d/file"
#define MAXOP 8
static unsigned char buf[4096];
/* what happened: operation, tree seen, tree written */
static struct { int kind, proc; rt *seen, *put; } ev[MAXOP];
static int nev, nproc, prog[4][2], proglen[4];
static rt *start;
static const char *own(int p, int i) { static char n[8][3]; int k = p * 2 + i; n[k][0] = 'p' ; n[k][1] = '0' + k; n[k][2] = 0; return n[k]; }
static void proc_main(void *a) {
  int p = (int)(long)a;
  for (int i = 0; i < proglen[p]; i++) {
    int k = prog[p][i], me = nev++;
    ev[me].kind = k; ev[me].proc = p; ev[me].seen = ev[me].put = NULL;
    kvtree *t = kvtree_new();
    int fd = -1;
    if (k == 0) {
      sx_check(kvtree_read_with_lock(PATH, t) == KVTREE_SUCCESS, "kvtree_read_with_lock fails although the file always holds a complete tree");
      ev[me].seen = rt_of(t);
    } else if (k == 1) {
      kvtree_set(kvtree_set(t, own(p, i), kvtree_new()), "written", kvtree_new());
      if (p & 1) kvtree_set(t, "longer than the others", kvtree_new());
      ev[me].put = rt_of(t);
      sx_check(kvtree_write_with_lock(PATH, t) == KVTREE_SUCCESS, "kvtree_write_with_lock fails");
    } else {
      sx_check(kvtree_lock_open_read(PATH, &fd, t) == KVTREE_SUCCESS, "kvtree_lock_open_read fails although the file always holds a complete tree");
      sx_check(fd >= 0 && vm_lock_kind(fd) == 2, "kvtree_lock_open_read returns without the exclusive lock");
      ev[me].seen = rt_of(t);
      kvtree_set(t, own(p, i), kvtree_new());
      if ((p & 1) == 0) { kvtree_unset(t, "longer than the others"); kvtree_unset(t, "old"); }     /* some updates make the file shorter */
      ev[me].put = rt_of(t);
      vm_yield_point("schedule between open and close");
      sx_check(vm_lock_kind(fd) == 2, "the exclusive lock is lost between kvtree_lock_open_read and kvtree_write_close_unlock");
      int f0 = fd;
      sx_check(kvtree_write_close_unlock(PATH, &fd, t) == KVTREE_SUCCESS, "kvtree_write_close_unlock fails");
      sx_check(fd == -1 && vm_lock_kind(f0) == 0, "kvtree_write_close_unlock leaves the lock held");
    }
    kvtree_delete(&t);
  }
}
/* is there an order of the operations (program order kept) that explains everything? */
static int explain(unsigned done, const rt *s, const rt *fin) {
  int all = 1;
  for (int i = 0; i < nev; i++) if (!(done >> i & 1)) {
    all = 0;
    int first = 1;
    for (int j = 0; j < i; j++) if (!(done >> j & 1) && ev[j].proc == ev[i].proc) first = 0;
    if (!first) continue;
    if (ev[i].seen && !rt_eq(ev[i].seen, s)) continue;
    if (explain(done | 1u << i, ev[i].put ? ev[i].put : s, fin)) return 1;
  }
  return all && rt_eq(s, fin);
}
static void finish(void) {
  vm_require_locks = 0;
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_check(vm_locks_held() == 0, "a lock stays held");
  kvtree *t = kvtree_new();
  sx_check(kvtree_read_file(PATH, t) == KVTREE_SUCCESS, "the final file cannot be read");
  sx_check(explain(0, start, rt_of(t)), "no sequential order of the operations explains what was read and what the file holds");
}
static void begin(int content) {
  start = rt_new();
  if (content == 1) vm_file_set(PATH, NULL, 0, 0644);
  if (content >= 2) { start = content == 2 ? tree_no(1) : rt_new(); if (content == 3) { leaf(start, "old"); leaf(start, "longer than the others"); } size_t n = ref_image(buf, start); vm_file_set(PATH, buf, n, 0644); }
  vm_require_locks = 1; vm_sched_choose = 1;
}
/* parameters: processes, operations each, preemptions, faults, fault budget: every combination of operations and every schedule */
void h_c12_mix(void) {
  nproc = (int)sx_param(0);
  int len = (int)sx_param(1);
  begin((int)sx_concrete(sx_choose("previous content", 4)));
  for (int p = 0; p < nproc; p++) {
    proglen[p] = len;
    for (int i = 0; i < len; i++) prog[p][i] = (int)sx_concrete(sx_choose("operation: read, write, read-modify-write", 3));
  }
  vm_preempt_budget = (int)sx_param(2);
  vm_faults = (unsigned)sx_param(3); vm_fault_budget = (int)sx_param(4);
  for (int p = 0; p < nproc; p++) vm_spawn(proc_main, (void *)(long)p);
  vm_join_all();
  finish();
  sx_cover(start->n ? "tree before" : "nothing before");
  if (vm_preempt_budget == 0) sx_cover("all preemptions used");
}
/* readers do not wait for each other */
static volatile int hold, release_;
static void holder(void *a) {
  int fd = kvtree_open_with_lock(PATH, O_RDWR | O_CREAT, 0644, 0);
  sx_check(fd >= 0 && vm_lock_kind(fd) == 1, "kvtree_open_with_lock does not give the shared lock");
  hold = 1;
  vm_block_on(&release_);
  sx_check(vm_lock_kind(fd) == 1, "the shared lock is lost");
  sx_check(kvtree_close_with_unlock(PATH, fd) == KVTREE_SUCCESS, "kvtree_close_with_unlock fails");
}
static void reader(void *a) {
  kvtree *t = kvtree_new();
  vm_block_on(&hold);
  sx_check(kvtree_read_with_lock(PATH, t) == KVTREE_SUCCESS, "kvtree_read_with_lock fails");
  sx_check(kv_is(t, start), "wrong tree");
  kvtree_delete(&t);
  release_ = 1;
}
void h_c12_readers(void) {
  begin((int)sx_concrete(sx_choose("previous content", 4)));
  vm_preempt_budget = 3;
  vm_spawn(holder, NULL); vm_spawn(reader, NULL);
  vm_join_all();
  sx_cover("done");
}
/* a reader waits for a writer and the other way round; the lock kinds of kvtree_open_with_lock exclude each other */
static int inside[3], cur[2];
static void locker(void *a) {
  int w = (int)(long)a;
  int fd = kvtree_open_with_lock(PATH, O_RDWR | O_CREAT, 0644, w ? (int)sx_param(0) : 0);
  sx_check(fd >= 0, "kvtree_open_with_lock fails");
  cur[w]++;
  sx_check(cur[1] == 0 || (cur[1] == 1 && cur[0] == 0), "two processes hold locks that exclude each other");
  vm_yield_point("inside");
  vm_yield_point("inside");
  sx_check(vm_lock_kind(fd) == (w ? 2 : 1), "wrong kind of lock");
  cur[w]--;
  sx_check(kvtree_close_with_unlock(PATH, fd) == KVTREE_SUCCESS, "kvtree_close_with_unlock fails");
}
void h_c12_lock(void) {
  vm_sched_choose = 1; vm_preempt_budget = (int)sx_param(1);
  int n = 3;
  for (int i = 0; i < n; i++) vm_spawn(locker, (void *)(long)sx_concrete(sx_choose("write", 2)));
  vm_join_all();
  sx_check(vm_locks_held() == 0 && vm_open_fds() == 0, "a lock or descriptor stays open");
  sx_cover("done");
}
/* parameters: operation, faults, budget, 1: another process may inherit the descriptors: no lock stays held whatever fails */
void h_c12_release(void) {
  int op = (int)sx_param(0), fd = -1, rc;
  begin((int)sx_concrete(sx_choose("previous content", 4)));
  kvtree *t = kv_of(tree_no(2)), *r = kvtree_new();
  if (sx_concrete(sx_choose("damaged", 2))) vm_file_set(PATH, "damaged", 7, 0644);
  vm_faults = (unsigned)sx_param(1); vm_fault_budget = (int)sx_param(2);
  vm_fork_armed = (int)sx_param(3);
  switch (op) {
  case 0: rc = kvtree_read_with_lock(PATH, r); break;
  case 1: rc = kvtree_write_with_lock(PATH, t); break;
  default:
    rc = kvtree_lock_open_read(PATH, &fd, r);
    if (rc == KVTREE_SUCCESS) {
      sx_check(fd >= 0 && vm_lock_kind(fd) == 2 && vm_locks_held() == 1, "kvtree_lock_open_read succeeds without holding the exclusive lock");
      rc = op == 2 ? kvtree_write_close_unlock(PATH, &fd, t) : kvtree_close_with_unlock(PATH, fd);
    } else sx_check(fd < 0, "kvtree_lock_open_read fails and gives a descriptor");
  }
  if (!(vm_faulted & VM_UNLOCK) || !vm_forked) sx_check(vm_locks_held() == 0, "a lock stays held after the call returned");
  if ((vm_faulted & VM_LOCK) && vm_lock_errno != EINTR) sx_check(rc != KVTREE_SUCCESS, "success without the lock");
  sx_cover(rc == KVTREE_SUCCESS ? "success" : "failure");
}
