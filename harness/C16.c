/* C16: collective file operations agree on the outcome when I/O fails. */
#include "mio.h"
static const char *PRE = "/d/set";
static int res[MAXN], returned;
#define SOFT (VM_OPEN | VM_READ_SHORT | VM_READ_INTR | VM_WRITE_SHORT | VM_WRITE_INTR)
#define WHARD (VM_CLOSE | VM_FSYNC | VM_WRITE_ERR_P | VM_WRITE_ZERO | VM_OPEN_P)
#define RHARD (VM_READ_ERR_P | VM_OPEN_P)
static void writer(int r) {
  kvtree *k = rank_kv(r);
  res[r] = kvtree_write_gather(PRE, k, MPI_COMM_WORLD) == KVTREE_SUCCESS;
  returned++;
  if (k) kvtree_delete(&k);
}
static int own[MAXN], expected_n;
static void reader(int r) {
  kvtree *k = kvtree_new();
  res[r] = kvtree_read_scatter(PRE, k, MPI_COMM_WORLD) == KVTREE_SUCCESS;
  own[r] = kv_is(k, rank_tree(r));
  returned++;
  kvtree_delete(&k);
}
static int run(void (*f)(int)) {
  returned = 0;
  vm_mpi_run(N, f);
  sx_check(returned == N, "a rank does not return");
  for (int r = 1; r < N; r++) sx_check(res[r] == res[0], "ranks return different results");
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  return res[0];
}
static void classes(int mask) {
  int set[8], n = 0;
  for (int i = 0; i < 7; i++) if (mask >> i & 1) set[n++] = i;
  for (int r = 0; r < N; r++) cls[r] = n == 1 ? set[0] : set[sx_concrete(sx_choose("size of the tree", n))];
}
static void armed(int i) { vm_faults = (unsigned)sx_param(i); vm_fault_budget = (int)sx_param(i + 1); vm_faulted = 0; vm_faults_injected = 0; vm_intr_errno = EINTR; }
/* parameters: ranks, classes, kinds, budget, 1: files of an earlier set exist */
void h_c16_write(void) {
  segsize(5);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  if (sx_param(4)) { sx_check(run(writer), "kvtree_write_gather fails without a fault"); gen = 1; }
  armed(2);
  int ok = run(writer);
  vm_faults = 0;
  if (vm_faulted & WHARD) sx_check(!ok, "success is reported although a file could not be written");
  if ((vm_faulted & ~SOFT) == 0) sx_check(ok, "failure is reported although every fault was transient");
  if (ok) {
    check_set(PRE, N);
    for (int i = 0; i < vm_file_count(); i++) sx_check(vm_file_synced(vm_file_name(i)), "a file is not flushed");
  }
  sx_cover(ok ? vm_faults_injected ? "success after faults" : "success" : "failure");
}
/* parameters: ranks, classes, kinds, budget */
void h_c16_read(void) {
  segsize(4);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  sx_check(run(writer), "kvtree_write_gather fails without a fault");
  armed(2);
  int ok = run(reader);
  vm_faults = 0;
  if (vm_faulted & RHARD) sx_check(!ok, "success is reported although a file could not be read");
  if ((vm_faulted & ~(SOFT | VM_CLOSE | VM_FSYNC)) == 0) sx_check(ok, "failure is reported although every fault was transient");
  for (int r = 0; r < N; r++) if (ok) sx_check(own[r], "success is reported but a rank lacks its tree");
  sx_cover(ok ? vm_faults_injected ? "success after faults" : "success" : "failure");
}
static void must_fail(void) { sx_check(!run(reader), "reading a damaged file set succeeds"); sx_cover("detected"); }
static unsigned char img[8192];
static const char *victim(size_t *n) {
  const char *f = vm_file_name((int)sx_concrete(sx_choose("file", vm_file_count())));
  *n = vm_file_size(f);
  if (*n <= sizeof img) memcpy(img, vm_file_data(f), *n);
  return f;
}
/* parameters: ranks, classes: any file missing, unreadable, replaced or cut to any length */
void h_c16_damage(void) {
  segsize(2);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  sx_check(run(writer), "kvtree_write_gather fails without a fault");
  size_t n;
  const char *f = victim(&n);
  switch (sx_concrete(sx_choose("damage", 4))) {
  case 0: vm_file_remove(f); break;
  case 1: vm_file_readable(f, 0); break;
  case 2: vm_file_set(f, "", 0, 0644); break;
  default: { unsigned char b[400]; vm_file_set(f, b, ref_image(b, tree_no((int)sx_concrete(sx_choose("tree", 4)))), 0644); } break;
  }
  must_fail();
}
void h_c16_cut(void) {
  segsize(2);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  sx_check(run(writer), "kvtree_write_gather fails without a fault");
  size_t n;
  const char *f = victim(&n);
  if (n > 2000) vm_file_truncate(f, n - 1 - sx_concrete(sx_choose("missing bytes", 40)) * 13001);
  else vm_file_truncate(f, sx_concrete(sx_choose("length", (unsigned)n)));
  must_fail();
}
/* parameters: ranks, classes: any burst of four bytes in any file */
void h_c16_burst(void) {
  segsize(2);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  sx_check(run(writer), "kvtree_write_gather fails without a fault");
  size_t n;
  const char *f = victim(&n);
  size_t at = sx_concrete(sx_choose("position", (unsigned)(n - 3)));
  uint64_t m = sx_sym("burst", 32);
  sx_assume(m != 0);
  for (int i = 0; i < 4; i++) img[at + i] ^= (unsigned char)(m >> (8 * i));
  vm_file_set(f, img, n, 0644);
  must_fail();
}
/* parameters: ranks, classes: a file, intact in itself, whose fields do not fit */
void h_c16_mismatch(void) {
  segsize(2);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  sx_check(run(writer), "kvtree_write_gather fails without a fault");
  size_t n;
  const char *f = victim(&n);
  rt *t = file_rt(f);
  int root = strcmp(f, PRE) == 0, k = (int)sx_concrete(sx_choose("mismatch", 6));
  switch (k) {
  case 0: { int m = (int)sx_concrete(sx_choose("ranks", 7)); sx_assume(m != N); rt_del(t, "RANKS"); leaf(rt_put(t, "RANKS", rt_new()), num(m)); } break;
  case 1: rt_del(t, "RANKS"); break;
  case 2: if (!root) sx_done(); rt_del(t, "LEVEL"); break;
  case 3: case 4: case 5: {
    if (!root) sx_done();
    rt *rk = rt_get(t, "RANK"), *x = rk->e[sx_concrete(sx_choose("entry", rk->n))].t;
    if (k == 3) rt_del(x, "FILE");
    else if (k == 4) rt_del(x, "OFFSET");
    else { rt_del(x, "FILE"); leaf(rt_put(x, "FILE", rt_new()), ".0.77"); }
  } break;
  }
  unsigned char *b = sx_alloc(n + 400);
  vm_file_set(f, b, ref_image(b, t), 0644);
  must_fail();
}
/* parameters: ranks: hand-made sets with two map levels, a file of the middle or lowest level is missing, cut or mismatching; level 0 at an offset */
void h_c16_levels(void) {
  N = (int)sx_param(0);
  for (int r = 0; r < N; r++) cls[r] = 2;
  size_t used = 0; static unsigned char buf[8000];
  rt *root = rt_new(), *rk = rt_put(root, "RANK", rt_new());
  leaf(rt_put(root, "LEVEL", rt_new()), "2"); leaf(rt_put(root, "RANKS", rt_new()), num(N));
  int bad = (int)sx_concrete(sx_choose("damaged file", 2 * N)), how = (int)sx_concrete(sx_choose("damage", 4));
  for (int r = 0; r < N; r++) {
    char b[40];
    int hit = bad == r, hit0 = bad == N + r;
    rt *m = rt_new(), *x = rt_put(rt_put(m, "RANK", rt_new()), num(r), rt_new()), *y = rt_put(rk, num(r), rt_new()), *d = rt_new();
    leaf(rt_put(m, "LEVEL", rt_new()), "1"); leaf(rt_put(m, "RANKS", rt_new()), num(hit && how == 2 ? N + 1 : N));
    leaf(rt_put(x, "FILE", rt_new()), hit0 && how == 0 ? ".none" : ".all"); leaf(rt_put(x, "OFFSET", rt_new()), num((int)used));
    snprintf(b, sizeof b, ".1.%d", r);
    leaf(rt_put(y, "FILE", rt_new()), b); leaf(rt_put(y, "OFFSET", rt_new()), "0");
    if (!hit || how) put_tree(PRE, b, m);
    if (hit && (how == 1 || how == 3)) snprintf(b, sizeof b, "/d/set.1.%d", r), vm_file_truncate(b, how == 1 ? 0 : vm_file_size(b) / 2);
    leaf(rt_put(d, "LEVEL", rt_new()), "0"); leaf(rt_put(d, "RANKS", rt_new()), num(hit0 && how == 2 ? N + 1 : N));
    rt_put(rt_put(d, "RANK", rt_new()), num(r), rank_tree(r));
    size_t n = ref_image(buf + used, d);
    if (hit0 && (how == 1 || how == 3)) buf[used + n - (how == 1 ? 1 : 30)] ^= 1;
    used += n;
  }
  vm_file_set("/d/set.all", buf, used, 0644);
  put_tree(PRE, "", root);
  must_fail();
}
/* parameters: ranks, kinds, budget: reading level 0 at offsets of one file with faults */
void h_c16_offset(void) {
  N = (int)sx_param(0);
  size_t used = 0; static unsigned char buf[8000];
  rt *root = rt_new(), *rk = rt_put(root, "RANK", rt_new());
  leaf(rt_put(root, "LEVEL", rt_new()), "1"); leaf(rt_put(root, "RANKS", rt_new()), num(N));
  for (int r = 0; r < N; r++) {
    cls[r] = 2;
    rt *y = rt_put(rk, num(r), rt_new()), *d = rt_new();
    leaf(rt_put(y, "FILE", rt_new()), ".all"); leaf(rt_put(y, "OFFSET", rt_new()), num((int)used));
    leaf(rt_put(d, "LEVEL", rt_new()), "0"); leaf(rt_put(d, "RANKS", rt_new()), num(N));
    rt_put(rt_put(d, "RANK", rt_new()), num(r), rank_tree(r));
    used += ref_image(buf + used, d);
  }
  vm_file_set("/d/set.all", buf, used, 0644);
  put_tree(PRE, "", root);
  armed(1);
  int ok = run(reader);
  vm_faults = 0;
  if (vm_faulted & RHARD) sx_check(!ok, "success is reported although a file could not be read");
  if ((vm_faulted & ~(SOFT | VM_CLOSE | VM_FSYNC)) == 0) sx_check(ok, "failure is reported although every fault was transient");
  for (int r = 0; r < N; r++) if (ok) sx_check(own[r], "success is reported but a rank lacks its tree");
  sx_cover(ok ? vm_faults_injected ? "success after faults" : "success" : "failure");
}
/* parameters: ranks, classes, kinds, budget, 1: reading, segment size: every division into groups, faults at one rank: its group agrees, the others succeed */
static void group_writer(int w) {
  kvtree *k = rank_kv(w);
  char p[80]; snprintf(p, sizeof p, "%s-%d", PRE, vm_group[w]);
  res[w] = kvtree_write_gather(p, k, VM_COMM_GROUP) == KVTREE_SUCCESS;
  returned++;
  if (k) kvtree_delete(&k);
}
static void group_reader(int w) {
  kvtree *k = kvtree_new();
  char p[80]; snprintf(p, sizeof p, "%s-%d", PRE, vm_group[w]);
  res[w] = kvtree_read_scatter(p, k, VM_COMM_GROUP) == KVTREE_SUCCESS;
  own[w] = kv_is(k, rank_tree(w));
  returned++;
  kvtree_delete(&k);
}
void h_c16_split(void) {
  int rd = (int)sx_param(4);
  segsize(5);
  N = (int)sx_param(0);
  int ng = split(N), bad = (int)sx_concrete(sx_choose("rank with the fault", N));
  classes((int)sx_param(1));
  if (rd) { vm_mpi_run(N, group_writer); for (int w = 0; w < N; w++) sx_check(res[w], "kvtree_write_gather fails without a fault"); }
  vm_fault_rank = bad;
  armed(2);
  returned = 0;
  vm_mpi_run(N, rd ? group_reader : group_writer);
  vm_faults = 0;
  sx_check(returned == N, "a rank does not return");
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  int ok = res[bad];
  for (int w = 0; w < N; w++) {
    if (vm_group[w] == vm_group[bad]) sx_check(res[w] == ok, "ranks return different results");
    else sx_check(res[w], "a group fails because of a fault in another one");
    if (rd && res[w]) sx_check(own[w], "success is reported but a rank lacks its tree");
  }
  if (vm_faulted & (rd ? RHARD : WHARD)) sx_check(!ok, "success is reported although a file could not be transferred");
  if ((vm_faulted & ~(SOFT | (rd ? VM_CLOSE | VM_FSYNC : 0))) == 0) sx_check(ok, "failure is reported although every fault was transient");
  if (!rd && ok) check_groups(PRE, N, ng);
  sx_cover(ok ? vm_faults_injected ? "success after faults" : "success" : "failure");
}
