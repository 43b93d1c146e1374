/* C15: collective gather-write then scatter-read returns each rank its own tree. */
#include "mio.h"
static const char *PRE = "/d/set";
static int expect_fail, prefilled, self_comm;
static void writer(int r) {
  kvtree *k = rank_kv(r);
  char p[1200];
  snprintf(p, sizeof p, self_comm ? "%s-%d" : "%s", PRE, r);
  sx_check(kvtree_write_gather(p, k, self_comm ? MPI_COMM_SELF : MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_write_gather fails");
  sx_check(kv_is(k, rank_tree(r)), "kvtree_write_gather changes the tree");
  if (k) kvtree_delete(&k);
}
static void reader(int r) {
  rt *e = rt_new();
  if (prefilled) { leaf(rt_put(e, "data", rt_new()), "before"); leaf(e, "old"); }
  kvtree *k = kv_of(e);
  char p[1200];
  snprintf(p, sizeof p, self_comm ? "%s-%d" : "%s", PRE, r);
  int rc = kvtree_read_scatter(p, k, self_comm ? MPI_COMM_SELF : MPI_COMM_WORLD);
  if (expect_fail) sx_check(rc != KVTREE_SUCCESS, "reading with another number of ranks succeeds");
  else {
    sx_check(rc == KVTREE_SUCCESS, "kvtree_read_scatter fails");
    rt_merge(e, rank_tree(r));
    sx_check(kv_is(k, e), "a rank does not get its own tree");
  }
  kvtree_delete(&k);
}
static void classes(int mask) {
  int set[8], n = 0;
  for (int i = 0; i < 7; i++) if (mask >> i & 1) set[n++] = i;
  for (int r = 0; r < N; r++) cls[r] = n == 1 ? set[0] : set[sx_concrete(sx_choose("size of the tree", n))];
}
static const char *suffix_of(int i) { const char *n = vm_file_name(i); return strncmp(n, PRE, strlen(PRE)) == 0 ? n + strlen(PRE) : NULL; }
static void files(void) {
  for (int i = 0; i < vm_file_count(); i++) {
    const char *s = suffix_of(i);
    sx_check(s != NULL, "a file outside the prefix is created");
    rt *t = file_rt(vm_file_name(i));
    sx_check(field(t, "RANKS") == N && rt_get(t, "LEVEL") && rt_get(t, "RANK"), "a file lacks LEVEL, RANKS or RANK");
  }
}
/* parameters: ranks, size classes, length of an arbitrary key, prefilled */
void h_c15_round(void) {
  segsize(4);
  N = (int)sx_param(0);
  if (sx_param(2)) { symrank = (int)sx_concrete(sx_choose("rank", N)); symkey = sym_str((int)sx_param(2), "key"); sx_assume(strcmp(symkey, "data") != 0 && strcmp(symkey, "old") != 0); }
  classes((int)sx_param(1));
  vm_mpi_run(N, writer);
  files();
  check_set(PRE, N);
  sx_check((int)seen_files == vm_file_count(), "a file that belongs to nothing is created");
  prefilled = (int)sx_param(3);
  vm_mpi_run(N, reader);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_cover(vm_file_count() > 2 ? "several files" : "one data file");
}
/* parameters: ranks of the writer, classes, ranks of the reader */
void h_c15_other(void) {
  segsize(3);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  vm_mpi_run(N, writer);
  N = (int)sx_param(2);
  expect_fail = 1;
  vm_mpi_run(N, reader);
  sx_cover("done");
}
/* parameters: ranks, first classes, second classes: written twice below the same prefix */
void h_c15_again(void) {
  segsize(3);
  N = (int)sx_param(0);
  classes((int)sx_param(1)); vm_mpi_run(N, writer); check_set(PRE, N);
  gen = 1;
  classes((int)sx_param(2)); vm_mpi_run(N, writer); check_set(PRE, N);
  vm_mpi_run(N, reader);
  sx_cover("done");
}
/* parameters: ranks: every rank for itself */
void h_c15_self(void) {
  N = (int)sx_param(0);
  classes(7);
  self_comm = 1;
  vm_mpi_run(N, writer);
  vm_mpi_run(N, reader);
  for (int r = 0; r < N; r++) { char p[64]; snprintf(p, sizeof p, "%s-%d", PRE, r); rt *t = file_rt(p); sx_check(field(t, "RANKS") == 1 && field(t, "LEVEL") == 1, "a file lacks LEVEL or RANKS"); }
  sx_cover("done");
}
/* parameters: shortest and longest prefix: every length */
void h_c15_prefix(void) {
  N = 2;
  cls[0] = cls[1] = 2;
  PRE = long_prefix((int)sx_param(0) + (int)sx_concrete(sx_choose("length of the prefix", (unsigned)(sx_param(1) - sx_param(0) + 1))));
  vm_mpi_run(N, writer); check_set(PRE, N); vm_mpi_run(N, reader);
  sx_cover("done");
}
/* file sets with several levels, made by hand as documented: parameters: ranks, levels, 1: several trees in one file */
static int start_at[8][MAXN];
static void make(int lev, const int *groups, int ng, int shared) {
  /* groups: first ranks of the ng files of level lev; their entries cover the ranks up to the next one */
  size_t used = 0; static unsigned char buf[40000];
  for (int g = 0; g < ng; g++) {
    rt *t = rt_new();
    leaf(rt_put(t, "LEVEL", rt_new()), num(lev)); leaf(rt_put(t, "RANKS", rt_new()), num(N));
    rt *rk = rt_put(t, "RANK", rt_new());
    int end = g + 1 < ng ? groups[g + 1] : N;
    for (int r = groups[g]; r < end; r++) {
      if (lev == 0) rt_put(rk, num(r), rank_tree(r));
      else if (start_at[lev - 1][r]) {
        char b[40]; rt *x = rt_put(rk, num(r), rt_new());
        if (lev == 1 && shared) { snprintf(b, sizeof b, ".all"); leaf(rt_put(x, "OFFSET", rt_new()), num(start_at[lev - 1][r] - 1)); }
        else { snprintf(b, sizeof b, ".%d.%d", lev - 1, r); leaf(rt_put(x, "OFFSET", rt_new()), "0"); }
        leaf(rt_put(x, "FILE", rt_new()), b);
      }
    }
    if (lev == 0 && shared) { start_at[0][groups[g]] = (int)used + 1; used += ref_image(buf + used, t); }
    else { char b[40]; snprintf(b, sizeof b, ".%d.%d", lev, groups[g]); put_tree(PRE, ng == 1 && lev == sx_param(1) ? "" : b, t); }
  }
  if (lev == 0 && shared) vm_file_set("/d/set.all", buf, used, 0644);
}
void h_c15_levels(void) {
  N = (int)sx_param(0);
  int levels = (int)sx_param(1), shared = (int)sx_param(2);
  classes(6);
  int groups[MAXN], ng;
  /* level 0: any contiguous groups of ranks; each higher level: any contiguous groups of the files below; one root */
  for (int r = 0; r < N; r++) start_at[0][r] = r == 0 || sx_concrete(sx_choose("group starts", 2));
  for (int l = 1; l < levels; l++) for (int r = 0; r < N; r++) start_at[l][r] = r == 0 || (start_at[l - 1][r] && sx_concrete(sx_choose("group starts", 2)));
  start_at[levels][0] = 1;
  for (int l = 0; l <= levels; l++) {
    ng = 0;
    for (int r = 0; r < N; r++) if (start_at[l][r]) groups[ng++] = r;
    make(l, groups, ng, shared);
  }
  vm_mpi_run(N, reader);
  sx_cover(ng ? "done" : "");
}
/* parameters: ranks, classes, length of an arbitrary key, segment size: every division into groups, every group has a set of its own */
static void group_writer(int w) {
  kvtree *k = rank_kv(w);
  char p[80]; snprintf(p, sizeof p, "%s-%d", PRE, vm_group[w]);
  sx_check(kvtree_write_gather(p, k, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_write_gather fails");
  sx_check(kv_is(k, rank_tree(w)), "kvtree_write_gather changes the tree");
  if (k) kvtree_delete(&k);
}
static void group_reader(int w) {
  kvtree *k = kvtree_new();
  char p[80]; snprintf(p, sizeof p, "%s-%d", PRE, vm_group[w]);
  sx_check(kvtree_read_scatter(p, k, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_read_scatter fails");
  sx_check(kv_is(k, rank_tree(w)), "a rank does not get its own tree");
  kvtree_delete(&k);
}
void h_c15_split(void) {
  segsize(3);
  N = (int)sx_param(0);
  int ng = split(N);
  if (sx_param(2)) { symrank = (int)sx_concrete(sx_choose("rank", N)); symkey = sym_str((int)sx_param(2), "key"); sx_assume(strcmp(symkey, "data") != 0); }
  classes((int)sx_param(1));
  vm_mpi_run(N, group_writer);
  check_groups(PRE, N, ng);
  vm_mpi_run(N, group_reader);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_cover(ng == 1 ? "one group" : "several groups");
}
