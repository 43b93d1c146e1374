/* C17: the serial gather writer and the single-process scatter reader. */
#include "mio.h"
static const char *PRE = "/d/set";
static int prefilled;
static const char *NAMES[] = { "/d/set", "/d/a.b", "/d/x+y", "/d/p(1", "/d/p)1", "/d/q[0]", "/d/q[0", "/d/r*", "/d/s|t", "/d/{2}", "/d/^c$", "/d/w\\d", "/d/set.0", "/d/set.0.1", "/d/a b", "/d/.hidden", "/d/?", "/d/sub/set", "/top", "set", "./set", "sub/set", "/d/(a)", "/d/a{2}", "/d/0", "//d//set", "/d/%s%d" };
#define NNAMES ((int)(sizeof NAMES / sizeof *NAMES))
static void classes(int mask) {
  int set[8], n = 0;
  for (int i = 0; i < 7; i++) if (mask >> i & 1) set[n++] = i;
  for (int r = 0; r < N; r++) cls[r] = n == 1 ? set[0] : set[sx_concrete(sx_choose("size of the tree", n))];
}
/* input tree whose elements are in the given order; iteration order is the reverse of insertion */
static kvtree *input(const int *order) {
  kvtree *t = kvtree_new();
  for (int i = N - 1; i >= 0; i--) kvtree_set(t, num(order[i]), rank_kv(order[i]));
  return t;
}
static rt *whole(void) { rt *w = rt_new(); for (int r = 0; r < N; r++) rt_put(w, num(r), rank_tree(r)); return w; }
static void put(int per, const int *order) {
  kvtree *t = input(order);
  vm_env_name = per ? "KVTREE_ENTRIES_PER_FILE" : NULL; vm_env_value = rt_dup(num(per));
  sx_check(kvtree_write_to_gather(PRE, t, N) == KVTREE_SUCCESS, "kvtree_write_to_gather fails");
  sx_check(kv_is(t, whole()), "kvtree_write_to_gather changes the tree");
  kvtree_delete(&t);
}
static void reader(int r) {
  kvtree *k = kvtree_new();
  sx_check(kvtree_read_scatter(PRE, k, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_read_scatter fails");
  sx_check(kv_is(k, rank_tree(r)), "the collective reader does not give a rank its tree");
  kvtree_delete(&k);
}
static void writer(int r) {
  kvtree *k = rank_kv(r);
  sx_check(kvtree_write_gather(PRE, k, MPI_COMM_WORLD) == KVTREE_SUCCESS, "kvtree_write_gather fails");
  if (k) kvtree_delete(&k);
}
static void single(void) {
  rt *e = rt_new();
  if (prefilled) { leaf(rt_put(e, "0", rt_new()), "old"); leaf(e, "other"); }
  kvtree *k = kv_of(e);
  sx_check(kvtree_read_scatter_single(PRE, k) == KVTREE_SUCCESS, "kvtree_read_scatter_single fails");
  rt_merge(e, whole());
  sx_check(kv_is(k, e), "the single-process reader delivers another tree");
  kvtree_delete(&k);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
}
static void both(void) {
  single();
  if (N) vm_mpi_run(N, reader);
}
static int ident[MAXN], ord[MAXN];
static const int *order_no(int k) {
  for (int i = 0; i < N; i++) switch (k) {
    case 0: ord[i] = i; break;
    case 1: ord[i] = N - 1 - i; break;
    case 2: ord[i] = (i + N / 2) % N; break;
    default: ord[i] = (i * 2 < N) ? i * 2 : (i - (N + 1) / 2) * 2 + 1; break;
  }
  return ord;
}
/* parameters: ranks, entries per file, classes, length of an arbitrary key: any order of the input entries */
void h_c17_serial(void) {
  N = (int)sx_param(0);
  classes((int)sx_param(2));
  if (sx_param(3)) { symrank = (int)sx_concrete(sx_choose("rank", N)); cls[symrank] = 2; symkey = sym_str((int)sx_param(3), "key"); sx_assume(strcmp(symkey, "data") != 0); }
  if (N <= 4) {                                          /* every permutation */
    int left[MAXN];
    for (int i = 0; i < N; i++) left[i] = i;
    for (int i = 0; i < N; i++) { int j = i + 1 < N ? (int)sx_concrete(sx_choose("order", N - i)) : 0; ord[i] = left[j]; for (; j + 1 < N - i; j++) left[j] = left[j + 1]; }
  } else order_no((int)sx_concrete(sx_choose("order", 4)));
  vm_dir_reverse = N <= 4 ? 0 : (int)sx_concrete(sx_choose("directory order", 2));
  put((int)sx_param(1), ord);
  if (N) check_set(PRE, N);
  both();
  sx_cover(vm_file_count() > 2 ? "several files" : "one data file");
}
/* parameters: ranks, entries per file: prefix names of all kinds */
void h_c17_prefix(void) {
  N = (int)sx_param(0);
  for (int r = 0; r < N; r++) cls[r] = 2;
  vm_dir_add("/d/sub"); vm_dir_add("sub");
  PRE = NAMES[sx_concrete(sx_choose("prefix", NNAMES))];
  if (sx_param(2)) vm_mpi_run(N, writer); else put((int)sx_param(1), order_no(1));
  both();
  sx_cover("done");
}
/* an arbitrary character in the prefix, at its beginning, inside or at its end */
void h_c17_prefix_char(void) {
  N = 2;
  cls[0] = cls[1] = 2;
  static char p[] = "/d/prefix";
  unsigned char c = (unsigned char)sx_concrete(sx_sym("character", 8));
  int at = (int)sx_concrete(sx_choose("position", 3));
  if (c == 0 || c == '/') sx_done();
  p[at == 0 ? 3 : at == 1 ? 6 : 8] = (char)c;
  PRE = p;
  put(1, order_no(0));
  both();
  sx_cover("done");
}
/* parameters: shortest and longest prefix, 1: collective writer: every length */
void h_c17_prefix_long(void) {
  N = 2;
  cls[0] = cls[1] = 2;
  PRE = long_prefix((int)sx_param(0) + pick("length of the prefix", (int)(sx_param(1) - sx_param(0) + 1)));
  if (sx_param(2)) vm_mpi_run(N, writer); else { put(1, order_no(0)); check_set(PRE, N); }
  both();
  sx_cover("done");
}
/* other files in the directory, which hold rank data of another set */
static const char *OTHERS[] = { "/d/XX.0.0", "/d/aXb.0.0", "/d/a.b.0.1x", "/d/a.b.0.", "/d/a.b.1.0", "/d/Xa.b.0.7", "/d/a.b.0.7.0", "/d/a.b", "/d/a.bb.0.0", "/d/a.b.00.1", "/d/a.b.0x1", "/d/a.b0.1", "/d/a.b.0.-1", "/d/a.b.0.1.0.1", "/d/.0.0", "/d/a.b.x.0.0", "/d/A.b.0.7", "/d/A.b.0.0", "/d/a.B.0.1", "/d/aXb.0.1", "/d/Xa.b.0.1", "/d/a.b.0.00", "/d/a.b.0.01", "/d/a.b.0.+1", "/d/a.b.0. 1", "/d/a.b.0.0.0", "/d/a.b.0.1.0", "/d/a.b.0.1 ", "/d/a.b.0.1~", "/d/a.b.0.1.tmp", "/d/.a.b.0.1", "/d/b.0.1", "/d/a.b..0.1" };
#define NOTHERS ((int)(sizeof OTHERS / sizeof *OTHERS))
void h_c17_others(void) {
  N = 2;
  cls[0] = cls[1] = 2;
  PRE = "/d/a.b";
  rt *t = rt_new(), *rk = rt_put(t, "RANK", rt_new());
  leaf(rt_put(t, "LEVEL", rt_new()), "0"); leaf(rt_put(t, "RANKS", rt_new()), "2");
  leaf(rt_put(rk, "1", rt_new()), "foreign"); leaf(rt_put(rk, "5", rt_new()), "foreign");
  unsigned char b[400]; size_t n = ref_image(b, t);
  const char *o = OTHERS[sx_concrete(sx_choose("other file", NOTHERS))];
  vm_dir_reverse = (int)sx_concrete(sx_choose("directory order", 2));
  vm_file_set(o, b, n, 0644);
  if (sx_concrete(sx_choose("collective", 2))) vm_mpi_run(N, writer); else put(1, order_no(0));
  both();
  sx_cover("done");
}
/* the name of another file differs from that of a part file in one arbitrary character: 0: replaced, 1: added, 2: left out */
void h_c17_near(void) {
  N = 2;
  cls[0] = cls[1] = 2;
  PRE = "/d/a.b";
  rt *t = rt_new(), *rk = rt_put(t, "RANK", rt_new());
  leaf(rt_put(t, "LEVEL", rt_new()), "0"); leaf(rt_put(t, "RANKS", rt_new()), "2");
  leaf(rt_put(rk, "0", rt_new()), "foreign"); leaf(rt_put(rk, "1", rt_new()), "foreign"); leaf(rt_put(rk, "5", rt_new()), "foreign");
  unsigned char b[400]; size_t n = ref_image(b, t);
  int how = (int)sx_param(0);
  const char *p = "/d/a.b.0.1";
  int at = 3 + (int)sx_concrete(sx_choose("position", how == 1 ? 8 : 7));
  char f[20]; int m = 0;
  unsigned char c = how == 2 ? 0 : (unsigned char)sx_concrete(sx_sym("character", 8));
  if (how != 2 && (c == 0 || c == '/')) sx_done();
  for (int i = 0; p[i]; i++) { if (i == at) { if (c) f[m++] = (char)c; if (how == 1) f[m++] = p[i]; } else f[m++] = p[i]; }
  if (at == 10) f[m++] = (char)c;
  f[m] = 0;
  vm_file_set(rt_dup(f), b, n, 0644);
  put((int)sx_param(1), order_no(0));
  single();
  sx_cover("done");
}
/* parameter: value of KVTREE_ENTRIES_PER_FILE */
static const char *PER[] = { "127", "128", "255", "256", "32767", "32768", "65535", "65536", "65537", "70000", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "1099511627776", "9223372036854775807" };
void h_c17_entries(void) {
  N = 3;
  cls[0] = cls[1] = cls[2] = 2;
  kvtree *t = input(order_no(1));
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = PER[sx_concrete(sx_choose("entries per file", sizeof PER / sizeof *PER))];
  sx_check(kvtree_write_to_gather(PRE, t, N) == KVTREE_SUCCESS, "kvtree_write_to_gather fails");
  kvtree_delete(&t);
  check_set(PRE, N);
  both();
  sx_check(vm_file_count() == 2, "the entries of one file are spread over several");
  sx_cover("done");
}
/* parameters: ranks, classes: files of the collective writer */
void h_c17_collective(void) {
  segsize(4);
  N = (int)sx_param(0);
  classes((int)sx_param(1));
  if (sx_param(2)) { symrank = (int)sx_concrete(sx_choose("rank", N)); cls[symrank] = 2; symkey = sym_str((int)sx_param(2), "key"); sx_assume(strcmp(symkey, "data") != 0); }
  prefilled = (int)sx_param(3);
  vm_dir_reverse = (int)sx_concrete(sx_choose("directory order", 2));
  vm_mpi_run(N, writer);
  single();
  sx_cover(vm_file_count() > 2 ? "several files" : "one data file");
}
/* parameters: first ranks and entries per file, second ranks and entries per file, 1: collective first, 2: collective second: a set over an earlier one */
void h_c17_again(void) {
  N = (int)sx_param(0);
  for (int r = 0; r < N; r++) cls[r] = 2;
  vm_dir_reverse = (int)sx_concrete(sx_choose("directory order", 2));
  if (sx_param(4) & 1) { for (int r = 0; r < N; r++) cls[r] = 5; vm_mpi_run(N, writer); } else put((int)sx_param(1), order_no(0));
  gen = 1;
  N = (int)sx_param(2);
  for (int r = 0; r < N; r++) cls[r] = 2;
  if (sx_param(4) & 2) vm_mpi_run(N, writer); else put((int)sx_param(3), order_no(0));
  both();
  sx_cover("done");
}
/* parameters: ranks, entries per file, 1: collective, 1: an earlier set of other part files exists: a file is missing, unreadable, empty, cut or altered */
static unsigned char img[8192];
void h_c17_damage(void) {
  segsize(4);
  N = (int)sx_param(0);
  for (int r = 0; r < N; r++) cls[r] = 2;
  if (sx_param(3)) { put(1, order_no(0)); gen = 1; }
  char was[8][64]; int nw = 0;
  if (sx_param(2)) { for (int r = 0; r < N; r++) cls[r] = 5; vm_mpi_run(N, writer); } else put((int)sx_param(1), order_no(0));
  /* files of the set: the root and the part files it lists */
  rt *rk = rt_get(file_rt(PRE), "RANK");
  sx_check(rk != NULL, "the root file lists no part files");
  snprintf(was[nw++], 64, "%s", PRE);
  if (vm_segsize >= 1024 * 1024) { for (int i = 0; i < rk->n && nw < 8; i++) snprintf(was[nw++], 64, "%s.0.%s", PRE, rk->e[i].k); }
  else for (int i = 0; i < vm_file_count() && nw < 8; i++) if (strncmp(vm_file_name(i), "/d/set.0.", 9) == 0) snprintf(was[nw++], 64, "%s", vm_file_name(i));
  const char *f = was[sx_concrete(sx_choose("file", nw))];
  size_t n = vm_file_size(f);
  switch (sx_concrete(sx_choose("damage", 6))) {
  case 0: vm_file_remove(f); break;
  case 1: vm_file_readable(f, 0); break;
  case 2: vm_file_set(f, "", 0, 0644); break;
  case 3: vm_file_truncate(f, n < 2000 ? sx_concrete(sx_choose("length", (unsigned)n)) : n / 2); break;
  case 4: { unsigned char b[400]; vm_file_set(f, b, ref_image(b, tree_no((int)sx_concrete(sx_choose("tree", 4)))), 0644); } break;
  default: {
    if (n > sizeof img) sx_done();
    memcpy(img, vm_file_data(f), n);
    size_t at = sx_concrete(sx_choose("position", (unsigned)(n - 3)));
    uint64_t m = sx_sym("burst", 32);
    sx_assume(m != 0);
    for (int i = 0; i < 4; i++) img[at + i] ^= (unsigned char)(m >> (8 * i));
    vm_file_set(f, img, n, 0644);
  } break;
  }
  kvtree *k = kv_of(tree_no(2));
  sx_check(kvtree_read_scatter_single(PRE, k) != KVTREE_SUCCESS, "reading an incomplete file set succeeds");
  sx_check(kv_is(k, tree_no(2)), "reading an incomplete file set changes the caller's tree");
  kvtree_delete(&k);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_cover("detected");
}
/* parameters: ranks, levels: sets with several map levels, as the collective writer makes them for many ranks */
static void level_files(int lev, int top, const int *starts, const unsigned char *below) {
  for (int g = 0; g < N; g++) {
    if (!starts[g]) continue;
    rt *t = rt_new();
    leaf(rt_put(t, "LEVEL", rt_new()), num(lev)); leaf(rt_put(t, "RANKS", rt_new()), num(N));
    rt *rk = rt_put(t, "RANK", rt_new());
    for (int r = g; r < N && (r == g || !starts[r]); r++) {
      if (lev == 0) rt_put(rk, num(r), rank_tree(r));
      else if (below[r]) { char b[40]; snprintf(b, sizeof b, ".%d.%d", lev - 1, r); rt *x = rt_put(rk, num(r), rt_new()); leaf(rt_put(x, "OFFSET", rt_new()), "0"); leaf(rt_put(x, "FILE", rt_new()), b); }
    }
    char b[40]; snprintf(b, sizeof b, ".%d.%d", lev, g);
    put_tree(PRE, lev == top ? "" : b, t);
  }
}
void h_c17_levels(void) {
  N = (int)sx_param(0);
  int levels = (int)sx_param(1), s[MAXN]; unsigned char below[MAXN] = { 0 };
  for (int r = 0; r < N; r++) { cls[r] = 2; s[r] = 1; }
  for (int l = 0; l <= levels; l++) {
    for (int r = 0; r < N; r++) s[r] = r == 0 || (s[r] && l < levels && sx_concrete(sx_choose("group starts", 2)));
    level_files(l, levels, s, below);
    for (int r = 0; r < N; r++) below[r] = (unsigned char)s[r];
  }
  vm_dir_reverse = (int)sx_concrete(sx_choose("directory order", 2));
  both();
  sx_cover("done");
}
/* parameters: ranks, entries per file, last ranks whose tree holds data: part ids and ranks of several digits */
static const char *many_value(int r, char *b) { snprintf(b, 32, "rank %d", r); return b; }
void h_c17_many(void) {
  int n = (int)sx_param(0), per = (int)sx_param(1), up = (int)sx_concrete(sx_choose("order", 2));
  char b[32];
  static unsigned char seen[8192];
  kvtree *t = kvtree_new();
  int odd = (int)sx_concrete(sx_choose("rank", 3));
  odd = odd == 0 ? 0 : odd == 1 ? n - 1 : n / 2;
  char *v = sym_str(2, "value");
  for (int i = 0; i < n; i++) { int r = up ? i : n - 1 - i; kvtree_set(kvtree_set(t, num(r), kvtree_new()), r == odd ? v : many_value(r, b), kvtree_new()); }
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = rt_dup(num(per));
  sx_check(kvtree_write_to_gather(PRE, t, n) == KVTREE_SUCCESS, "kvtree_write_to_gather fails");
  kvtree_delete(&t);
  sx_check(vm_file_count() == 1 + (n + per - 1) / per, "the number of files of the set");
  kvtree *k = kvtree_new();
  sx_check(kvtree_read_scatter_single(PRE, k) == KVTREE_SUCCESS, "kvtree_read_scatter_single fails");
  int c = 0;
  for (kvtree_elem *e = kvtree_elem_first(k); e; e = kvtree_elem_next(e), c++) {
    int r = atoi(kvtree_elem_key(e));
    sx_check(r >= 0 && r < n && strcmp(num(r), kvtree_elem_key(e)) == 0 && !seen[r], "the single-process reader delivers a rank which was not written or one twice");
    seen[r] = 1;
    kvtree_elem *x = kvtree_elem_first(kvtree_elem_hash(e));
    sx_check(x && !kvtree_elem_next(x) && strcmp(kvtree_elem_key(x), r == odd ? v : many_value(r, b)) == 0, "the single-process reader delivers another tree for a rank");
  }
  sx_check(c == n, "the single-process reader does not deliver every rank");
  kvtree_delete(&k);
  sx_cover("done");
}
/* parameters: ranks, classes, segment size: every division into groups, every group writes a set of its own into one directory */
static void group_writer(int w) {
  kvtree *k = rank_kv(w);
  char p[80]; snprintf(p, sizeof p, "%s-%d", PRE, vm_group[w]);
  sx_check(kvtree_write_gather(p, k, VM_COMM_GROUP) == KVTREE_SUCCESS, "kvtree_write_gather fails");
  if (k) kvtree_delete(&k);
}
void h_c17_split(void) {
  segsize(2);
  N = (int)sx_param(0);
  int ng = split(N);
  classes((int)sx_param(1));
  vm_dir_reverse = (int)sx_concrete(sx_choose("directory order", 2));
  vm_mpi_run(N, group_writer);
  for (int g = 0; g < ng; g++) {
    char p[80]; snprintf(p, sizeof p, "%s-%d", PRE, g);
    rt *e = rt_new();
    for (int r = 0; r < gsize(N, g); r++) rt_put(e, num(r), rank_tree(gworld(N, g, r)));
    kvtree *k = kvtree_new();
    sx_check(kvtree_read_scatter_single(p, k) == KVTREE_SUCCESS, "kvtree_read_scatter_single fails");
    sx_check(kv_is(k, e), "the single-process reader delivers another tree");
    kvtree_delete(&k);
  }
  sx_cover(ng == 1 ? "one group" : "several groups");
}
