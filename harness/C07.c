/* C07: a tree written to a file is read back equal. */
#include "h.h"
#define PATH "/d/file"
static unsigned char buf[4096];
static void set_image(const rt *t) { size_t n = ref_image(buf, t); vm_file_set(PATH, buf, n, 0644); }
/* previous content of the file; the tree a reader finds in it */
static rt *prior(int kind, const rt *t) {
  size_t n, m = ref_image(buf, t);
  rt *o = NULL;
  switch (kind) {
  case 0: return NULL;                                                                 /* no file */
  case 1: vm_file_set(PATH, NULL, 0, 0644); return NULL;                               /* empty */
  case 2: o = tree_no(0); set_image(o); return o;                                      /* shorter (or equal) */
  case 3: o = tree_no(9); set_image(o); return o;                                      /* longer */
  case 4: for (n = 0; n < m; n++) buf[n] ^= 0x5a; vm_file_set(PATH, buf, m, 0644); return NULL;     /* garbage of equal length */
  case 5: for (n = 0; n < m + 9; n++) buf[n] = (unsigned char)(n * 7); vm_file_set(PATH, buf, m + 9, 0644); return NULL;
  case 6: o = tree_no(5); set_image(o); return o;
  default: vm_file_set(PATH, "abc", 3, 0644); return NULL;
  }
}
/* write t with writer w; o: what the file held */
static void put(int w, const rt *t, const rt *o) {
  kvtree *k = kv_of(t);
  int fd;
  if (w == 0) sx_check(kvtree_write_file(PATH, k) == KVTREE_SUCCESS, "kvtree_write_file fails");
  else if (w == 1) sx_check(kvtree_write_with_lock(PATH, k) == KVTREE_SUCCESS, "kvtree_write_with_lock fails");
  else if (w == 2) {
    kvtree *r = kvtree_new(); fd = -7;
    kvtree_set(r, "own", kvtree_new());
    rt *e = rt_copy(o); leaf(e, "own");
    size_t n = vm_file_exists(PATH) ? vm_file_size(PATH) : 0;
    int rc = kvtree_lock_open_read(PATH, &fd, r);
    if (!o && n) {                     /* content that is no tree: the open fails and the file stays as it is */
      sx_check(rc != KVTREE_SUCCESS && fd < 0 && vm_file_size(PATH) == n, "kvtree_lock_open_read accepts or changes a file that holds no tree");
      rt_del(e, "own"); leaf(e, "own");
      sx_check(kv_is(r, e), "kvtree_lock_open_read adds something from a file that holds no tree");
      sx_cover("no tree");
      sx_done();
    }
    sx_check(fd >= 0, "kvtree_lock_open_read gives no descriptor");
    if (o) sx_check(rc == KVTREE_SUCCESS, "kvtree_lock_open_read fails on a well-formed file");
    sx_check(kv_is(r, e), "kvtree_lock_open_read does not deliver the tree in the file");
    sx_check(kvtree_write_close_unlock(PATH, &fd, k) == KVTREE_SUCCESS, "kvtree_write_close_unlock fails");
    sx_check(fd == -1, "kvtree_write_close_unlock leaves the descriptor set");
    kvtree_delete(&r);
  } else {
    fd = open(PATH, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    ssize_t n = kvtree_write_fd(PATH, fd, k);
    sx_check(n > 0 && (size_t)n == vm_file_size(PATH), "kvtree_write_fd does not return the number of bytes written");
    close(fd);
  }
  sx_check(kv_is(k, t), "writing changes the tree");
  kvtree_delete(&k);
}
static void check_file(int w, const rt *t) {
  size_t n = vm_file_size(PATH), m = n;
  const unsigned char *p = vm_file_data(PATH);
  if (w == 1 && n >= 20) { m = sx_concrete(be(p + 8, 8)); sx_check(m <= n, "file size field exceeds the file"); }
  rt *r = ref_file(p, m);
  sx_check(r != NULL, "the file is not in the documented format");
  sx_check(rt_eq(r, t), "the file holds another tree");
}
/* read with reader q into a tree holding g */
static void get(int q, const rt *t, const rt *g) {
  kvtree *k = kv_of(g);
  rt *e = rt_copy(g); rt_merge(e, t);
  int fd = -7;
  if (q == 0) sx_check(kvtree_read_file(PATH, k) == KVTREE_SUCCESS, "kvtree_read_file fails");
  else if (q == 1) sx_check(kvtree_read_with_lock(PATH, k) == KVTREE_SUCCESS, "kvtree_read_with_lock fails");
  else if (q == 2) { sx_check(kvtree_lock_open_read(PATH, &fd, k) == KVTREE_SUCCESS && fd >= 0, "kvtree_lock_open_read fails"); kvtree_close_with_unlock(PATH, fd); }
  else { fd = open(PATH, O_RDONLY); sx_check(kvtree_read_fd(PATH, fd, k) > 0, "kvtree_read_fd fails"); close(fd); }
  sx_check(kv_is(k, e), "reading does not yield the written tree merged into the target");
  kvtree_delete(&k);
}
/* parameters: writer; all readers, prior contents, trees and targets */
void h_c07_files(void) {
  int w = (int)sx_param(0);
  int q = (int)sx_concrete(sx_choose("reader", 4)), p = (int)sx_concrete(sx_choose("previous content", 8));
  rt *t = tree_no((int)sx_concrete(sx_choose("tree", 8))), *g = tree_no((int)sx_concrete(sx_choose("target", 3)) * 2);
  rt *o = prior(p, t);
  put(w, t, o);
  check_file(w, t);
  get(q, t, g);
  sx_check(vm_open_fds() == 0, "a file descriptor stays open");
  check_file(w, t);                  /* reading leaves the file alone */
  sx_observe("file size", vm_file_size(PATH));
  sx_cover("done");
}
/* parameters: writer, reader, nodes, depth, key length: arbitrary trees */
void h_c07_tree(void) {
  int w = (int)sx_param(0), q = (int)sx_param(1);
  sym_nodes = (int)sx_param(2); sym_nulls = 1;
  rt *t = sym_tree((int)sx_param(3), 3, (int)sx_param(4));
  rt *g = tree_no(1);
  for (int i = 0; i < t->n; i++) sx_assume(strcmp(t->e[i].k, "k") != 0);
  put(w, t, NULL);
  check_file(w, t);
  get(q, t, g);
  sx_cover("done");
}
/* parameters: elements, key length: sizes beyond any internal buffer; written and read by pairs */
void h_c07_big(void) {
  int n = (int)sx_param(0), l = (int)sx_param(1);
  kvtree *k = kvtree_new(), *r = kvtree_new();
  char *key = sx_alloc(l + 1);
  for (int i = 0; i < n; i++) {
    memset(key, 'q', l); int v = i; for (int j = 0; j < 6; j++) { key[j] = 'a' + v % 26; v /= 26; }
    kvtree_set(kvtree_set(k, key, kvtree_new()), "v", kvtree_new());
  }
  if (sx_concrete(sx_choose("locked", 2))) { sx_check(kvtree_write_with_lock(PATH, k) == KVTREE_SUCCESS, "write fails"); sx_check(kvtree_read_with_lock(PATH, r) == KVTREE_SUCCESS, "read fails"); }
  else { sx_check(kvtree_write_file(PATH, k) == KVTREE_SUCCESS, "write fails"); sx_check(kvtree_read_file(PATH, r) == KVTREE_SUCCESS, "read fails"); }
  sx_check(vm_file_size(PATH) == 24 + 4 + (size_t)n * (l + 1 + 4 + 2 + 4), "file size");
  size_t m = 0;
  for (kvtree_elem *e = kvtree_elem_first(r); e; e = kvtree_elem_next(e), m++)
    sx_check(strlen(kvtree_elem_key(e)) == (size_t)l && kvtree_size(kvtree_elem_hash(e)) == 1 && kvtree_elem_get(kvtree_elem_hash(e), "v") != NULL, "wrong element");
  sx_check(m == (size_t)n, "wrong number of elements");
  for (int i = 0; i < n; i += 1 + n / 7) {
    memset(key, 'q', l); int v = i; for (int j = 0; j < 6; j++) { key[j] = 'a' + v % 26; v /= 26; }
    sx_check(kvtree_get(r, key) != NULL, "missing key");
  }
  kvtree_delete(&k); kvtree_delete(&r);
  sx_cover("done");
}
/* parameters: smallest and largest exponent: file and packed sizes next to every power of two */
void h_c07_exact(void) {
  static const int off[] = { -1, 0, 1, 4, 19, 20, 21, 23, 24, 25 };
  int e = (int)sx_param(0) + (int)sx_concrete(sx_choose("power of two", (unsigned)(sx_param(1) - sx_param(0) + 1)));
  size_t l = ((size_t)1 << e) + (size_t)off[sx_concrete(sx_choose("offset", 10))] - 33;
  kvtree *k = kvtree_new(), *r = kvtree_new();
  char *key = sx_alloc(l + 1);
  for (size_t i = 0; i < l; i++) key[i] = (char)('a' + (i >> 3) % 25);
  key[l] = 0;
  kvtree_set(k, key, kvtree_new());
  int w = (int)sx_concrete(sx_choose("writer and reader", 3)), fd = -1;
  if (w == 0) { sx_check(kvtree_write_file(PATH, k) == KVTREE_SUCCESS, "write fails"); sx_check(kvtree_read_file(PATH, r) == KVTREE_SUCCESS, "read fails"); }
  else if (w == 1) { sx_check(kvtree_write_with_lock(PATH, k) == KVTREE_SUCCESS, "write fails"); sx_check(kvtree_read_with_lock(PATH, r) == KVTREE_SUCCESS, "read fails"); }
  else {
    kvtree *o = kvtree_new();
    sx_check(kvtree_lock_open_read(PATH, &fd, o) == KVTREE_SUCCESS && kvtree_write_close_unlock(PATH, &fd, k) == KVTREE_SUCCESS, "write fails");
    sx_check(kvtree_lock_open_read(PATH, &fd, r) == KVTREE_SUCCESS, "read fails"); kvtree_close_with_unlock(PATH, fd);
    kvtree_delete(&o);
  }
  sx_check(vm_file_size(PATH) == l + 33, "file size");
  kvtree_elem *x = kvtree_elem_first(r);
  sx_check(kvtree_size(r) == 1 && strlen(kvtree_elem_key(x)) == l && memcmp(kvtree_elem_key(x), key, l) == 0 && kvtree_size(kvtree_elem_hash(x)) == 0, "the tree read is another");
  kvtree_delete(&k); kvtree_delete(&r);
  sx_cover("done");
}
/* arbitrary tree read into an arbitrary target; parameters: writer, reader, nodes of the tree, of the target, key length */
void h_c07_merge(void) {
  int w = (int)sx_param(0), q = (int)sx_param(1);
  sym_nulls = 1; sym_nodes = (int)sx_param(2);
  rt *t = sym_tree(2, 2, (int)sx_param(4));
  sym_nodes = (int)sx_param(3);
  rt *g = sym_tree(2, 2, (int)sx_param(4));
  put(w, t, NULL);
  check_file(w, t);
  get(q, t, g);
  check_file(w, t);
  sx_cover("done");
}
/* the image prepared for writing; parameters: nodes, depth, key length */
void h_c07_persist(void) {
  long base = sx_live_allocs();
  sym_nulls = 1; sym_nodes = (int)sx_param(0);
  rt *t = sym_tree((int)sx_param(1), 3, (int)sx_param(2));
  kvtree *k = kv_of(t);
  void *b = NULL; size_t n = 99;
  sx_check(kvtree_write_persist(&b, &n, k) == KVTREE_SUCCESS && b != NULL, "kvtree_write_persist fails");
  sx_access(b, n, 0);
  rt *r = ref_file(b, n);
  sx_check(r != NULL && rt_eq(r, t) && kv_is_ordered(k, t), "the prepared image is not the documented form of the tree");
  sx_check(kvtree_write_file(PATH, k) == KVTREE_SUCCESS, "kvtree_write_file fails");
  sx_check(vm_file_size(PATH) == n && memcmp(vm_file_data(PATH), b, n) == 0, "the file differs from the prepared image");
  kvtree_free(&b); kvtree_delete(&k);
  sx_check_live(base, "everything is released");
  sx_cover("done");
}
/* several files and trees in turn: no state is kept between calls */
void h_c07_turns(void) {
  int n = (int)sx_param(0);
  char p[] = "/d/file0"; rt *h[3] = {0};
  for (int i = 0; i < n; i++) {
    int f = (int)sx_concrete(sx_choose("file", 2)), op = (int)sx_concrete(sx_choose("write or read", 4));
    p[7] = '0' + f;
    if (op < 2) {
      rt *t = rt_new(); char *k = sym_key(2, "key"); leaf(t, k); if (op) leaf(leaf(t, "much longer key than the others"), k);
      kvtree *x = kv_of(t);
      sx_check((i & 1 ? kvtree_write_with_lock(p, x) : kvtree_write_file(p, x)) == KVTREE_SUCCESS, "write fails");
      kvtree_delete(&x); h[f] = t;
    } else {
      kvtree *x = kvtree_new();
      int rc = op == 2 ? kvtree_read_file(p, x) : kvtree_read_with_lock(p, x);
      if (h[f]) sx_check(rc == KVTREE_SUCCESS && kv_is(x, h[f]), "reading yields the tree written last");
      else { sx_check((rc == KVTREE_SUCCESS) == (op == 3) && kvtree_size(x) == 0, "nothing was written yet"); if (op == 3) h[f] = NULL; }
      if (op == 3 && !h[f] && vm_file_exists(p)) { vm_file_remove(p); }
      kvtree_delete(&x);
    }
  }
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_cover("done");
}
