/* C09: damaged files are detected. */
#include "h.h"
#define PATH "/d/file"
static unsigned char img[1500000];
static kvtree *k;
static int readit(int q) {
  int rc, fd = -7;
  if (q == 0) return kvtree_read_file(PATH, k);
  if (q == 1) return kvtree_read_with_lock(PATH, k);
  if (q == 2) { rc = kvtree_lock_open_read(PATH, &fd, k); if (fd >= 0) kvtree_close_with_unlock(PATH, fd); return rc; }
  fd = open(PATH, O_RDONLY);
  ssize_t n = kvtree_read_fd(PATH, fd, k);
  close(fd);
  return n < 0 ? KVTREE_FAILURE : KVTREE_SUCCESS;
}
static int reader = -1;
static void damaged(const rt *g) {
  k = kv_of(g);
  int q = reader >= 0 ? reader : (int)sx_concrete(sx_choose("reader", 4));
  sx_check(readit(q) != KVTREE_SUCCESS, "a damaged file is read with success");
  sx_check(kv_is(k, g), "a damaged file adds something to the caller's tree");
  kvtree_delete(&k);
  sx_cover("detected");
}
static size_t written(const rt *t, int locked) {
  kvtree *w = kv_of(t);
  if (locked) sx_check(kvtree_write_with_lock(PATH, w) == KVTREE_SUCCESS, "write fails");
  else sx_check(kvtree_write_file(PATH, w) == KVTREE_SUCCESS, "write fails");
  kvtree_delete(&w);
  size_t n = vm_file_size(PATH);
  if (n > sizeof img) sx_incomplete("file too large");
  memcpy(img, vm_file_data(PATH), n);
  return n;
}
/* parameters: tree; any burst of four bytes at any position */
static void burst(const rt *t) {
  size_t n = written(t, (int)sx_concrete(sx_choose("locked writer", 2)));
  size_t at = sx_concrete(sx_choose("position", (unsigned)(n - 3)));
  uint64_t m = sx_sym("burst", 32);
  sx_assume(m != 0);
  for (int i = 0; i < 4; i++) img[at + i] ^= (unsigned char)(m >> (8 * i));
  vm_file_set(PATH, img, n, 0644);
  damaged(tree_no(2));
}
void h_c09_burst(void) { burst(tree_no((int)sx_param(0))); }
/* parameters: key lengths; arbitrary characters */
void h_c09_burst_sym(void) {
  rt *t = rt_new(), *s = rt_put(t, sym_str((int)sx_param(0), "key"), rt_new());
  leaf(s, sym_str((int)sx_param(1), "sub key"));
  burst(t);
}
/* many elements, so that counts and sizes have more than one byte */
void h_c09_burst_wide(void) {
  int c = (int)sx_param(0);
  kvtree *w = kvtree_new();
  for (int i = 0; i < c; i++) { char b[3] = { (char)('A' + i / 26), (char)('a' + i % 26), 0 }; kvtree_set(w, b, NULL); }
  sx_check(kvtree_write_file(PATH, w) == KVTREE_SUCCESS, "write fails");
  kvtree_delete(&w);
  size_t n = vm_file_size(PATH);
  if (n > sizeof img) sx_incomplete("file too large");
  memcpy(img, vm_file_data(PATH), n);
  reader = 0;
  size_t at = 8 + sx_concrete(sx_choose("position", 17));
  uint64_t m = sx_sym("burst", 32);
  sx_assume(m != 0);
  for (int i = 0; i < 4; i++) img[at + i] ^= (unsigned char)(m >> (8 * i));
  vm_file_set(PATH, img, n, 0644);
  damaged(tree_no(2));
}
/* parameters: tree; any shorter non-empty length */
void h_c09_cut(void) {
  size_t n = written(tree_no((int)sx_param(0)), (int)sx_concrete(sx_choose("locked writer", 2)));
  size_t e = 1 + sx_concrete(sx_choose("length", (unsigned)(n - 1)));
  vm_file_truncate(PATH, e);
  damaged(tree_no(2));
}
/* parameters: elements, key length: large files, any burst at places all over the data; cut at places all over */
static size_t place(size_t n, int top) {
  static const size_t P[] = { 20, 255, 1023, 4090, 8190, 32767, 65530, 65535, 131070, 262143, 524287, 1048570, 1048575 };
  size_t c[20]; int m = 0;
  for (unsigned i = 0; i < sizeof P / sizeof *P; i++) if (P[i] + 8 < n) c[m++] = P[i];
  c[m++] = n / 2; c[m++] = n / 3 * 2; c[m++] = n - 9; c[m++] = n - 6; c[m++] = n - (top ? 1 : 4);
  return c[sx_concrete(sx_choose("position", m))];
}
void h_c09_far(void) {
  int c = (int)sx_param(0), l = (int)sx_param(1);
  kvtree *w = kvtree_new();
  char *b = sx_alloc(l + 1);
  for (int i = 0; i < c; i++) { memset(b, 'a' + i % 26, l); b[l] = 0; snprintf(b, 6, "%05d", i); b[5] = 'z'; kvtree_set(w, b, kvtree_new()); }
  int locked = (int)sx_concrete(sx_choose("locked writer", 2));
  sx_check((locked ? kvtree_write_with_lock(PATH, w) : kvtree_write_file(PATH, w)) == KVTREE_SUCCESS, "write fails");
  kvtree_delete(&w);
  size_t n = vm_file_size(PATH);
  if (n > sizeof img) sx_incomplete("file too large");
  memcpy(img, vm_file_data(PATH), n);
  reader = (int)sx_concrete(sx_choose("reader", 2));
  if (sx_concrete(sx_choose("cut", 2))) vm_file_truncate(PATH, place(n, 1));
  else {
    size_t at = place(n, 0);
    uint64_t m = sx_sym("burst", 32);
    sx_assume(m != 0);
    for (int i = 0; i < 4; i++) img[at + i] ^= (unsigned char)(m >> (8 * i));
    vm_file_set(PATH, img, n, 0644);
  }
  damaged(tree_no(2));
}
