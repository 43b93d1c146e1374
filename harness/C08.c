/* C08: reading any byte sequence is memory safe and all-or-nothing. */
#include "h.h"
#define PATH "/d/file"
static unsigned char img[512];
/* packed tree in p[*pos..n), any element count; merged into r; 0 when it is cut short */
static int parse(const unsigned char *p, size_t n, size_t *pos, rt *r) {
  if (n - *pos < 4) return 0;
  uint64_t c = be(p + *pos, 4);
  *pos += 4;
  for (uint64_t i = 0; i < c; i++) {
    size_t b = *pos;
    while (*pos < n && p[*pos]) (*pos)++;
    if (*pos >= n) return 0;
    (*pos)++;
    rt *t = rt_new();
    if (!parse(p, n, pos, t)) return 0;
    rt_merge(rt_sub(r, (const char *)p + b), t);
  }
  return 1;
}
/* reads the file with reader q; must succeed or fail cleanly; must: 0 must fail, 1 may succeed; r: what it adds then */
static int readit(int q, kvtree *k, int *empty) {
  int rc, fd = -7;
  ssize_t n;
  *empty = 0;
  if (q == 0) rc = kvtree_read_file(PATH, k);
  else if (q == 1) rc = kvtree_read_with_lock(PATH, k);
  else if (q == 2) {
    rc = kvtree_lock_open_read(PATH, &fd, k);
    sx_check(rc != KVTREE_SUCCESS || fd >= 0, "kvtree_lock_open_read succeeds without a descriptor");
    if (fd >= 0) kvtree_close_with_unlock(PATH, fd);
  } else {
    fd = open(PATH, O_RDONLY);
    n = kvtree_read_fd(PATH, fd, k);
    close(fd);
    rc = n < 0 ? KVTREE_FAILURE : KVTREE_SUCCESS;
    *empty = n == 0;
  }
  sx_check(vm_open_fds() == 0, "a file descriptor stays open");
  sx_check(vm_locks_held() == 0, "a lock stays held");
  return rc;
}
static void judge(int q, size_t n) {
  const unsigned char *p = vm_file_data(PATH);
  rt *g = tree_no(2);
  kvtree *k = kv_of(g);
  int empty, rc = readit(q, k, &empty);
  if (rc != KVTREE_SUCCESS) {
    sx_check(kv_is(k, g), "a failed read changes the caller's tree");
    sx_cover("refused");
  } else if (n == 0) {
    sx_check(kv_is(k, g), "reading an empty file changes the tree");
    sx_cover("empty");
  } else {
    sx_check(n >= 24, "a file too short for a header and a tree is accepted");
    sx_check(be(p, 4) == 0x951fc3f5, "wrong magic number is accepted");
    sx_check(be(p + 4, 2) == 1, "wrong file type is accepted");
    sx_check(be(p + 6, 2) == 1, "wrong file version is accepted");
    uint64_t fs = be(p + 8, 8);
    sx_check(fs >= 24 && fs <= n, "an impossible size field is accepted");
    fs = sx_concrete(fs);
    size_t e = fs, pos = 20;
    if (be(p + 16, 4) & 1) {
      sx_check(fs >= 28, "a file without room for its checksum is accepted");
      e = fs - 4;
      sx_check(be(p + e, 4) == (uint32_t)sx_crc32(0, p, (unsigned)e), "a wrong checksum is accepted");
      sx_cover("accepted, checksum");
    } else sx_cover("accepted, no checksum");
    sx_check(parse(p, e, &pos, g), "data that is cut short is accepted");
    sx_check(kv_is(k, g), "the tree read is not the tree in the file");
  }
  kvtree_delete(&k);
  sx_check(vm_file_size(PATH) == n, "reading changes the file");
}
/* parameters: reader, file length: every byte arbitrary */
void h_c08_bytes(void) {
  size_t n = (size_t)sx_param(1);
  sx_bytes(img, n, "file");
  vm_file_set(PATH, img, n, 0644);
  judge((int)sx_param(0), n);
}
/* parameters: reader, bytes after the header, flags (-1: arbitrary without checksum): valid magic, type, version; arbitrary size field and body */
void h_c08_body(void) {
  size_t m = (size_t)sx_param(1), n = 20 + m;
  put_be(img, 0x951fc3f5, 4); put_be(img + 4, 1, 2); put_be(img + 6, 1, 2);
  sx_bytes(img + 8, 8, "size field");
  if (sx_param(2) < 0) { sx_bytes(img + 16, 4, "flags"); sx_assume((img[19] & 1) == 0); } else put_be(img + 16, sx_param(2), 4);
  sx_bytes(img + 20, m, "body");
  if (sx_param(3)) {                 /* a checksum that fits the size field, when it is small enough */
    uint64_t fs = sx_concrete(sx_choose("size", (unsigned)n + 8));
    put_be(img + 8, fs, 8);
    if (fs >= 24 && fs <= n) { uint32_t c = (uint32_t)sx_crc32(0, img, (unsigned)fs - 4); put_be(img + fs - 4, c, 4); }
    else if (fs >= 20 && fs <= n) { uint32_t c = (uint32_t)sx_crc32(0, img, (unsigned)fs - 4); for (int i = 0; i < 4; i++) sx_assume(img[fs - 4 + i] == (unsigned char)(c >> (24 - 8 * i))); }
  }
  vm_file_set(PATH, img, n, 0644);
  judge((int)sx_param(0), n);
}
/* parameters: reader; damaged structure with a correct checksum: a count, a terminator or a cut of a real image */
void h_c08_struct(void) {
  rt *t = tree_no(3 + (int)sx_concrete(sx_choose("tree", 5)));
  size_t n = ref_image(img, t);
  unsigned at = 20 + (unsigned)sx_concrete(sx_choose("position", (unsigned)(n - 24)));
  sx_bytes(img + at, 1, "new byte");
  size_t e = n;
  if (sx_choose("shorter", 2)) { e = 20 + sx_concrete(sx_choose("length", (unsigned)(n - 20))); }
  int flags = (int)sx_concrete(sx_choose("checksum", 2));
  put_be(img + 8, e, 8); put_be(img + 16, flags, 4);
  if (flags && e >= 24) { uint32_t c = (uint32_t)sx_crc32(0, img, (unsigned)e - 4); put_be(img + e - 4, c, 4); }
  vm_file_set(PATH, img, e, 0644);
  judge((int)sx_param(0), e);
}
/* a file that claims an enormous size, with everything else in order */
void h_c08_huge(void) {
  size_t n = ref_image(img, tree_no(4));
  uint64_t fs = sx_sym("size field", 64);
  sx_assume(fs > n);
  put_be(img + 8, fs, 8);
  vm_file_set(PATH, img, n, 0644);
  judge((int)sx_concrete(sx_choose("reader", 4)), n);
}
