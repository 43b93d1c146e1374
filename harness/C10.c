/* C10: success is reported only when every byte was transferred. */
#include "h.h"
#define PATH "/d/file"
/* faults the library must overcome, faults that must make the operation fail, and faults that leave both open */
#define SOFT (VM_READ_SHORT | VM_READ_INTR | VM_WRITE_SHORT | VM_WRITE_INTR)
#define HARD (VM_WRITE_ERR_P | VM_READ_ERR_P | VM_OPEN_P | VM_WRITE_ZERO | VM_LOCK | VM_SEEK | VM_TRUNC)
static unsigned char img[4096], old[4096];
static size_t ni, no_;
static int is_mix(size_t k, size_t upto) {                 /* file = new image up to k, then what was there before */
  size_t n = vm_file_size(PATH); const unsigned char *p = vm_file_data(PATH);
  size_t m = k > upto ? k : upto;
  return n == m && memcmp(p, img, k) == 0 && (m == k || memcmp(p + k, old + k, m - k) == 0);
}
static int some_mix(size_t oldn) { int ok = 0; for (size_t k = 0; k <= ni; k++) ok |= is_mix(k, oldn); return ok; }
static int any_fd(const rt *t, int flags) { unsigned f = vm_faults; vm_faults = 0; int fd = open(PATH, flags, 0644); vm_faults = f; return fd; }
static kvtree *sub(kvtree *k, const char *s) { kvtree *c = kvtree_get(k, s); return c ? c : kvtree_set(k, s, kvtree_new()); }
static void cap(int i) { if (sx_param(i) > 0) vm_max_io = 1 + (int)sx_concrete(sx_choose("bytes per transfer at most", (unsigned)sx_param(i))); }
/* parameters: writer, faults, budget, old content, tree (negative: arbitrary keys), 0, bytes per transfer at most */
void h_c10_write(void) {
  int w = (int)sx_param(0); unsigned kinds = (unsigned)sx_param(1); int budget = (int)sx_param(2);
  rt *o = tree_no((int)sx_param(3)), *t;
  if (sx_param(4) >= 0) t = tree_no((int)sx_param(4));
  else { t = rt_new(); leaf(rt_put(t, sym_str(1, "key"), rt_new()), sym_str(2, "key")); }
  ni = ref_image(img, t); no_ = 0;
  if (sx_param(3) >= 0) { no_ = ref_image(old, o); vm_file_set(PATH, old, no_, 0644); }
  kvtree *k = kv_of(t), *r = kvtree_new();
  int fd = -1, ok, opened = 1;
  size_t base = w == 1 || w == 2 ? no_ : 0;
  if (w == 2) { if (kvtree_lock_open_read(PATH, &fd, r) != KVTREE_SUCCESS) sx_fail("open fails without a fault"); }
  if (w == 3) fd = open(PATH, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (w == 4) { fd = open(PATH, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
  vm_faults = kinds; vm_fault_budget = budget; cap(6);
  vm_intr_errno = sx_param(5) ? (sx_concrete(sx_choose("EAGAIN", 2)) ? EAGAIN : EINTR) : 0;
  switch (w) {
  case 0: ok = kvtree_write_file(PATH, k) == KVTREE_SUCCESS; break;
  case 1: ok = kvtree_write_with_lock(PATH, k) == KVTREE_SUCCESS; break;
  case 2: ok = kvtree_write_close_unlock(PATH, &fd, k) == KVTREE_SUCCESS; break;
  case 3: { ssize_t n = kvtree_write_fd(PATH, fd, k); ok = n >= 0; if (ok) sx_check((size_t)n == ni, "kvtree_write_fd returns another number of bytes than written"); } break;
  default: { ssize_t n = kvtree_write_attempt(PATH, fd, img, ni); ok = n >= 0; if (ok) sx_check((size_t)n == ni, "kvtree_write_attempt returns another number of bytes than written"); } break;
  }
  vm_faults = 0;
  if (w == 3 || w == 4) close(fd);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_check(vm_locks_held() == 0, "a lock stays held");
  sx_check(kv_is(k, t), "writing changes the tree");
  if (vm_faulted & HARD) sx_check(!ok, "success is reported although the write could not be completed");
  if (w != 3 && w != 4 && (vm_faulted & VM_CLOSE)) sx_check(!ok, "success is reported although closing the file failed");
  if (w != 3 && w != 4 && (vm_faulted & VM_FSYNC)) sx_check(!ok, "success is reported although the bytes could not be flushed");
  if ((vm_faulted & ~(SOFT | VM_OPEN)) == 0) sx_check(ok, "failure is reported although every fault was transient");
  if (ok) {
    size_t n = vm_file_size(PATH);
    sx_check(w == 1 ? n >= ni : n == ni, "success is reported with a wrong file length");
    sx_check(memcmp(vm_file_data(PATH), img, ni) == 0, "success is reported with wrong bytes in the file");
    sx_cover("success");
    if (vm_faults_injected) sx_cover("success after faults");
  } else {
    if (vm_faulted & (VM_OPEN_P | VM_LOCK)) {
      if (vm_file_exists(PATH) && !(w == 0)) sx_check(is_mix(0, no_), "a failed operation changes the file");
    }
    if (vm_file_exists(PATH)) {
      int m = some_mix(base);
      if (w == 0) m |= is_mix(0, no_);                    /* not opened: previous content */
      if (w == 2) m |= is_mix(ni, ni);                    /* complete and truncated, only the close failed */
      sx_check(m, "a failed write leaves lost, duplicated or reordered bytes");
    }
    sx_cover("failure");
  }
}
/* parameters: reader, faults, budget, tree, target */
void h_c10_read(void) {
  int q = (int)sx_param(0); unsigned kinds = (unsigned)sx_param(1); int budget = (int)sx_param(2);
  rt *t, *g = tree_no((int)sx_param(4));
  if (sx_param(3) >= 0) t = tree_no((int)sx_param(3));
  else { t = rt_new(); leaf(rt_put(t, sym_str(1, "key"), rt_new()), sym_str(2, "key")); }
  ni = ref_image(img, t); vm_file_set(PATH, img, ni, 0644);
  kvtree *k = kv_of(g);
  rt *e = rt_copy(g); rt_merge(e, t);
  int fd = -1, ok;
  if (q == 3 || q == 4) fd = open(PATH, O_RDONLY);
  vm_faults = kinds; vm_fault_budget = budget; cap(6);
  vm_intr_errno = sx_param(5) ? (sx_concrete(sx_choose("EAGAIN", 2)) ? EAGAIN : EINTR) : 0;
  switch (q) {
  case 0: ok = kvtree_read_file(PATH, k) == KVTREE_SUCCESS; break;
  case 1: ok = kvtree_read_with_lock(PATH, k) == KVTREE_SUCCESS; break;
  case 2: ok = kvtree_lock_open_read(PATH, &fd, k) == KVTREE_SUCCESS; vm_faults = 0;
    sx_check(ok == (fd >= 0), "kvtree_lock_open_read: status and descriptor disagree");
    if (ok) { sx_check(vm_lock_kind(fd) == 2, "kvtree_lock_open_read succeeds without the exclusive lock"); kvtree_close_with_unlock(PATH, fd); }
    break;
  case 3: ok = kvtree_read_fd(PATH, fd, k) >= 0; break;
  default: { unsigned char *b = sx_alloc(ni + 8); memset(b, 0x77, ni + 8); size_t want = ni - 5 + sx_concrete(sx_choose("size", 4)) * 3;
    ssize_t n = kvtree_read_attempt(PATH, fd, b, want);
    size_t m = want < ni ? want : ni;
    ok = n >= 0;
    if (ok) { sx_check((size_t)n == m, "kvtree_read_attempt returns a wrong number of bytes"); sx_check(memcmp(b, img, m) == 0, "kvtree_read_attempt delivers wrong bytes"); }
    for (size_t i = m; i < ni + 8; i++) sx_check(b[i] == 0x77, "kvtree_read_attempt writes behind the data");
    } break;
  }
  vm_faults = 0;
  if (q == 3 || q == 4) close(fd);
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_check(vm_locks_held() == 0, "a lock stays held");
  sx_check(vm_file_size(PATH) == ni && memcmp(vm_file_data(PATH), img, ni) == 0, "reading changes the file");
  if (vm_faulted & HARD) sx_check(!ok, "success is reported although the read could not be completed");
  if ((vm_faulted & ~(SOFT | VM_OPEN)) == 0) sx_check(ok, "failure is reported although every fault was transient");
  if (q != 4) {
    if (ok) sx_check(kv_is(k, e), "success is reported with a wrong tree");
    else sx_check(kv_is(k, g) | ((vm_faulted & (VM_CLOSE | VM_UNLOCK | VM_FSYNC)) && kv_is(k, e)), "a failed read changes the caller's tree");
  }
  sx_cover(ok ? vm_faults_injected ? "success after faults" : "success" : "failure");
}
/* every operation on a file that cannot be opened, or whose directory does not exist */
void h_c10_missing(void) {
  kvtree *k = kv_of(tree_no(2)), *r = kv_of(tree_no(1));
  int fd = -5;
  switch (sx_concrete(sx_choose("operation", 7))) {
  case 0: sx_check(kvtree_write_file("/nowhere/f", k) != KVTREE_SUCCESS, "write to a missing directory succeeds"); break;
  case 1: sx_check(kvtree_write_with_lock("/nowhere/f", k) != KVTREE_SUCCESS, "write to a missing directory succeeds"); break;
  case 2: sx_check(kvtree_read_file("/d/none", r) != KVTREE_SUCCESS, "reading a missing file succeeds"); break;
  case 3: sx_check(kvtree_read_with_lock("/nowhere/f", r) != KVTREE_SUCCESS, "reading in a missing directory succeeds"); break;
  case 4: sx_check(kvtree_lock_open_read("/nowhere/f", &fd, r) != KVTREE_SUCCESS && fd < 0, "opening in a missing directory succeeds"); break;
  case 5: sx_check(kvtree_open("/d/none", O_RDONLY) < 0, "opening a missing file succeeds"); break;
  default: vm_file_set(PATH, "abc", 3, 0); vm_file_readable(PATH, 0); sx_check(kvtree_read_file(PATH, r) != KVTREE_SUCCESS && kvtree_write_file(PATH, k) != KVTREE_SUCCESS && kvtree_read_with_lock(PATH, r) != KVTREE_SUCCESS && kvtree_lock_open_read(PATH, &fd, r) != KVTREE_SUCCESS, "access to a file without permission succeeds"); break;
  }
  sx_check(kv_is(r, tree_no(1)), "a failed read changes the tree");
  sx_check(!vm_file_exists("/d/none"), "reading creates a file");
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
  sx_cover("done");
}
/* parameters: ranks, entries per file, faults, budget: serial gather writer and reader */
void h_c10_gather(void) {
  int n = (int)sx_param(0); rt *e = rt_new();
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = sx_param(1) == 1 ? "1" : "2";
  kvtree *t = kvtree_new(), *r = kvtree_new();
  for (int i = 0; i < n; i++) { char b[2] = { '0' + i, 0 }; rt *s = rt_put(e, b, tree_no(1)); kvtree_set(t, b, kv_of(s)); }
  if (sx_param(4)) sx_check(kvtree_write_to_gather("/d/pre", t, n) == KVTREE_SUCCESS, "fails without a fault");
  vm_faults = (unsigned)sx_param(2); vm_fault_budget = (int)sx_param(3); cap(5);
  if (!sx_param(4)) {
    int ok = kvtree_write_to_gather("/d/pre", t, n) == KVTREE_SUCCESS;
    vm_faults = 0;
    if (vm_faulted & (HARD | VM_CLOSE | VM_FSYNC)) sx_check(!ok, "success is reported although a file is not complete");
    if ((vm_faulted & ~(SOFT | VM_OPEN)) == 0) sx_check(ok, "failure is reported although every fault was transient");
    for (int i = 0; ok && i < vm_file_count(); i++) sx_check(ref_file(vm_file_data(vm_file_name(i)), vm_file_size(vm_file_name(i))) != NULL, "success is reported although a file is not complete");
    sx_cover(ok ? "success" : "failure");
    if (ok) { sx_check(kvtree_read_scatter_single("/d/pre", r) == KVTREE_SUCCESS, "written files cannot be read"); sx_check(kv_is(r, e), "written files hold other data"); }
  } else {
    int ok = kvtree_read_scatter_single("/d/pre", r) == KVTREE_SUCCESS;
    vm_faults = 0;
    if (vm_faulted & (HARD | VM_OPENDIR)) sx_check(!ok, "success is reported although a file could not be read");
    if ((vm_faulted & ~(SOFT | VM_OPEN)) == 0) sx_check(ok, "failure is reported although every fault was transient");
    if (ok) sx_check(kv_is(r, e), "success is reported with a wrong tree");
    sx_cover(ok ? "success" : "failure");
  }
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
}
