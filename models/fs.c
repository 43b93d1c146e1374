/* In-memory POSIX file system with faults, crash points and locks. */
#define _GNU_SOURCE
#include "vm.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/uio.h>
#define MAXF 96
#define MAXD 16
#define MAXO 128
#define MAXL 8
#define PLEN 1200
struct lk { int kind, flk, ofd, pid; };          /* flk: 1 flock, 2 fcntl */
struct ino { int used, links, opens; unsigned char *d; size_t n, cap; mode_t mode; int noaccess; int rperr, wperr; long ver, sver; struct lk l[MAXL]; };
struct ofd { int used, ino, flags, pid, desc; size_t pos; };          /* desc: the open file description, shared by duplicates */
struct dirstream { int used, dir, i; struct dirent e; };
static struct ino I[MAXF];
static struct { int used, ino; char *name; } F[MAXF];
static struct ofd O[MAXO];
static char *D[MAXD]; static int nD;
unsigned vm_faults, vm_faulted; int vm_fault_budget, vm_faults_injected, vm_fault_rank = -1, vm_crash_armed, vm_require_locks;
const char *vm_fault_path; mode_t vm_umask_val = 022; int vm_umask_calls;
int vm_intr_errno, vm_lock_errno, vm_max_io;
int vm_syscalls, vm_opens, vm_reads, vm_writes, vm_dir_reverse;
static volatile int lock_event[336];
static int nwait, ndesc;

static char *dupn(const char *s) { size_t n = strlen(s) + 1; char *p = sx_alloc(n); memcpy(p, s, n); return p; }
/* one spelling per path: no "//", no "/./", no leading "./", no trailing "/" */
static void norm(const char *p, char *o) {
  size_t k = 0;
  if (*p == '/') { o[k++] = '/'; }
  while (*p) {
    while (*p == '/') p++;
    const char *e = p; while (*e && *e != '/') e++;
    size_t n = e - p;
    if (n == 0) break;
    if (n == 1 && p[0] == '.') { p = e; continue; }
    if (n == 2 && p[0] == '.' && p[1] == '.') sx_incomplete("path with ..");
    if (k && o[k - 1] != '/') o[k++] = '/';
    if (k + n + 2 > PLEN) sx_incomplete("path too long for the model");
    memcpy(o + k, p, n); k += n; p = e;
  }
  if (k == 0) o[k++] = '.';
  o[k] = 0;
}
static int find(const char *n) { for (int i = 0; i < MAXF; i++) if (F[i].used && strcmp(F[i].name, n) == 0) return i; return -1; }
static int finddir(const char *n) {
  if (nD == 0) { D[nD++] = dupn("/"); D[nD++] = dupn("."); D[nD++] = dupn("/d"); }
  for (int i = 0; i < nD; i++) if (strcmp(D[i], n) == 0) return i;
  return -1;
}
static void parent(const char *n, char *o) {
  const char *s = strrchr(n, '/');
  if (!s) { o[0] = '.'; o[1] = 0; return; }
  if (s == n) { o[0] = '/'; o[1] = 0; return; }
  memcpy(o, n, s - n); o[s - n] = 0;
}
static void cut(char *b, const char *n) { const char *s = strrchr(n, '/'); strcpy(b, s ? s + 1 : n); }
static void grow(struct ino *x, size_t n) {
  if (n <= x->cap) return;
  size_t c = n + n / 2 + 64;
  unsigned char *q = sx_alloc(c);                 /* zero filled */
  if (x->n) memcpy(q, x->d, x->n);
  if (x->d) sx_release(x->d);
  x->d = q; x->cap = c;
}
static int newino(mode_t mode) { for (int i = 0; i < MAXF; i++) if (!I[i].used) { memset(&I[i], 0, sizeof I[i]); I[i].used = 1; I[i].mode = mode; return i; } sx_incomplete("too many files"); }
static void unref(int i) { if (I[i].links == 0 && I[i].opens == 0) { if (I[i].d) sx_release(I[i].d); I[i].d = NULL; I[i].used = 0; } }
static int newname(const char *n, int ino) {
  for (int i = 0; i < MAXF; i++) if (!F[i].used) { F[i].used = 1; F[i].ino = ino; F[i].name = dupn(n); I[ino].links++; return i; }
  sx_incomplete("too many files");
}
static void rmname(int f) { int i = F[f].ino; sx_release(F[f].name); F[f].used = 0; I[i].links--; unref(i); }
static void resize(struct ino *x, size_t n) {
  if (n > x->n) { grow(x, n); memset(x->d + x->n, 0, n - x->n); }
  x->n = n; x->ver++;
}
/* ---- controls */
void vm_fs_reset(void) {
  for (int i = 0; i < MAXF; i++) if (F[i].used) rmname(i);
  vm_faults = 0; vm_faulted = 0; vm_fault_budget = 0; vm_faults_injected = 0; vm_crash_armed = 0; vm_require_locks = 0; vm_fault_path = NULL; vm_fault_rank = -1;
}
static struct ino *ino_of(const char *path) { char n[PLEN]; norm(path, n); int f = find(n); return f < 0 ? NULL : &I[F[f].ino]; }
int vm_file_set(const char *path, const void *data, size_t n, mode_t mode) {
  char nm[PLEN]; norm(path, nm);
  int f = find(nm);
  if (f < 0) f = newname(nm, newino(mode));
  struct ino *x = &I[F[f].ino];
  x->n = 0; grow(x, n); if (n) memcpy(x->d, data, n); x->n = n; x->mode = mode; x->ver++; x->sver = x->ver;
  return 0;
}
int vm_file_exists(const char *p) { return ino_of(p) != NULL; }
size_t vm_file_size(const char *p) { struct ino *x = ino_of(p); return x ? x->n : 0; }
const unsigned char *vm_file_data(const char *p) { struct ino *x = ino_of(p); return x ? x->d : NULL; }
mode_t vm_file_mode(const char *p) { struct ino *x = ino_of(p); return x ? x->mode : 0; }
void vm_file_remove(const char *p) { char n[PLEN]; norm(p, n); int f = find(n); if (f >= 0) rmname(f); }
void vm_file_truncate(const char *p, size_t n) { struct ino *x = ino_of(p); if (x) { resize(x, n); x->sver = x->ver; } }
int vm_file_synced(const char *p) { struct ino *x = ino_of(p); return x && x->ver == x->sver; }
int vm_file_count(void) { int c = 0; for (int i = 0; i < MAXF; i++) c += F[i].used; return c; }
const char *vm_file_name(int k) { for (int i = 0; i < MAXF; i++) if (F[i].used && k-- == 0) return F[i].name; return NULL; }
void vm_file_readable(const char *p, int ok) { struct ino *x = ino_of(p); if (x) x->noaccess = !ok; }
void vm_dir_add(const char *p) { char n[PLEN]; norm(p, n); finddir("/"); if (nD < MAXD) D[nD++] = dupn(n); }
int vm_open_fds(void) { int c = 0; for (int i = 0; i < MAXO; i++) c += O[i].used; return c; }
int vm_locks_held(void) { int c = 0; for (int i = 0; i < MAXF; i++) if (I[i].used) for (int k = 0; k < MAXL; k++) c += I[i].l[k].kind != 0; return c; }
static struct lk *mylock(struct ofd *o, int flk) {
  struct ino *x = &I[o->ino];
  for (int k = 0; k < MAXL; k++) if (x->l[k].kind && x->l[k].flk == flk && (flk == 1 ? O[x->l[k].ofd].desc == o->desc : x->l[k].pid == vm_self())) return &x->l[k];
  return NULL;
}
static int lockkind(struct ofd *o) {
  struct lk *a = mylock(o, 1), *b = mylock(o, 2);
  int k = a ? a->kind : 0;
  if (b && b->kind > k) k = b->kind;
  return k;
}
static struct ofd *ofd_of(int fd) { if (fd < 0 || fd >= MAXO || !O[fd].used || O[fd].pid != vm_self()) { errno = EBADF; return NULL; } return &O[fd]; }
int vm_lock_kind(int fd) { if (fd < 0 || fd >= MAXO || !O[fd].used) return 0; return lockkind(&O[fd]); }
/* ---- faults and crashes */
static int fault(unsigned kind, const char *what, int ino) {
  if (!(vm_faults & kind) || vm_fault_budget <= 0) return 0;
  if (vm_fault_rank >= 0 && vm_fault_rank != vm_mpi_rank()) return 0;
  if (vm_fault_path && (ino < 0 || ino_of(vm_fault_path) != &I[ino])) return 0;
  if (!sx_choose(what, 2)) return 0;
  vm_fault_budget--; vm_faults_injected++; vm_faulted |= kind;
  return 1;
}
/* the error code of a failing call is arbitrary */
static int anyerr(int intr) {
  int e = (int)sx_sym("error code", 8);
  sx_assume(e >= 1 && e <= 133);
  if (!intr) { sx_assume(e != EINTR); sx_assume(e != EAGAIN); }
  return e;
}
static void crash_here(const char *what) {
  if (!vm_crash_armed || vm_self() == 0) return;
  if (sx_choose(what, 2)) { vm_crash_armed = 0; vm_crash(); }
}
/* ---- locks */
static void wake(void) { for (int i = 0; i < 336; i++) lock_event[i] = 1; }
static int conflict(struct ino *x, int kind, struct ofd *o, int flk) {
  for (int k = 0; k < MAXL; k++) {
    struct lk *l = &x->l[k];
    if (!l->kind || l->flk != flk) continue;
    if (flk == 1 ? O[l->ofd].desc == o->desc : l->pid == vm_self()) continue;
    if (kind == 2 || l->kind == 2) return 1;
  }
  return 0;
}
static void dropl(struct lk *l) { l->kind = 0; wake(); }
static int setlock(struct ofd *o, int flk, int kind, int wait) {
  struct ino *x = &I[o->ino];
  struct lk *m = mylock(o, flk);
  if (kind == 0) { if (m) dropl(m); return 0; }
  if (m && m->kind == kind) return 0;
  if (m && flk == 1) { dropl(m); }                /* flock conversions are not atomic */
  while (conflict(x, kind, o, flk)) {
    if (!wait) { errno = EAGAIN; return -1; }
    int me = vm_self();
    lock_event[me] = 0;
    vm_block_on(&lock_event[me]);
  }
  m = mylock(o, flk);
  if (!m) for (int k = 0; k < MAXL; k++) if (!x->l[k].kind) { m = &x->l[k]; break; }
  if (!m) sx_incomplete("too many locks");
  m->kind = kind; m->flk = flk; m->ofd = (int)(o - O); m->pid = vm_self();
  return 0;
}
static void close_ofd(int fd) {
  struct ofd *o = &O[fd]; struct ino *x = &I[o->ino];
  struct lk *m;
  int other = 0;
  for (int i = 0; i < MAXO; i++) if (i != fd && O[i].used && O[i].desc == o->desc) other = i;
  for (int k = 0; k < MAXL && other; k++) { m = &x->l[k]; if (m->kind && m->flk == 1 && m->ofd == fd) m->ofd = other; }
  for (int k = 0; k < MAXL; k++) { m = &x->l[k]; if (m->kind && ((m->flk == 1 && m->ofd == fd) || (m->flk == 2 && m->pid == o->pid))) dropl(m); }
  o->used = 0; x->opens--;
  unref(o->ino);
}
/* another process inherits what is open (fork in another thread): it holds duplicates, whose positions the model keeps apart */
int vm_fork_armed, vm_forked;
static void fork_here(void) {
  if (!vm_fork_armed || !sx_choose("another process inherits the open descriptors", 2)) return;
  vm_fork_armed = 0; vm_forked = 1;
  for (int i = 0; i < MAXO / 2; i++) if (O[i].used) { int d = MAXO / 2 + i; O[d] = O[i]; O[d].pid = 99; I[O[d].ino].opens++; }
}
void vm_fork_end(void) { for (int i = MAXO / 2; i < MAXO; i++) if (O[i].used && O[i].pid == 99) close_ofd(i); }
void vm_fs_process_end(int pid) { for (int i = 0; i < MAXO; i++) if (O[i].used && O[i].pid == pid) close_ofd(i); }
/* ---- system calls */
static char *operr_name; static int operr;
static int sys_open(const char *path, int flags, mode_t mode) {
  char n[PLEN], par[PLEN];
  vm_syscalls++; vm_opens++;
  vm_yield_point("schedule at open");
  norm(path, n);
  crash_here("crash before open");
  int f = find(n);
  int acc = flags & O_ACCMODE;
  if (operr_name && strcmp(operr_name, n) == 0) { errno = operr; return -1; }
  if (fault(VM_OPEN_P, "open fails for good", f < 0 ? -1 : F[f].ino)) { operr_name = dupn(n); errno = operr = anyerr(1); return -1; }
  if (fault(VM_OPEN, "open fails once", f < 0 ? -1 : F[f].ino)) { errno = anyerr(1); return -1; }
  if (f < 0 && finddir(n) >= 0) { errno = EISDIR; if (acc == O_RDONLY && !(flags & O_CREAT)) sx_incomplete("open of a directory"); return -1; }
  if (f < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    parent(n, par);
    if (finddir(par) < 0) { errno = ENOENT; return -1; }
    f = newname(n, newino(mode & ~vm_umask_val & 07777));
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (I[F[f].ino].noaccess) { errno = EACCES; return -1; }
    if ((flags & O_TRUNC) && acc != O_RDONLY) {
      if (vm_require_locks && I[F[f].ino].n) sx_fail("file content truncated at open, before any lock is held");
      if (I[F[f].ino].n) resize(&I[F[f].ino], 0);
      I[F[f].ino].ver++;
    }
  }
  /* sx_param(15): the program runs without standard input, so descriptor 0 is free */
  for (int fd = sx_param(15) ? 0 : 3; fd < MAXO / 2; fd += fd ? 1 : 3) if (!O[fd].used) {
    O[fd].used = 1; O[fd].ino = F[f].ino; O[fd].flags = flags; O[fd].pid = vm_self(); O[fd].pos = 0; O[fd].desc = ++ndesc;
    I[F[f].ino].opens++;
    crash_here("crash after open");
    return fd;
  }
  errno = EMFILE;
  return -1;
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return sys_open(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return sys_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (d != AT_FDCWD) sx_incomplete("openat"); if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return sys_open(p, fl, m); }
int creat(const char *p, mode_t m) { return sys_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  vm_syscalls++;
  vm_yield_point("schedule at close"); fork_here();
  struct ofd *o = ofd_of(fd);
  if (!o) return -1;
  crash_here("crash before close");
  int f = fault(VM_CLOSE, "close reports an error", o->ino);
  close_ofd(fd);
  if (f) { errno = anyerr(1); return -1; }
  return 0;
}
static ssize_t do_read(struct ofd *o, void *buf, size_t n, size_t pos, int adv) {
  struct ino *x = &I[o->ino];
  vm_syscalls++; vm_reads++;
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (x->rperr) { errno = x->rperr; return -1; }
  if (fault(VM_READ_INTR, "read interrupted", o->ino)) { errno = vm_intr_errno ? vm_intr_errno : sx_choose("interrupted with EAGAIN", 2) ? EAGAIN : EINTR; return -1; }
  if (fault(VM_READ_ERR, "read fails once", o->ino)) { errno = anyerr(0); return -1; }
  if (fault(VM_READ_ERR_P, "read fails for good", o->ino)) { errno = x->rperr = anyerr(0); return -1; }
  if (vm_require_locks && lockkind(o) < 1) sx_fail("file content read without holding a lock");
  size_t av = pos < x->n ? x->n - pos : 0;
  size_t m = n < av ? n : av;
  if (m == 0) return 0;
  m = sx_concrete(m);
  if (vm_max_io && m > (size_t)vm_max_io) m = (size_t)vm_max_io;
  if (m > 1 && fault(VM_READ_SHORT, "short read", o->ino)) m = 1 + sx_concrete(sx_choose("bytes read", (unsigned)(m - 1)));
  memcpy(buf, x->d + pos, m);
  if (adv) o->pos = pos + m;
  return (ssize_t)m;
}
ssize_t read(int fd, void *buf, size_t n) { vm_yield_point("schedule at read"); fork_here(); struct ofd *o = ofd_of(fd); if (!o) return -1; return do_read(o, buf, n, o->pos, 1); }
ssize_t pread(int fd, void *buf, size_t n, off_t p) { vm_yield_point("schedule at read"); fork_here(); struct ofd *o = ofd_of(fd); if (!o) return -1; return do_read(o, buf, n, p, 0); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t p) { return pread(fd, buf, n, p); }
static ssize_t do_write(struct ofd *o, const void *buf, size_t n, size_t pos, int adv) {
  struct ino *x = &I[o->ino];
  vm_syscalls++; vm_writes++;
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  crash_here("crash before write");
  if (x->wperr) { errno = x->wperr; return -1; }
  if (fault(VM_WRITE_INTR, "write interrupted", o->ino)) { errno = vm_intr_errno ? vm_intr_errno : sx_choose("interrupted with EAGAIN", 2) ? EAGAIN : EINTR; return -1; }
  if (fault(VM_WRITE_ERR, "write fails once", o->ino)) { errno = anyerr(0); return -1; }
  if (fault(VM_WRITE_ERR_P, "write fails for good", o->ino)) { errno = x->wperr = anyerr(0); return -1; }
  if (fault(VM_WRITE_ZERO, "write transfers nothing", o->ino)) return 0;
  if (vm_require_locks && lockkind(o) < 2) sx_fail("file content written without holding the exclusive lock");
  if (o->flags & O_APPEND) pos = x->n;
  size_t m = sx_concrete(n);
  if (m == 0) return 0;
  if (vm_max_io && m > (size_t)vm_max_io) m = (size_t)vm_max_io;
  if (m > 1 && fault(VM_WRITE_SHORT, "short write", o->ino)) m = 1 + sx_concrete(sx_choose("bytes written", (unsigned)(m - 1)));
  int crash = 0;
  if (vm_crash_armed && vm_self() != 0 && sx_choose("crash during write", 2)) { crash = 1; m = sx_concrete(sx_choose("bytes written before the crash", (unsigned)m + 1)); }
  sx_access(buf, m, 0);
  if (pos + m > x->n) resize(x, pos + m);
  memcpy(x->d + pos, buf, m);
  x->ver++;
  if (o->flags & (O_SYNC | O_DSYNC)) x->sver = x->ver;
  if (adv) o->pos = pos + m;
  if (crash) { vm_crash_armed = 0; vm_crash(); }
  return (ssize_t)m;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (fd == 1 || fd == 2) return (ssize_t)n;
  vm_yield_point("schedule at write"); fork_here();
  struct ofd *o = ofd_of(fd); if (!o) return -1; return do_write(o, buf, n, o->pos, 1);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t p) { vm_yield_point("schedule at write"); fork_here(); struct ofd *o = ofd_of(fd); if (!o) return -1; return do_write(o, buf, n, p, 0); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t p) { return pwrite(fd, buf, n, p); }
ssize_t readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t lseek(int fd, off_t p, int wh) {
  vm_syscalls++;
  struct ofd *o = ofd_of(fd); if (!o) return -1;
  if (fault(VM_SEEK, "lseek fails", o->ino)) { errno = anyerr(1); return -1; }
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->pos : wh == SEEK_END ? (off_t)I[o->ino].n : -1;
  if (b < 0 || b + p < 0) { errno = EINVAL; return -1; }
  o->pos = b + p;
  return o->pos;
}
off64_t lseek64(int fd, off64_t p, int wh) { return lseek(fd, p, wh); }
int ftruncate(int fd, off_t n) {
  vm_syscalls++;
  vm_yield_point("schedule at truncate"); fork_here();
  struct ofd *o = ofd_of(fd); if (!o) return -1;
  if ((o->flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; }
  crash_here("crash before truncate");
  if (fault(VM_TRUNC, "ftruncate fails", o->ino)) { errno = anyerr(1); return -1; }
  if (vm_require_locks && lockkind(o) < 2) sx_fail("file truncated without holding the exclusive lock");
  if ((size_t)n > (8u << 20)) sx_incomplete("truncate to a large size");
  if ((size_t)n != I[o->ino].n) resize(&I[o->ino], n);
  return 0;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
  struct ino *x = ino_of(p);
  if (!x) { errno = ENOENT; return -1; }
  crash_here("crash before truncate");
  if (vm_require_locks) sx_fail("file truncated without holding the exclusive lock");
  resize(x, n);
  return 0;
}
int fsync(int fd) {
  vm_syscalls++;
  struct ofd *o = ofd_of(fd); if (!o) return -1;
  crash_here("crash before fsync");
  if (fault(VM_FSYNC, "fsync fails", o->ino)) { int e = anyerr(1); sx_assume(e != EINVAL); sx_assume(e != EROFS); errno = e; return -1; }
  I[o->ino].sver = I[o->ino].ver;
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int syncfs(int fd) { for (int i = 0; i < MAXF; i++) I[i].sver = I[i].ver; return 0; }
void sync(void) { syncfs(0); }
int flock(int fd, int op) {
  vm_syscalls++;
  vm_yield_point("schedule at flock"); fork_here();
  struct ofd *o = ofd_of(fd); if (!o) return -1;
  int kind = (op & ~LOCK_NB) == LOCK_EX ? 2 : (op & ~LOCK_NB) == LOCK_SH ? 1 : 0;
  crash_here("crash before flock");
  if (kind && fault(VM_LOCK, "locking fails", o->ino)) { errno = vm_lock_errno = anyerr(1); return -1; }
  if (!kind && fault(VM_UNLOCK, "unlocking fails", o->ino)) { errno = anyerr(1); return -1; }
  return setlock(o, 1, kind, !(op & LOCK_NB));
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  vm_syscalls++;
  vm_yield_point("schedule at fcntl"); fork_here();
  struct ofd *o = ofd_of(fd); if (!o) return -1;
  if (cmd == F_SETLK || cmd == F_SETLKW) {
    struct flock *l = arg;
    int kind = l->l_type == F_WRLCK ? 2 : l->l_type == F_RDLCK ? 1 : 0;
    crash_here("crash before fcntl");
    if (kind && fault(VM_LOCK, "locking fails", o->ino)) { errno = vm_lock_errno = anyerr(1); return -1; }
    if (!kind && fault(VM_UNLOCK, "unlocking fails", o->ino)) { errno = anyerr(1); return -1; }
    if (kind == 2 && (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (kind == 1 && (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (l->l_whence != SEEK_SET || l->l_start != 0 || l->l_len != 0) sx_incomplete("byte range locks");
    return setlock(o, 2, kind, cmd == F_SETLKW);
  }
  if (cmd == F_GETFD || cmd == F_SETFD) return 0;
  if (cmd == F_GETFL) return o->flags;
  sx_incomplete("fcntl command that is not modelled");
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap); return fcntl(fd, cmd, arg); }
int lockf(int fd, int cmd, off_t n) { sx_incomplete("lockf"); }
int access(const char *p, int m) {
  vm_syscalls++;
  char n[PLEN]; norm(p, n);
  if (finddir(n) >= 0) return 0;
  int f = find(n);
  if (f < 0) { errno = ENOENT; return -1; }
  if (fault(VM_ACCESS, "access fails", F[f].ino)) { errno = anyerr(1); return -1; }
  if (I[F[f].ino].noaccess && m != F_OK) { errno = EACCES; return -1; }
  return 0;
}
int euidaccess(const char *p, int m) { return access(p, m); }
int faccessat(int d, const char *p, int m, int fl) { if (d != AT_FDCWD) sx_incomplete("faccessat"); return access(p, m); }
mode_t umask(mode_t m) { mode_t o = vm_umask_val; vm_umask_val = m & 0777; vm_umask_calls++; return o; }
int unlink(const char *p) { char n[PLEN]; norm(p, n); vm_syscalls++; crash_here("crash before unlink"); int f = find(n); if (f < 0) { errno = ENOENT; return -1; } rmname(f); return 0; }
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) {
  char x[PLEN], y[PLEN]; norm(a, x); norm(b, y); vm_syscalls++;
  crash_here("crash before rename");
  int f = find(x); if (f < 0) { errno = ENOENT; return -1; }
  int g = find(y); if (g == f) return 0;
  if (g >= 0) rmname(g);
  sx_release(F[f].name); F[f].name = dupn(y);
  return 0;
}
static void fillst(struct stat *s, struct ino *x) { memset(s, 0, sizeof *s); s->st_size = x->n; s->st_mode = S_IFREG | x->mode; s->st_nlink = x->links; s->st_ino = x - I + 1; s->st_blksize = 4096; s->st_blocks = (x->n + 511) / 512; }
int fstat(int fd, struct stat *s) { struct ofd *o = ofd_of(fd); if (!o) return -1; fillst(s, &I[o->ino]); return 0; }
int stat(const char *p, struct stat *s) {
  struct ino *x = ino_of(p); char n[PLEN]; norm(p, n);
  if (!x && finddir(n) >= 0) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; return 0; }
  if (!x) { errno = ENOENT; return -1; }
  fillst(s, x); return 0;
}
int lstat(const char *p, struct stat *s) { return stat(p, s); }
int fchmod(int fd, mode_t m) { struct ofd *o = ofd_of(fd); if (!o) return -1; I[o->ino].mode = m & 07777; return 0; }
int chmod(const char *p, mode_t m) { struct ino *x = ino_of(p); if (!x) { errno = ENOENT; return -1; } x->mode = m & 07777; return 0; }
int mkdir(const char *p, mode_t m) { char n[PLEN]; norm(p, n); if (finddir(n) >= 0 || find(n) >= 0) { errno = EEXIST; return -1; } vm_dir_add(n); return 0; }
/* ---- directories */
DIR *opendir(const char *p) {
  char n[PLEN]; norm(p, n); vm_syscalls++;
  int d = finddir(n);
  if (d < 0) { errno = ENOENT; return NULL; }
  if (fault(VM_OPENDIR, "opendir fails", -1)) { errno = anyerr(1); return NULL; }
  struct dirstream *s = sx_malloc(sizeof *s);     /* counted: closedir must release it */
  memset(s, 0, sizeof *s);
  s->dir = d; s->i = -2;
  return (DIR *)s;
}
struct dirent *readdir(DIR *dp) {
  struct dirstream *s = (struct dirstream *)dp;
  char par[PLEN];
  for (;; s->i++) {
    if (s->i >= MAXF) return NULL;
    if (s->i < 0) { strcpy(s->e.d_name, s->i == -2 ? "." : ".."); s->e.d_type = DT_DIR; s->i++; return &s->e; }
    int i = vm_dir_reverse ? MAXF - 1 - s->i : s->i;
    if (!F[i].used) continue;
    parent(F[i].name, par);
    if (strcmp(par, D[s->dir]) != 0) continue;
    cut(s->e.d_name, F[i].name);
    s->e.d_type = DT_REG;
    s->i++;
    return &s->e;
  }
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) { sx_free(d); return 0; }
void rewinddir(DIR *d) { ((struct dirstream *)d)->i = -2; }
