/* Native replay runtime: the engine interface over a recorded list of values.
 * The library, the harness and the file system / MPI models are linked as real
 * code (AddressSanitizer); only this file talks to the real C library. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <regex.h>
#include <getopt.h>
#include <time.h>
#include <sys/time.h>
#include <ucontext.h>
#ifdef NO_ASAN
#define __sanitizer_start_switch_fiber(a, b, c) ((void)0)
#define __sanitizer_finish_switch_fiber(a, b, c) ((void)0)
#else
#include <sanitizer/common_interface_defs.h>
#endif
#include "sx.h"
#include <zlib.h>
static uint64_t *vals; static size_t nvals, vi; static int64_t params_[64]; static int nparams;
static void bye(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static uint64_t next(void) { if (vi >= nvals) { printf("REPLAY-DIVERGED: more values requested than recorded\n"); bye(3); } return vals[vi++]; }
uint64_t sx_sym(const char *n, unsigned bits) { uint64_t v = next(); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
unsigned sx_choose(const char *n, unsigned k) { unsigned v = (unsigned)next(); if (v >= k) { printf("REPLAY-DIVERGED: choice %s out of range\n", n); bye(3); } return v; }
void sx_bytes(void *p, size_t n, const char *nm) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(); }
void sx_assume(int c) { if (!c) { printf("REPLAY-DIVERGED: assumption false\n"); bye(3); } }
void sx_check(int c, const char *m) { if (!c) { printf("REPLAY-VIOLATION: check failed: %s\n", m); bye(1); } }
void sx_fail(const char *m) { printf("REPLAY-VIOLATION: %s\n", m); bye(1); __builtin_unreachable(); }
void sx_incomplete(const char *m) { printf("REPLAY-DIVERGED: not modelled: %s\n", m); bye(3); __builtin_unreachable(); }
void sx_done(void) { printf("REPLAY-OK\n"); bye(0); __builtin_unreachable(); }
void sx_cover(const char *n) { }
uint64_t sx_concrete(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t v) { return 0; }
uint64_t sx_digit(uint64_t v, unsigned n, unsigned i) { while (++i < n) v /= 10; return v % 10; }
void sx_equate(uint64_t a, uint64_t b) { }
int64_t sx_param(int i) { return i < nparams ? params_[i] : 0; }
void sx_observe(const char *n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
void sx_access(const void *p, size_t n, int w) { volatile unsigned char *q = (volatile unsigned char *)p; if (!n) return; if (n > (1ul << 28)) n = 1ul << 28; for (size_t i = 0; i < n; i++) { unsigned char c = q[i]; if (w) q[i] = c; } }
uint64_t sx_crc32(uint64_t c, const void *p, unsigned n) { return crc32(c, p, n); }
void sx_strtod(const char *s, double *o, size_t *u) { char *e; *o = strtod(s, &e); *u = e - s; }
int sx_fmt_double(char *o, size_t c, const char *f, double v) { return snprintf(o, c, f, v); }
/* memory */
static long live; static int fill = 0xfe;
static void *cnt(void *p) { if (p) live++; return p; }
/* with VM_REUSE freed blocks are given out again, the last one first, as the C library does */
static int reuse; static struct { char *p; size_t n; } fr[64]; static int nfr;
#ifdef NO_ASAN
#define POISON(p, n)
#define UNPOISON(p, n)
#else
void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t);
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#endif
static size_t block_class(size_t n) { return n <= 24 ? 24 : ((n + 8 + 15) & ~15ul) - 8; }
static void *raw_malloc(size_t n) {
  if (!reuse) return malloc(n);
  size_t c = block_class(n);
  for (int i = nfr - 1; i >= 0; i--) if (fr[i].n == c) { char *p = fr[i].p; memmove(fr + i, fr + i + 1, (--nfr - i) * sizeof *fr); UNPOISON(p, c); return p; }
  return malloc(c);
}
static void raw_free(void *p) {
  size_t c = p && reuse ? malloc_usable_size(p) : 0;
  if (!c || block_class(c) != c) { free(p); return; }
  if (nfr == 64) { UNPOISON(fr[0].p, fr[0].n); free(fr[0].p); memmove(fr, fr + 1, --nfr * sizeof *fr); }
  fr[nfr].p = p; fr[nfr++].n = c; POISON(p, c);
}
void *sx_malloc(size_t n) { void *p = raw_malloc(n); if (p && fill >= 0 && n < (64u << 20)) memset(p, fill, n); return cnt(p); }
void *sx_calloc(size_t a, size_t b) { void *p = reuse ? raw_malloc(a * b) : calloc(a, b); if (p && reuse) memset(p, 0, a * b); return cnt(p); }
void *sx_realloc(void *p, size_t n) { if (reuse && p) { void *q = raw_malloc(n); size_t m = malloc_usable_size(p); if (q) { memcpy(q, p, m < n ? m : n); raw_free(p); } return q; } void *q = realloc(p, n); if (!p && q) live++; return q; }
void sx_free(void *p) { if (p) live--; raw_free(p); }
void *sx_alloc(size_t n) { void *p = calloc(1, n ? n : 1); if (!p) { printf("REPLAY-DIVERGED: out of memory\n"); bye(3); } return p; }
void sx_release(void *p) { free(p); }
long sx_live_allocs(void) { return live; }
void sx_check_live(long e, const char *m) { if (live != e) { printf("REPLAY-VIOLATION: check failed: %s (%ld live blocks, expected %ld)\n", m, live, e); bye(1); } }
#define VM_BIG (1ul << 31)
int vm_oom_now(void);
static int alloc_fails(size_t n) { if (vm_oom_now()) return 1; if (n >= (1ul << 46)) return 1; if (n > VM_BIG && sx_choose("allocation of more than 2 GiB fails", 2)) return 1; return 0; }
void *vm_malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return NULL; } return sx_malloc(n); }
#define NOMEM { errno = ENOMEM; return NULL; }
void *vm_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b || alloc_fails(a * b)) NOMEM return sx_calloc(a, b); }
void *vm_realloc(void *p, size_t n) { if (alloc_fails(n)) NOMEM return sx_realloc(p, n); }
void *vm_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) NOMEM return vm_realloc(p, a * b); }
void *vm_aligned_alloc(size_t a, size_t n) { return vm_malloc(n); }
void *vm_memalign(size_t a, size_t n) { return vm_malloc(n); }
int vm_posix_memalign(void **p, size_t a, size_t n) { void *q = vm_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
void vm_free(void *p) { sx_free(p); }
static char *dup_n(const char *s, size_t n) { char *p = sx_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *vm_strdup(const char *s) { if (vm_oom_now()) NOMEM return dup_n(s, strlen(s)); }
char *vm___strdup(const char *s) { if (vm_oom_now()) NOMEM return dup_n(s, strlen(s)); }
char *vm_strndup(const char *s, size_t n) { if (vm_oom_now()) NOMEM return dup_n(s, strnlen(s, n)); }
int vm_vasprintf(char **p, const char *f, va_list ap) { if (vm_oom_now()) { errno = ENOMEM; return -1; } int r = vasprintf(p, f, ap); live++; return r; }
int vm_asprintf(char **p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vm_vasprintf(p, f, ap); va_end(ap); return r; }
/* regular expressions: one counted block each */
int vm_regcomp(regex_t *r, const char *p, int f) { if (vm_oom_now()) return REG_ESPACE; int e = regcomp(r, p, f); if (!e) live++; return e; }
void vm_regfree(regex_t *r) { live--; regfree(r); }
/* output */
int vm_capture; char *vm_out; size_t vm_out_len; static size_t cap;
void vm_out_reset(void) { vm_out_len = 0; }
static void outb(const char *s, size_t n) {
  if (vm_out_len + n + 1 > cap) { cap = (vm_out_len + n + 1) * 2 + 256; vm_out = realloc(vm_out, cap); }
  memcpy(vm_out + vm_out_len, s, n); vm_out_len += n; vm_out[vm_out_len] = 0;
}
int vm_vfprintf(FILE *f, const char *fm, va_list ap) {
  char *p = NULL; int n = vasprintf(&p, fm, ap);
  if (n >= 0 && f == stdout && vm_capture) outb(p, n);
  free(p);
  return n;
}
int vm_fprintf(FILE *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vm_vfprintf(f, fm, ap); va_end(ap); return r; }
int vm_vprintf(const char *fm, va_list ap) { return vm_vfprintf(stdout, fm, ap); }
int vm_printf(const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vm_vfprintf(stdout, fm, ap); va_end(ap); return r; }
int vm_vdprintf(int fd, const char *fm, va_list ap) { return vm_vfprintf(fd == 1 ? stdout : stderr, fm, ap); }
int vm_dprintf(int fd, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vm_vdprintf(fd, fm, ap); va_end(ap); return r; }
int vm_fputs(const char *s, FILE *f) { if (f == stdout && vm_capture) outb(s, strlen(s)); return 1; }
int vm_puts(const char *s) { if (vm_capture) { outb(s, strlen(s)); outb("\n", 1); } return 1; }
int vm_fputc(int c, FILE *f) { char ch = (char)c; if (f == stdout && vm_capture) outb(&ch, 1); return (unsigned char)c; }
int vm_putc(int c, FILE *f) { return vm_fputc(c, f); }
int vm_putchar(int c) { return vm_fputc(c, stdout); }
size_t vm_fwrite(const void *p, size_t a, size_t b, FILE *f) { if (f == stdout && vm_capture) outb(p, a * b); return b; }
int vm_fflush(FILE *f) { return 0; }
void vm_perror(const char *s) { }
/* environment */
const char *vm_env_name, *vm_env_value; int vm_self(void); void vm_yield_point(const char *);
char *vm_getenv(const char *n) { if (vm_env_name && strcmp(n, vm_env_name) == 0) return (char *)vm_env_value; return NULL; }
char *vm_secure_getenv(const char *n) { return vm_getenv(n); }
int vm_gethostname(char *b, size_t n) { if (n < 2) return -1; b[0] = 'h'; b[1] = 0; return 0; }
pid_t vm_getpid(void) { return 100 + vm_self(); }
static long clk;
time_t vm_time(time_t *t) { clk++; if (t) *t = clk; return clk; }
int vm_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = ++clk; tv->tv_usec = 0; return 0; }
int vm_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = ++clk; t->tv_nsec = 0; return 0; }
int vm_usleep(unsigned u) { vm_yield_point("sleep"); return 0; }
unsigned vm_sleep(unsigned u) { vm_yield_point("sleep"); return 0; }
int vm_nanosleep(const struct timespec *a, struct timespec *b) { vm_yield_point("sleep"); return 0; }
int vm_sched_yield(void) { vm_yield_point("yield"); return 0; }
void vm_getopt_reset(void) { optind = 0; opterr = 0; }
/* threads */
#define STK (8u << 20)
static struct { ucontext_t c; void (*fn)(void *); void *arg; char *stk; void *fake; } TH[512];
static int nth = 1, curth; static const void *main_lo; static size_t main_sz;
static void tmain(int i) { const void *lo = ""; size_t sz = 0; __sanitizer_finish_switch_fiber(NULL, &lo, &sz); if (!main_lo) { main_lo = lo; main_sz = sz; } TH[i].fn(TH[i].arg); sx_fail("thread function returned"); }
int sx_thread_new(void (*fn)(void *), void *arg) {
  int i = nth++;
  if (i >= 512) { printf("REPLAY-DIVERGED: threads\n"); bye(3); }
  TH[i].fn = fn; TH[i].arg = arg; TH[i].stk = malloc(STK);
  getcontext(&TH[i].c); TH[i].c.uc_stack.ss_sp = TH[i].stk; TH[i].c.uc_stack.ss_size = STK; TH[i].c.uc_link = NULL;
  makecontext(&TH[i].c, (void (*)(void))tmain, 1, i);
  return i;
}
void sx_thread_switch(int t) {
  int me = curth;
  if (t == me) return;
  curth = t;
  __sanitizer_start_switch_fiber(&TH[me].fake, t ? TH[t].stk : main_lo, t ? STK : main_sz);
  swapcontext(&TH[me].c, &TH[t].c);
  __sanitizer_finish_switch_fiber(TH[me].fake, NULL, NULL);
}
int sx_thread_self(void) { return curth; }
void SX_ENTRY(void);
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  reuse = getenv("VM_REUSE") != NULL;
  if (argc > 2) fill = atoi(argv[2]);
  long n; unsigned long long v;
  if (!f || fscanf(f, "%ld", &n) != 1) { printf("REPLAY-DIVERGED: no case\n"); return 3; }
  for (long i = 0; i < n && i < 64; i++) { long long p; if (fscanf(f, "%lld", &p) == 1) params_[nparams++] = p; }
  vals = malloc(sizeof *vals * 1000000);
  while (nvals < 1000000 && fscanf(f, "%llu", &v) == 1) vals[nvals++] = v;
  fclose(f);
  SX_ENTRY();
  printf("REPLAY-OK\n");
  bye(0);
}
/* same algorithm as the engine's model, so that an inconsistent comparison behaves alike */
void vm_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base, *tmp = malloc(sz + 1);
  for (size_t i = 1; i < n; i++) {
    memcpy(tmp, b + i * sz, sz);
    size_t j = i;
    while (j > 0 && cmp(b + (j - 1) * sz, tmp) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
    memcpy(b + j * sz, tmp, sz);
  }
  free(tmp);
}
