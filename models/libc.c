/* C library model: everything the library may call besides raw byte copies.
 * Compiled to LLVM IR for the engine and natively (symbols renamed) for replay. */
#define _GNU_SOURCE
#include "softfp.h"
#include "vm.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <regex.h>
#include <getopt.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>

typedef unsigned char u8;
static int vm_errno_v;
int *__errno_location(void) { return &vm_errno_v; }

/* ---------------- memory */
#define VM_BIG (1ul << 31)
static int alloc_fails(size_t n) {
  if (vm_oom_now()) return 1;
  if (n >= (1ul << 46)) return 1;                     /* larger than any address space */
  if (n > VM_BIG && sx_choose("allocation of more than 2 GiB fails", 2)) return 1;
  return 0;
}
void *malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return NULL; } return sx_malloc(n); }
void *calloc(size_t a, size_t b) { if ((b && a > SIZE_MAX / b) || alloc_fails(a * b)) { errno = ENOMEM; return NULL; } return sx_calloc(a, b); }
void *realloc(void *p, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return NULL; } return sx_realloc(p, n); }
void *aligned_alloc(size_t a, size_t n) { return malloc(n); }
void *memalign(size_t a, size_t n) { return malloc(n); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
void *reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } return realloc(p, a * b); }
void free(void *p) { sx_free(p); }
#define OOM if (vm_oom_now()) { errno = ENOMEM; return NULL; }
char *strdup(const char *s) { OOM size_t n = strlen(s) + 1; char *p = sx_malloc(n); memcpy(p, s, n); return p; }
char *__strdup(const char *s) { return strdup(s); }
char *strndup(const char *s, size_t m) { OOM size_t n = strnlen(s, m); char *p = sx_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

/* ---------------- strings */
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), m = strnlen(s, n); memcpy(d + l, s, m); d[l + m] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
size_t sx_scan(const void *p, int c, size_t n);            /* number of bytes before the first c, at most n */
void *memchr(const void *p, int c, size_t n) {
  const u8 *s = p;
  if (!sx_is_symbolic(n) && !sx_is_symbolic(c)) { size_t i = sx_scan(p, c, n); return i < n ? (void *)(s + i) : NULL; }
  for (size_t i = 0; i < n; i++) if (s[i] == (u8)c) return (void *)(s + i);
  return NULL;
}
void *memrchr(const void *p, int c, size_t n) { const u8 *s = p; while (n--) if (s[n] == (u8)c) return (void *)(s + n); return NULL; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
int ffs(int v) { for (int i = 0; i < 32; i++) if ((unsigned)v >> i & 1) return i + 1; return 0; }
int ffsl(long v) { for (int i = 0; i < 64; i++) if ((unsigned long)v >> i & 1) return i + 1; return 0; }
int ffsll(long long v) { return ffsl(v); }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (strncasecmp(h, n, l) == 0) return (char *)h; if (!*h) return NULL; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return NULL; } }
char *strtok_r(char *s, const char *d, char **save) {
  if (!s) s = *save;
  if (!s) return NULL;
  s += strspn(s, d);
  if (!*s) { *save = s; return NULL; }
  char *e = s + strcspn(s, d);
  if (*e) { *e = 0; *save = e + 1; } else *save = e;
  return s;
}
char *__strtok_r(char *s, const char *d, char **save) { return strtok_r(s, d, save); }
static char *tok_save;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_save); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return NULL; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { c = lc(c); return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (lc(c) >= 'a' && lc(c) <= 'f'); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lc((u8)*a), y = lc((u8)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = lc((u8)*a), y = lc((u8)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t m = l < n ? l : n - 1; memcpy(d, s, m); d[m] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
char *stpncpy(char *d, const char *s, size_t n) { size_t m = strnlen(s, n); memcpy(d, s, m); if (n > m) memset(d + m, 0, n - m); return d + m; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *rawmemchr(const void *p, int c) { const u8 *s = p; while (*s != (u8)c) s++; return (void *)s; }
void *memccpy(void *d, const void *s, int c, size_t n) { u8 *x = d; const u8 *y = s; for (size_t i = 0; i < n; i++) { x[i] = y[i]; if (y[i] == (u8)c) return x + i + 1; } return NULL; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const u8 *p = h; for (size_t i = 0; i + nn <= hn; i++) if (memcmp(p + i, n, nn) == 0) return (void *)(p + i); return NULL; }
static unsigned short ctype_tab[384]; static int ctype_init;
const unsigned short **__ctype_b_loc(void) {
  static const unsigned short *p;
  if (!ctype_init) {
    ctype_init = 1;
    for (int i = 0; i < 256; i++) {
      unsigned short f = 0;
      if (isupper(i)) f |= 1 << 8; if (islower(i)) f |= 1 << 9; if (isalpha(i)) f |= 1 << 10; if (isdigit(i)) f |= 1 << 11;
      if (isxdigit(i)) f |= 1 << 12; if (isspace(i)) f |= 1 << 13; if (isprint(i)) f |= 1 << 14; if (i > 32 && i < 127) f |= 1 << 15;
      if (ispunct(i)) f |= 1 << 2; if (isalnum(i)) f |= 1 << 3;
      ctype_tab[128 + i] = f;
    }
    p = ctype_tab + 128;
  }
  return &p;
}
char *strerror(int e) { static char m[] = "error"; return m; }
char *__xpg_strerror_r(int e, char *b, size_t n) { return b; }

uint32_t d_htonl(uint32_t v) __asm__("htonl"); uint32_t d_htonl(uint32_t v) { return __builtin_bswap32(v); }
uint32_t d_ntohl(uint32_t v) __asm__("ntohl"); uint32_t d_ntohl(uint32_t v) { return __builtin_bswap32(v); }
uint16_t d_htons(uint16_t v) __asm__("htons"); uint16_t d_htons(uint16_t v) { return __builtin_bswap16(v); }
uint16_t d_ntohs(uint16_t v) __asm__("ntohs"); uint16_t d_ntohs(uint16_t v) { return __builtin_bswap16(v); }
/* ---------------- numbers */
/* Value of a digit in the base or -1; without branches, so that the digits of a
 * symbolic number stay one expression each. */
static unsigned alpha_val(unsigned c) { unsigned d = c - '0', l = (c | 32) - 'a'; return (d <= 9) * d + (l <= 25) * (l + 10) + ((d > 9) & (l > 25)) * 99; }
static int digit(int c, int base) {
  if (base <= 10) { unsigned d = (unsigned)c - '0'; return d < (unsigned)base ? (int)d : -1; }
  unsigned d = alpha_val((unsigned)c & 255);
  return d < (unsigned)base ? (int)d : -1;
}
/* value of n digits; the only place where digits are put together, so that the value of
 * a rendered number is recognised when it is parsed */
__attribute__((noinline)) static uint64_t horner(const char *p, int n, int base) {
  uint64_t a = 0;
  for (int i = 0; i < n; i++) a = a * (uint64_t)base + (uint64_t)(unsigned)(base <= 10 ? (u8)p[i] - '0' : alpha_val((u8)p[i]));
  return a;
}
static uint64_t parse_mag(const char *s, const char **end, int *neg, int base, int *over, int *any) {
  const char *p = s;
  while (isspace((u8)*p)) p++;
  *neg = 0; *over = 0; *any = 0;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digit((u8)p[2], 16) >= 0) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  const char *b = p;
  while (digit((u8)*p, base) >= 0) p++;
  *any = p > b;
  *end = *any ? p : s;
  while (b < p && *b == '0') b++;                       /* leading zeros do not count */
  int n = (int)(p - b);
  if (base == 10) {
    if (n <= 19) return horner(b, n, 10);
    if (n > 20 || *b != '1') { *over = 1; return 0; }
    uint64_t low = horner(b + 1, 19, 10);
    if (low > 8446744073709551615ul) { *over = 1; return 0; }
    return 10000000000000000000ul + low;
  }
  if (base == 16) { if (n > 16) { *over = 1; return 0; } return horner(b, n, 16); }
  uint64_t acc = 0;
  for (; b < p; b++) {
    unsigned d = (unsigned)digit((u8)*b, base);
    if (acc > (UINT64_MAX - d) / (unsigned)base) *over = 1;
    acc = acc * (unsigned)base + d;
  }
  return acc;
}
static unsigned long m_strtoul(const char *s, char **e, int base) {
  const char *end; int neg, over, any;
  uint64_t m = parse_mag(s, &end, &neg, base, &over, &any);
  if (e) *e = (char *)end;
  if (over) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - m : m;
}
static long m_strtol(const char *s, char **e, int base) {
  const char *end; int neg, over, any;
  uint64_t m = parse_mag(s, &end, &neg, base, &over, &any);
  if (e) *e = (char *)end;
  if (neg) { if (over || m > (uint64_t)LONG_MAX + 1) { errno = ERANGE; return LONG_MIN; } return (long)(0 - m); }
  if (over || m > (uint64_t)LONG_MAX) { errno = ERANGE; return LONG_MAX; }
  return (long)m;
}
long d_strtol(const char *s, char **e, int b) __asm__("strtol");
long d_strtol(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long d_strtoll(const char *s, char **e, int b) __asm__("strtoll");
long d_strtoll(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long d_strtoimax(const char *s, char **e, int b) __asm__("strtoimax");
long d_strtoimax(const char *s, char **e, int b) { return m_strtol(s, e, b); }
unsigned long d_strtoul(const char *s, char **e, int b) __asm__("strtoul");
unsigned long d_strtoul(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long d_strtoull(const char *s, char **e, int b) __asm__("strtoull");
unsigned long d_strtoull(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long d_strtoumax(const char *s, char **e, int b) __asm__("strtoumax");
unsigned long d_strtoumax(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
long d___isoc23_strtol(const char *s, char **e, int b) __asm__("__isoc23_strtol");
long d___isoc23_strtol(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long d___isoc23_strtoll(const char *s, char **e, int b) __asm__("__isoc23_strtoll");
long d___isoc23_strtoll(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long d___isoc23_strtoimax(const char *s, char **e, int b) __asm__("__isoc23_strtoimax");
long d___isoc23_strtoimax(const char *s, char **e, int b) { return m_strtol(s, e, b); }
unsigned long d___isoc23_strtoul(const char *s, char **e, int b) __asm__("__isoc23_strtoul");
unsigned long d___isoc23_strtoul(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long d___isoc23_strtoull(const char *s, char **e, int b) __asm__("__isoc23_strtoull");
unsigned long d___isoc23_strtoull(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long d___isoc23_strtoumax(const char *s, char **e, int b) __asm__("__isoc23_strtoumax");
unsigned long d___isoc23_strtoumax(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
int atoi(const char *s) { return (int)m_strtol(s, NULL, 10); }
long atol(const char *s) { return m_strtol(s, NULL, 10); }
long long atoll(const char *s) { return m_strtol(s, NULL, 10); }
/* numbers of symbolic text: decimal, up to 19 digits before and 9 after the point */
static double m_strtod(const char *s, char **e) {
  size_t u; union { uint64_t b; double v; } r; const char *p = s, *b; int neg = 0, n, k = 0, any;
  for (; *p && !sx_is_symbolic((u8)*p); p++) ;
  if (!sx_is_symbolic((u8)*p)) { sx_strtod(s, &r.v, &u); if (e) *e = (char *)s + u; return r.v; }
  for (p = s; isspace((u8)*p); p++) ;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((*p | 32) == 'i' || (*p | 32) == 'n') {
    int nan = (*p | 32) == 'n';
    if (strncasecmp(p, nan ? "nan" : "inf", 3) != 0) { if (e) *e = (char *)s; return 0.0; }
    if (nan && p[3] == '(') sx_incomplete("strtod of symbolic text: NaN with a payload");
    p += !nan && strncasecmp(p, "infinity", 8) == 0 ? 8 : 3;
    r.b = (nan ? 0x7ff8ull << 48 : 0x7ffull << 52) | (uint64_t)neg << 63;
    if (e) *e = (char *)p;
    return r.v;
  }
  if (*p == '0' && (p[1] | 32) == 'x' && (digit((u8)p[2], 16) >= 0 || p[2] == '.')) sx_incomplete("strtod of symbolic text: hexadecimal");
  for (b = p; digit((u8)*p, 10) >= 0; p++) ;
  any = p > b;
  while (b < p && *b == '0') b++;
  n = (int)(p - b);
  uint64_t i = 0, f = 0, big = 0;
  int isbig = n >= 19 && n < 400 && sx_bigvalue(b, n, &big);
  if (!isbig && n <= 19) i = horner(b, n, 10);
  else if (!isbig) sx_incomplete("strtod of symbolic text: more than 19 digits");
  if (*p == '.' && (any || digit((u8)p[1], 10) >= 0)) {
    b = ++p;
    while (digit((u8)*p, 10) >= 0) p++;
    k = (int)(p - b);
    if (k) any = 1;
    if (k > 9) sx_incomplete("strtod of symbolic text: more than 9 decimal places");
    f = horner(b, k, 10);
  }
  if (!any) { if (e) *e = (char *)s; return 0.0; }
  if ((*p | 32) == 'e' && (digit((u8)p[1], 10) >= 0 || ((p[1] == '+' || p[1] == '-') && digit((u8)p[2], 10) >= 0))) sx_incomplete("strtod of symbolic text: exponent");
  if (isbig && (sx_is_symbolic(f) || f != 0)) sx_incomplete("strtod of symbolic text: more than 19 digits");
  r.b = (isbig ? big : sxf_nearest(i, f, k)) | (uint64_t)neg << 63;
  if (e) *e = (char *)p;
  return r.v;
}
double strtod(const char *s, char **e) { return m_strtod(s, e); }
float strtof(const char *s, char **e) { return (float)m_strtod(s, e); }
double fabs(double v) { union { double v; uint64_t b; } u = {v}; u.b &= ~(1ul << 63); return u.v; }
double atof(const char *s) { return m_strtod(s, NULL); }

/* ---------------- formatting */
struct sink { char *buf; size_t cap; size_t len; int capture; };
int vm_capture; char *vm_out; size_t vm_out_len; static size_t vm_out_cap;
void vm_out_reset(void) { vm_out_len = 0; }
static void out_bytes(const char *s, size_t n) {
  if (vm_out_len + n + 1 > vm_out_cap) {
    size_t nc = (vm_out_len + n + 1) * 2 + 256;
    char *b = sx_alloc(nc);
    if (vm_out) { memcpy(b, vm_out, vm_out_len); sx_release(vm_out); }
    vm_out = b; vm_out_cap = nc;
  }
  memcpy(vm_out + vm_out_len, s, n);
  vm_out_len += n;
  vm_out[vm_out_len] = 0;
}
static void put(struct sink *k, const char *s, size_t n) {
  if (k->capture) { out_bytes(s, n); k->len += n; return; }
  if (k->cap) {
    size_t room = k->len < k->cap - 1 ? k->cap - 1 - k->len : 0;
    size_t m = n < room ? n : room;
    if (m) memcpy(k->buf + k->len, s, m);
  }
  k->len += n;
}
static void pad(struct sink *k, char c, long n) {
  char b[64];
  if (n <= 0) return;
  memset(b, c, sizeof b);
  while (n > 0) { long m = n < 64 ? n : 64; put(k, b, m); n -= m; }
}
/* decimal digits of v (v symbolic or not), returns count; the digits are fresh
 * characters constrained to spell v */
static int dec_digits(char *out, uint64_t v) {
  int n = 1; uint64_t p = 10;
  while (n < 20 && v >= p) { n++; if (n == 20) break; p *= 10; }
  if (!sx_is_symbolic(v)) {
    v = sx_concrete(v);
    for (int i = n - 1; i >= 0; i--) { out[i] = (char)('0' + v % 10); v /= 10; }
    return n;
  }
  for (int i = 0; i < n; i++) out[i] = (char)('0' + sx_digit(v, (unsigned)n, (unsigned)i));
  if (n == 20) sx_equate(horner(out + 1, 19, 10), v - 10000000000000000000ul);
  sx_equate(horner(out, n, 10), v);
  return n;
}
/* the p digits of v, with leading zeros, v < 10^p */
static void frac_digits(char *out, uint64_t v, int p) {
  if (!sx_is_symbolic(v)) {
    v = sx_concrete(v);
    for (int i = p - 1; i >= 0; i--) { out[i] = (char)('0' + v % 10); v /= 10; }
    return;
  }
  for (int i = 0; i < p; i++) out[i] = (char)('0' + sx_fdigit(v, (unsigned)p, (unsigned)i));
  sx_equate(horner(out, p, 10), v);
}
static int pow2_digits(char *out, uint64_t v, int shift, int upper) {
  int n = 1;
  while (n * shift < 64 && (v >> (n * shift)) != 0) n++;
  for (int i = 0; i < n; i++) {
    unsigned d = (unsigned)(v >> ((n - 1 - i) * shift)) & ((1u << shift) - 1);
    /* branch free so that a symbolic digit stays one expression */
    out[i] = (char)(d + '0' + (d > 9) * ((upper ? 'A' : 'a') - '0' - 10));
  }
  return n;
}
static int fmt(struct sink *k, const char *f, va_list ap, int light) {
  char tmp[600];
  for (; *f;) {
    if (*f != '%') { const char *e = f; while (*e && *e != '%') e++; if (!light) put(k, f, e - f); f = e; continue; }
    f++;
    int alt = 0, zero = 0, left = 0, plus = 0, space = 0, lm = 0; long width = 0, prec = -1;
    for (;; f++) { if (*f == '#') alt = 1; else if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'h') lm--; else if (*f == 'l') lm++; else if (*f == 'z' || *f == 't' || *f == 'j') lm = 1; else if (*f == 'L' || *f == 'q') lm = 2; else break; }
    char c = *f;
    if (c) f++;
    if (c == '%') { if (!light) put(k, "%", 1); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      uint64_t v; int neg = 0;
      if (c == 'p') { v = (uint64_t)va_arg(ap, void *); alt = 1; }
      else if (lm >= 1) v = va_arg(ap, unsigned long);
      else if (c == 'd' || c == 'i') v = (uint64_t)(int64_t)va_arg(ap, int);
      else v = va_arg(ap, unsigned);
      if (lm == -1) v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(short)v : (unsigned short)v;
      if (lm == -2) v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(signed char)v : (u8)v;
      if (light) continue;
      if (c == 'p' && v == 0) { long n = 5; if (!left) pad(k, ' ', width - n); put(k, "(nil)", 5); if (left) pad(k, ' ', width - n); continue; }
      if ((c == 'd' || c == 'i') && (int64_t)v < 0) { neg = 1; v = 0 - v; }
      int n;
      if (prec == 0 && v == 0) n = 0;
      else if (c == 'd' || c == 'i' || c == 'u') n = dec_digits(tmp, v);
      else if (c == 'o') n = pow2_digits(tmp, v, 3, 0);
      else n = pow2_digits(tmp, v, 4, c == 'X');
      const char *pre = ""; int pl = 0;
      if (neg) { pre = "-"; pl = 1; } else if ((c == 'd' || c == 'i') && plus) { pre = "+"; pl = 1; } else if ((c == 'd' || c == 'i') && space) { pre = " "; pl = 1; }
      if (alt && (c == 'x' || c == 'X' || c == 'p')) { if (v != 0) { pre = c == 'X' ? "0X" : "0x"; pl = 2; } }
      else if (alt && c == 'o') { if (n == 0 || tmp[0] != '0') { pre = "0"; pl = 1; } }
      long zp = prec > n ? prec - n : 0;
      if (zero && !left && prec < 0 && width > pl + n) zp = width - pl - n;
      if (!left) pad(k, ' ', width - pl - zp - n);
      put(k, pre, pl); pad(k, '0', zp); put(k, tmp, n);
      if (left) pad(k, ' ', width - pl - zp - n);
      continue;
    }
    if (c == 'c') { char ch = (char)va_arg(ap, int); if (light) continue; if (!left) pad(k, ' ', width - 1); put(k, &ch, 1); if (left) pad(k, ' ', width - 1); continue; }
    if (c == 's') {
      const char *s = va_arg(ap, const char *);
      if (!s) s = "(null)";
      if (light) { if (prec != 0) sx_access(s, 1, 0); continue; }
      long n = prec >= 0 ? (long)strnlen(s, prec) : (long)strlen(s);
      if (!left) pad(k, ' ', width - n);
      put(k, s, n);
      if (left) pad(k, ' ', width - n);
      continue;
    }
    if (c == 'f' || c == 'F' || c == 'e' || c == 'E' || c == 'g' || c == 'G') {
      double v = va_arg(ap, double);
      if (light) continue;
      union { double v; uint64_t b; } vb = {v};
      long p = prec < 0 ? 6 : prec;
      if (sx_is_symbolic(vb.b) && (c == 'f' || c == 'F') && p <= 9) {
        uint64_t ip, fp, a = vb.b & ~(1ul << 63);
        const char *pre = (vb.b >> 63) ? "-" : plus ? "+" : space ? " " : "";
        long pl = *pre ? 1 : 0;
        if (a >= 0x7ff0000000000000ul) {
          char t[5]; memcpy(t, pre, pl); memcpy(t + pl, a > 0x7ff0000000000000ul ? (c == 'F' ? "NAN" : "nan") : c == 'F' ? "INF" : "inf", 4);
          if (!left) pad(k, ' ', width - pl - 3);
          put(k, t, pl + 3);
          if (left) pad(k, ' ', width - pl - 3);
          continue;
        }
        int n;
        if (a >= 0x43e0000000000000ul) { n = sx_bigfmt(tmp, a); fp = 0; }
        else { sxf_decimal(a, (int)p, &ip, &fp); n = dec_digits(tmp, ip); }
        if (p || alt) tmp[n++] = '.';
        if (p) { frac_digits(tmp + n, fp, (int)p); n += p; }
        long zp = zero && !left && width > pl + n ? width - pl - n : 0;
        if (!left) pad(k, ' ', width - pl - zp - n);
        put(k, pre, pl); pad(k, '0', zp); put(k, tmp, n);
        if (left) pad(k, ' ', width - pl - zp - n);
        continue;
      }
      char ff[40]; int i = 0; ff[i++] = '%';
      if (plus) ff[i++] = '+';
      if (space) ff[i++] = ' ';
      if (alt) ff[i++] = '#';
      if (zero && !left && width && width < 100) { ff[i++] = '0'; char d[24]; int n = dec_digits(d, width); memcpy(ff + i, d, n); i += n; }
      if (prec >= 0) { ff[i++] = '.'; char d[24]; int n = dec_digits(d, prec); memcpy(ff + i, d, n); i += n; }
      ff[i++] = c; ff[i] = 0;
      int n = sx_fmt_double(tmp, sizeof tmp, ff, v);
      if (!left) pad(k, ' ', width - n);
      put(k, tmp, n);
      if (left) pad(k, ' ', width - n);
      continue;
    }
    if (c == 'm') { if (!light) put(k, "error", 5); continue; }
    if (c == 'n') { int *p = va_arg(ap, int *); *p = (int)k->len; continue; }
    sx_incomplete("printf conversion that is not modelled");
  }
  return (int)k->len;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  struct sink k = {b, n, 0, 0};
  int r = fmt(&k, f, ap, 0);
  if (n) b[k.len < n ? k.len : n - 1] = 0;
  return r;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 30, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int vasprintf(char **p, const char *f, va_list ap) {
  va_list a2; va_copy(a2, ap);
  int n = vsnprintf(NULL, 0, f, ap);
  if (vm_oom_now()) { errno = ENOMEM; return -1; }
  *p = sx_malloc(n + 1);
  vsnprintf(*p, n + 1, f, a2);
  va_end(a2);
  return n;
}
int asprintf(char **p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(p, f, ap); va_end(ap); return r; }
static int is_out(FILE *s) { return s == stdout && vm_capture; }
int vfprintf(FILE *s, const char *f, va_list ap) { struct sink k = {NULL, 0, 0, is_out(s)}; return fmt(&k, f, ap, !is_out(s)); }
int fprintf(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(s, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vdprintf(int fd, const char *f, va_list ap) { if (fd == 1) return vfprintf(stdout, f, ap); return vfprintf(stderr, f, ap); }
int dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = vdprintf(fd, f, ap); va_end(ap); return r; }
int fputs(const char *s, FILE *f) { if (is_out(f)) out_bytes(s, strlen(s)); return 1; }
int puts(const char *s) { if (is_out(stdout)) { out_bytes(s, strlen(s)); out_bytes("\n", 1); } return 1; }
int fputc(int c, FILE *f) {
  if (is_out(f)) {
    if (vm_out_len + 2 > vm_out_cap) { char ch = (char)c; out_bytes(&ch, 1); }
    else { vm_out[vm_out_len++] = (char)c; vm_out[vm_out_len] = 0; }
  }
  return (u8)c;
}
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { if (is_out(f)) out_bytes(p, a * b); return b; }
int fflush(FILE *f) { return 0; }
void perror(const char *s) {}
/* sscanf: blanks, literal text, integer and pointer conversions, %s, %c, %n */
static int m_vsscanf(const char *s, const char *f, va_list ap) {
  int got = 0; const char *s0 = s;
  for (; *f; ) {
    if (isspace((u8)*f)) { while (isspace((u8)*s)) s++; f++; continue; }
    if (*f != '%') { if (*s != *f) return got ? got : (*s ? 0 : -1); s++; f++; continue; }
    f++;
    int lm = 0, skip = 0; long width = 0;
    if (*f == '*') { skip = 1; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    for (;; f++) { if (*f == 'h') lm--; else if (*f == 'l') lm++; else if (*f == 'z' || *f == 'j' || *f == 't') lm = 1; else break; }
    char c = *f++;
    if (c == '%') { if (*s != '%') return got; s++; continue; }
    if (c == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (c == 'c') { if (!*s) return got ? got : -1; if (!skip) { *va_arg(ap, char *) = *s; got++; } s++; continue; }
    while (isspace((u8)*s)) s++;
    if (!*s) return got ? got : -1;
    if (c == 's') { char *o = skip ? NULL : va_arg(ap, char *); long n = 0; while (*s && !isspace((u8)*s) && (!width || n < width)) { if (o) o[n] = *s; n++; s++; } if (o) { o[n] = 0; got++; } continue; }
    if (width) sx_incomplete("scanf field width");
    if (c == 'p' && strncmp(s, "(nil)", 5) == 0) { s += 5; if (!skip) { *va_arg(ap, void **) = NULL; got++; } continue; }
    if (c == 'f' || c == 'g' || c == 'e' || c == 'a') {
      char *end; double v = m_strtod(s, &end);
      if (end == s) return got;
      s = end;
      if (skip) continue;
      if (lm == 1) *va_arg(ap, double *) = v; else if (lm == 0) *va_arg(ap, float *) = (float)v; else sx_incomplete("scanf of a long double");
      got++; continue;
    }
    int base = c == 'd' || c == 'u' ? 10 : c == 'i' ? 0 : c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : -1;
    if (base < 0) sx_incomplete("scanf conversion that is not modelled");
    const char *end; int neg, over, any;
    uint64_t m = parse_mag(s, &end, &neg, base, &over, &any);
    if (!any) return got;
    s = end;
    if (over) m = UINT64_MAX;
    uint64_t v = neg && !over ? 0 - m : m;
    if (c == 'd' && !neg && m > (uint64_t)LONG_MAX) v = LONG_MAX;
    if (skip) continue;
    if (c == 'p' || lm >= 1) *va_arg(ap, uint64_t *) = v;
    else if (lm == -1) *va_arg(ap, unsigned short *) = (unsigned short)v;
    else if (lm == -2) *va_arg(ap, u8 *) = (u8)v;
    else *va_arg(ap, unsigned *) = (unsigned)v;
    got++;
  }
  return got;
}
int d_vsscanf(const char *s, const char *f, va_list ap) __asm__("vsscanf");
int d_vsscanf(const char *s, const char *f, va_list ap) { return m_vsscanf(s, f, ap); }
int d_sscanf(const char *s, const char *f, ...) __asm__("sscanf");
int d_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = m_vsscanf(s, f, ap); va_end(ap); return r; }
int d___isoc99_vsscanf(const char *s, const char *f, va_list ap) __asm__("__isoc99_vsscanf");
int d___isoc99_vsscanf(const char *s, const char *f, va_list ap) { return m_vsscanf(s, f, ap); }
int d___isoc99_sscanf(const char *s, const char *f, ...) __asm__("__isoc99_sscanf");
int d___isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = m_vsscanf(s, f, ap); va_end(ap); return r; }
int d___isoc23_vsscanf(const char *s, const char *f, va_list ap) __asm__("__isoc23_vsscanf");
int d___isoc23_vsscanf(const char *s, const char *f, va_list ap) { return m_vsscanf(s, f, ap); }
int d___isoc23_sscanf(const char *s, const char *f, ...) __asm__("__isoc23_sscanf");
int d___isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = m_vsscanf(s, f, ap); va_end(ap); return r; }

/* ---------------- sorting and searching */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base, *tmp;
  if (n < 2) return;
  tmp = sx_alloc(sz);
  for (size_t i = 1; i < n; i++) {
    memcpy(tmp, b + i * sz, sz);
    size_t j = i;
    while (j > 0 && cmp(b + (j - 1) * sz, tmp) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
    memcpy(b + j * sz, tmp, sz);
  }
  sx_release(tmp);
}
void qsort_r(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *, void *), void *arg) {
  char *b = base, *tmp;
  if (n < 2) return;
  tmp = sx_alloc(sz);
  for (size_t i = 1; i < n; i++) {
    memcpy(tmp, b + i * sz, sz);
    size_t j = i;
    while (j > 0 && cmp(b + (j - 1) * sz, tmp, arg) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
    memcpy(b + j * sz, tmp, sz);
  }
  sx_release(tmp);
}
void *lfind(const void *key, const void *base, size_t *n, size_t sz, int (*cmp)(const void *, const void *)) {
  for (size_t i = 0; i < *n; i++) if (cmp(key, (const char *)base + i * sz) == 0) return (char *)base + i * sz;
  return NULL;
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz; int c = cmp(key, p); if (c == 0) return (void *)p; if (c < 0) hi = m; else lo = m + 1; }
  return NULL;
}

/* ---------------- paths, environment, process */
char *dirname(char *p) {
  static char dot[] = ".";
  if (!p || !*p) return dot;
  size_t n = strlen(p);
  while (n > 1 && p[n - 1] == '/') n--;
  while (n > 0 && p[n - 1] != '/') n--;
  if (n == 0) return dot;
  while (n > 1 && p[n - 1] == '/') n--;
  p[n] = 0;
  return p;
}
char *__xpg_basename(char *p) {
  static char dot[] = ".";
  if (!p || !*p) return dot;
  size_t n = strlen(p);
  while (n > 1 && p[n - 1] == '/') p[--n] = 0;
  if (n == 1) return p;
  char *r = strrchr(p, '/');
  return r ? r + 1 : p;
}
char *basename(const char *p) { const char *r = strrchr(p, '/'); return (char *)(r ? r + 1 : p); }
const char *vm_env_name, *vm_env_value;
char *getenv(const char *n) { if (vm_env_name && strcmp(n, vm_env_name) == 0) return (char *)vm_env_value; return NULL; }
char *secure_getenv(const char *n) { return getenv(n); }
int gethostname(char *b, size_t n) { if (n < 2) return -1; b[0] = 'h'; b[1] = 0; return 0; }
pid_t getpid(void) { return 100 + vm_self(); }
uid_t getuid(void) { return 0; } uid_t geteuid(void) { return 0; } gid_t getgid(void) { return 0; } gid_t getegid(void) { return 0; } pid_t getppid(void) { return 1; }
int getpagesize(void) { return 4096; }
int atexit(void (*f)(void)) { return 0; }
char *setlocale(int c, const char *l) { return "C"; }
static long vm_clock;
clock_t clock(void) { return ++vm_clock; }
long sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_OPEN_MAX ? 1024 : -1; }
time_t time(time_t *t) { vm_clock++; if (t) *t = vm_clock; return vm_clock; }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = ++vm_clock; tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = ++vm_clock; ts->tv_nsec = 0; return 0; }
int usleep(unsigned u) { vm_yield_point("sleep"); return 0; }
unsigned sleep(unsigned s) { vm_yield_point("sleep"); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { vm_yield_point("sleep"); return 0; }
int sched_yield(void) { vm_yield_point("yield"); return 0; }

/* ---------------- regular expressions: ^ $ . [] * + ? \x and literals */
struct rnode { u8 any, lo, hi, rep; u8 set[32]; };
struct rprog { int n, bol, eol, icase; struct rnode nd[1]; };
int regcomp(regex_t *r, const char *p, int flags) {
  size_t len = strlen(p);
  int ext = flags & REG_EXTENDED;
  struct rprog *g = sx_malloc(sizeof(struct rprog) + (len + 1) * sizeof(struct rnode));   /* released by regfree */
  memset(g, 0, sizeof(struct rprog) + (len + 1) * sizeof(struct rnode));
  if (*p == '^') { g->bol = 1; p++; }
  g->icase = flags & REG_ICASE;
  for (; *p; p++) {
    struct rnode *q = &g->nd[g->n];
    if (*p == '$' && !p[1]) { g->eol = 1; break; }
    if (*p == '.') q->any = 1;
    else if (*p == '[') {
      int inv = 0; p++;
      if (*p == '^') { inv = 1; p++; }
      int first = 1;
      for (; first || *p != ']'; p++) {
        if (!*p) { sx_free(g); return REG_EBRACK; }
        first = 0;
        u8 a = (u8)*p, b = a;
        if (a == '[' && p[1] == ':') {
          const char *e = strstr(p, ":]"); if (!e) { sx_free(g); return REG_EBRACK; }
          for (int c = 1; c < 256; c++) if ((!strncmp(p, "[:digit:]", 9) && isdigit(c)) || (!strncmp(p, "[:alpha:]", 9) && isalpha(c)) || (!strncmp(p, "[:alnum:]", 9) && isalnum(c)) || (!strncmp(p, "[:space:]", 9) && isspace(c))) q->set[c >> 3] |= 1 << (c & 7);
          p = e + 1; continue;
        }
        if (p[1] == '-' && p[2] && p[2] != ']') { b = (u8)p[2]; p += 2; }
        for (int c = a; c <= b; c++) q->set[c >> 3] |= 1 << (c & 7);
      }
      if (inv) { for (int c = 0; c < 32; c++) q->set[c] = ~q->set[c]; q->set[0] &= ~1; }
    } else if (*p == '\\') {
      p++;
      if (!*p) { sx_free(g); return REG_EESCAPE; }
      if (!ext && (*p == '(' || *p == ')' || *p == '{' || *p == '+' || *p == '?' || *p == '|')) sx_incomplete("regular expression feature that is not modelled");
      q->set[(u8)*p >> 3] |= 1 << ((u8)*p & 7);
    } else if (ext && (*p == '(' || *p == ')' || *p == '|' || *p == '{')) {
      if (*p == '(' || *p == ')') {   /* unbalanced groups are errors, balanced ones are not modelled */
        int depth = 0; int bad = 0;
        for (const char *z = p; *z; z++) { if (*z == '\\' && z[1]) { z++; continue; } if (*z == '(') depth++; if (*z == ')') { if (--depth < 0) bad = 1; } }
        if (depth > 0) { sx_free(g); return REG_EPAREN; }
        if (bad && *p == ')') { q->set[')' >> 3] |= 1 << (')' & 7); goto rep; }
      }
      sx_incomplete("regular expression feature that is not modelled");
    } else if (ext && (*p == '*' || *p == '+' || *p == '?') && g->n == 0) {
      sx_free(g); return REG_BADRPT;
    } else { u8 c = (u8)*p; q->set[c >> 3] |= 1 << (c & 7); }
  rep:
    if (p[1] == '*') { q->rep = '*'; p++; }
    else if (ext && (p[1] == '+' || p[1] == '?')) { q->rep = (u8)p[1]; p++; }
    g->n++;
  }
  *(struct rprog **)r = g;
  return 0;
}
static int rmatch1(struct rnode *q, u8 c) { if (!c) return 0; if (q->any) return 1; return (q->set[c >> 3] >> (c & 7)) & 1; }
static int rmatch(struct rprog *g, int i, const char *s) {
  for (; i < g->n; i++) {
    struct rnode *q = &g->nd[i];
    if (!q->rep) { if (!rmatch1(q, (u8)*s)) return 0; s++; continue; }
    long mn = q->rep == '+' ? 1 : 0, mx = 0;
    while ((q->rep != '?' || mx < 1) && rmatch1(q, (u8)s[mx])) mx++;
    for (long n = mx; n >= mn; n--) if (rmatch(g, i + 1, s + n)) return 1;
    return 0;
  }
  return g->eol ? *s == 0 : 1;
}
int regexec(const regex_t *r, const char *s, size_t nm, regmatch_t *pm, int fl) {
  struct rprog *g = *(struct rprog *const *)r;
  if (pm && nm) sx_incomplete("regexec with match positions");
  for (;; s++) { if (rmatch(g, 0, s)) return 0; if (g->bol || !*s) return REG_NOMATCH; }
}
void regfree(regex_t *r) { sx_free(*(struct rprog **)r); *(struct rprog **)r = NULL; }
size_t regerror(int e, const regex_t *r, char *b, size_t n) { if (n) b[0] = 0; return 1; }
int fnmatch(const char *p, const char *s, int fl) { sx_incomplete("fnmatch"); }

/* ---------------- getopt */
char *optarg; int optind = 1, opterr = 1, optopt; static int opt_pos;
int getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *li) {
  optarg = NULL;
  if (optind == 0) { optind = 1; opt_pos = 0; }
  /* permutation: skip operands, as glibc does by moving them to the end */
  if (opt_pos == 0) {
    int i = optind;
    while (i < argc && (argv[i][0] != '-' || argv[i][1] == 0)) i++;
    if (i >= argc) return -1;
    if (i != optind) {         /* rotate argv[i] (and its argument) in front of the operands */
      char **av = (char **)argv; char *t = av[i];
      int need = 0;
      if (strcmp(t, "--") != 0) {
        if (t[1] == '-') { for (const struct option *o = lo; o && o->name; o++) { size_t n = strlen(t + 2); if (!strchr(t + 2, '=') && n && strncmp(o->name, t + 2, n) == 0 && o->has_arg == 1) need = 1; } }
        else { for (int j = 1; t[j]; j++) { const char *q = strchr(so, t[j]); if (q && q[1] == ':') { need = t[j + 1] == 0; break; } } }
      }
      for (int j = i; j > optind; j--) av[j] = av[j - 1];
      av[optind] = t;
      if (need && i + 1 < argc) { char *t2 = av[i + 1]; for (int j = i + 1; j > optind + 1; j--) av[j] = av[j - 1]; av[optind + 1] = t2; }
    }
    if (strcmp(argv[optind], "--") == 0) { optind++; return -1; }
    if (argv[optind][1] == '-') {
      char *nm = argv[optind] + 2; size_t n = strcspn(nm, "=");
      int found = -1, cnt = 0;
      optind++;
      for (int i2 = 0; lo && lo[i2].name; i2++) if (strncmp(lo[i2].name, nm, n) == 0) { if (strlen(lo[i2].name) == n) { found = i2; cnt = 1; break; } found = i2; cnt++; }
      if (cnt != 1) return '?';
      if (lo[found].has_arg) {
        if (nm[n] == '=') optarg = nm + n + 1;
        else if (lo[found].has_arg == 1) { if (optind >= argc) return '?'; optarg = argv[optind++]; }
      } else if (nm[n] == '=') return '?';
      if (li) *li = found;
      if (lo[found].flag) { *lo[found].flag = lo[found].val; return 0; }
      return lo[found].val;
    }
    opt_pos = 1;
  }
  char c = argv[optind][opt_pos++];
  const char *q = c == ':' ? NULL : strchr(so, c);
  if (!q) { optopt = c; if (!argv[optind][opt_pos]) { optind++; opt_pos = 0; } return '?'; }
  if (q[1] == ':') {
    if (argv[optind][opt_pos]) optarg = argv[optind] + opt_pos;
    else if (optind + 1 < argc) optarg = argv[++optind];
    else { optind++; opt_pos = 0; optopt = c; return '?'; }
    optind++; opt_pos = 0;
    return c;
  }
  if (!argv[optind][opt_pos]) { optind++; opt_pos = 0; }
  return c;
}
int getopt(int argc, char *const *argv, const char *so) { return getopt_long(argc, argv, so, NULL, NULL); }
void vm_getopt_reset(void) { optind = 1; opt_pos = 0; optarg = NULL; }
