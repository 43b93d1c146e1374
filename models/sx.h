/* Interface between harnesses / models and the engine (or the native replay runtime). */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
uint64_t sx_sym(const char *name, unsigned bits);        /* arbitrary value, zero extended */
unsigned sx_choose(const char *name, unsigned n);        /* arbitrary value in 0..n-1 */
void sx_bytes(void *p, size_t n, const char *name);      /* n arbitrary bytes */
void sx_assume(int cond);
void sx_check(int cond, const char *msg);
void sx_fail(const char *msg) __attribute__((noreturn));
void sx_incomplete(const char *msg) __attribute__((noreturn));
void sx_done(void) __attribute__((noreturn));            /* path ends, all well */
void sx_cover(const char *name);
uint64_t sx_concrete(uint64_t v);                        /* one path per possible value */
int sx_is_symbolic(uint64_t v);
uint64_t sx_digit(uint64_t v, unsigned n, unsigned i);   /* i-th of the n decimal digits of v */
uint64_t sx_fdigit(uint64_t v, unsigned n, unsigned i);  /* the same with leading zeros */
void sx_equate(uint64_t a, uint64_t b);                  /* a, made of digits of sx_digit, is b */
int64_t sx_param(int i);
void sx_observe(const char *name, uint64_t v);
int sx_thread_new(void (*fn)(void *), void *arg);
void sx_thread_switch(int t);
int sx_thread_self(void);
void *sx_malloc(size_t n); void *sx_calloc(size_t a, size_t b); void *sx_realloc(void *p, size_t n); void sx_free(void *p);
void *sx_alloc(size_t n); void sx_release(void *p);      /* memory of the models, not counted */
long sx_live_allocs(void);
void sx_check_live(long expected, const char *msg);
void sx_access(const void *p, size_t n, int write);      /* fails when [p,p+n) is not accessible */
uint64_t sx_crc32(uint64_t crc, const void *p, unsigned n);
int sx_bigfmt(char *out, uint64_t bits);                  /* digits of a double of 2^63 or more */
int sx_bigvalue(const char *s, int n, uint64_t *bits);   /* and back */
void sx_strtod(const char *s, double *out, size_t *used);
int sx_fmt_double(char *out, size_t cap, const char *fmt, double v);
#endif
