#include "h.h"
#include "softfp.h"
#include <errno.h>
/* Double fields.  The expected value is computed on the bit pattern, in integers (models/softfp.c). */
typedef union { double v; uint64_t b; } dbl;
#define SGN (1ul << 63)
static uint64_t nearest6(uint64_t b) {
  uint64_t i, f;
  if ((b & ~SGN) >= 0x43e0000000000000ul) return b;      /* integers, infinities */
  sxf_decimal(b & ~SGN, 6, &i, &f);
  return sxf_nearest(i, f, 6) | (b & SGN);
}
static int eqv(uint64_t a, uint64_t b) { if (b << 1 > 0xffe0000000000000ul) return a << 1 > 0xffe0000000000000ul; return a == b || ((a | b) << 1) == 0; }
/* any double whose biased exponent is in param 0 .. param 1; param 2: what the key held before */
void h_c22(void) {
  int lo = (int)sx_param(0), hi = (int)sx_param(1), before = (int)sx_param(2);
  kvtree *T = kvtree_new();
  kvtree_set_kv(T, "sib", "1.5"); kvtree_set_kv(T, "keyy", "z");
  if (before == 1) kvtree_util_set_double(T, "key", 1.25);
  if (before == 2) { kvtree_set_kv(T, "key", "u"); kvtree_set_kv(T, "key", "v"); }
  dbl d, r; d.b = sx_sym("value", 64); r.b = 0x4045000000000000ul;
  int e = (int)((d.b >> 52) & 0x7ff);
  errno = (int)sx_sym("errno left by an earlier call", 7);
  sx_assume(lo <= e); sx_assume(e <= hi);
  sx_check(kvtree_util_set_double(T, "key", d.v) == KVTREE_SUCCESS, "set succeeds");
  sx_check(kvtree_util_get_double(T, "key", &r.v) == KVTREE_SUCCESS, "get succeeds");
  sx_check(eqv(r.b, nearest6(d.b)), "get returns the double nearest to the value rounded to six decimal places");
  sx_check(kvtree_size(kvtree_get(T, "key")) == 1 && kvtree_size(kvtree_elem_hash(kvtree_elem_first(kvtree_get(T, "key")))) == 0, "the key holds that single value only");
  sx_check(kvtree_size(T) == 3 && kvtree_get_kv(T, "sib", "1.5") && kvtree_get_kv(T, "keyy", "z"), "other keys are untouched");
  sx_observe("read back", r.b);
  kvtree_delete(&T); sx_cover("done");
}
/* a few very large and very small values, spelled out */
void h_c22_given(void) {
  static const double v[] = {1.7976931348623157e308, -1.7976931348623157e308, 1e300, 123456789012345678901234567890.0, 1e22, 18446744073709551616.0, -9007199254740993.0, 4.9e-324, 2.2250738585072014e-308, 0.0, -0.0, 5e-7, 1234567.8901235, 0.1, -99999999.9999995};
  for (unsigned i = 0; i < sizeof v / sizeof *v; i++) {
    kvtree *T = kvtree_new();
    dbl d = {v[i]}, r; r.b = 0x4045000000000000ul;
    sx_check(kvtree_util_set_double(T, "key", d.v) == KVTREE_SUCCESS && kvtree_util_get_double(T, "key", &r.v) == KVTREE_SUCCESS, "set and get succeed");
    sx_check(eqv(r.b, nearest6(d.b)), "get returns the double nearest to the value rounded to six decimal places");
    sx_observe("read back", r.b);
    kvtree_delete(&T);
  }
  sx_cover("done");
}
/* two fields, set in both orders, then the first set again */
void h_c22_two(void) {
  kvtree *T = kvtree_new();
  static const int ex[] = {0, 1003, 1022, 1023, 1060, 1090};
  dbl d[3], r; static const char *const nm[3] = {"first", "second", "third"};
  for (int i = 0; i < 3; i++) {
    int e = ex[sx_concrete(sx_choose("exponent", 6))];
    d[i].b = (sx_sym(nm[i], 53) & 0xffffffffffffful) | (uint64_t)e << 52;
    if (sx_choose("negative", 2)) d[i].b |= SGN;
  }
  sx_check(kvtree_util_set_double(T, "a", d[0].v) == KVTREE_SUCCESS && kvtree_util_set_double(T, "b", d[1].v) == KVTREE_SUCCESS, "set succeeds");
  sx_check(kvtree_util_get_double(T, "a", &r.v) == KVTREE_SUCCESS && eqv(r.b, nearest6(d[0].b)), "the first field has its value");
  sx_check(kvtree_util_set_double(T, "a", d[2].v) == KVTREE_SUCCESS, "set succeeds");
  sx_check(kvtree_util_get_double(T, "a", &r.v) == KVTREE_SUCCESS && eqv(r.b, nearest6(d[2].b)), "a field set again has its last value");
  sx_check(kvtree_util_get_double(T, "b", &r.v) == KVTREE_SUCCESS && eqv(r.b, nearest6(d[1].b)), "the second field has its value");
  sx_check(kvtree_size(T) == 2 && kvtree_size(kvtree_get(T, "a")) == 1 && kvtree_size(kvtree_get(T, "b")) == 1, "one value per key");
  kvtree_delete(&T); sx_cover("done");
}
/* the field is packed or copied on the way */
void h_c22_via(void) {
  int lo = (int)sx_param(0), hi = (int)sx_param(1), how = (int)sx_param(2);
  kvtree *T = kvtree_new(), *U = kvtree_new();
  dbl d, r; d.b = sx_sym("value", 64); r.b = 0;
  int e = (int)((d.b >> 52) & 0x7ff);
  sx_assume(lo <= e); sx_assume(e <= hi);
  sx_check(kvtree_util_set_double(T, "key", d.v) == KVTREE_SUCCESS, "set succeeds");
  if (how == 0) kvtree_merge(U, T);
  else { size_t n = kvtree_pack_size(T); char *b = sx_alloc(n); sx_check(kvtree_pack(b, T) == n && kvtree_unpack(b, U) == n, "packed and unpacked"); }
  kvtree_delete(&T);
  sx_check(kvtree_util_get_double(U, "key", &r.v) == KVTREE_SUCCESS && eqv(r.b, nearest6(d.b)), "the copy has the same value");
  kvtree_delete(&U); sx_cover("done");
}
/* a value written as text by someone else: sign, p0 digits, point and p1 digits (p1 < 0: neither) */
void h_c22_text(void) {
  int n = (int)sx_param(0), k = (int)sx_param(1), sign = (int)sx_param(2), m = 0;
  char s[40]; uint64_t iv = 0, fv = 0;
  if (sign) s[m++] = sign == 1 ? '-' : '+';
  for (int i = 0; i < n; i++) { unsigned c = (unsigned)sx_sym("digit", 8); sx_assume(c >= '0'); sx_assume(c <= '9'); s[m++] = (char)c; iv = iv * 10 + (uint64_t)(c - '0'); }
  if (k >= 0) s[m++] = '.';
  for (int i = 0; i < k; i++) { unsigned c = (unsigned)sx_sym("digit", 8); sx_assume(c >= '0'); sx_assume(c <= '9'); s[m++] = (char)c; fv = fv * 10 + (uint64_t)(c - '0'); }
  s[m] = 0;
  kvtree *T = kvtree_new(); dbl r; r.b = 0;
  kvtree_set_kv(T, "key", s);
  sx_check(kvtree_util_get_double(T, "key", &r.v) == KVTREE_SUCCESS, "get succeeds");
  sx_check(eqv(r.b, sxf_nearest(iv, fv, k < 0 ? 0 : k) | (sign == 1 ? SGN : 0)), "get returns the double nearest to the text");
  sx_observe("read", r.b);
  kvtree_delete(&T); sx_cover("done");
}
/* failing getters leave the output alone */
void h_c22_missing(void) {
  kvtree *T = kvtree_new();
  kvtree_set_kv(T, "sib", "1");
  int how = (int)sx_concrete(sx_choose("how the value is missing", 5));
  dbl r; uint64_t b = r.b = sx_sym("output", 64);
  const kvtree *h = T; const char *k = "key";
  switch (how) {
  case 0: h = NULL; break;
  case 1: k = NULL; break;
  case 2: k = sym_key(3, "absent"); sx_assume(strcmp(k, "sib") != 0); break;
  case 3: kvtree_set(T, "key", NULL); break;
  case 4: kvtree_set(T, "key", kvtree_new()); break;
  }
  sx_check(kvtree_util_get_double(h, k, &r.v) != KVTREE_SUCCESS, "get of a missing value fails");
  sx_check(r.b == b, "a failing get leaves the output as it was");
  kvtree_delete(&T); sx_cover("done");
}
