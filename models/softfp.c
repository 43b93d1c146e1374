/* IEEE double arithmetic on bit patterns, executed in place of floating point instructions
 * whose operands are symbolic, and the correctly rounded conversions of printf and strtod.
 * Only integers inside; magnitudes are told apart by branches, so that every path works
 * with shifts by constants. */
#include "softfp.h"
typedef uint64_t u64;
#define INFB 0x7ff0000000000000ul
#define SIGN 0x8000000000000000ul
#define MANT 0xffffffffffffful
static u64 msk(int n) { return n >= 64 ? ~0ul : n <= 0 ? 0 : (1ul << n) - 1; }
/* number of bits of v, which is not zero */
static int bits_of(u64 v) { int n = 1; while (n < 64 && v >= (1ul << n)) n++; return n; }
/* v * 2^-sh to the nearest integer, halves to even; sticky: something more below */
static u64 round_shift(u64 v, int sh, u64 sticky) {
  if (sh <= 0) return v << -sh;
  if (sh > 64) return 0;
  u64 q = sh == 64 ? 0 : v >> sh, r = v & msk(sh), h = 1ul << (sh - 1);
  return q + ((r > h) | ((r == h) & ((q & 1) | sticky)));
}
/* nearest double of v * 2^x for v of n bits */
static u64 pack(u64 v, int n, int x, u64 sticky) {
  u64 m = round_shift(v, n - 53, sticky);               /* 2^52 .. 2^53 */
  return ((u64)(1022 + n + x) << 52) + (m - (1ul << 52));
}
u64 sxf_u2d(u64 v) { return v ? pack(v, bits_of(v), 0, 0) : 0; }
u64 sxf_i2d(u64 v) { return (v >> 63) ? SIGN | sxf_u2d(0 - v) : sxf_u2d(v); }
static u64 mag(u64 a, int lim, u64 bad) {                /* integer part of |a|; bad from 2^lim on */
  int e = (int)((a >> 52) & 0x7ff);
  if (e < 1023) return 0;
  if (e >= 1023 + lim) return bad;
  e = (int)sx_concrete((u64)e);
  u64 m = (a & MANT) | (1ul << 52);
  return e >= 1075 ? m << (e - 1075) : m >> (1075 - e);
}
u64 sxf_d2i(u64 a) {                                      /* as cvttsd2si */
  if (a == 0xc3e0000000000000ul) return SIGN;
  u64 m = mag(a, 63, SIGN);
  return (a >> 63) ? 0 - m : m;
}
u64 sxf_d2w(u64 a) { u64 v = sxf_d2i(a); return (int64_t)v == (int)v ? v : 0x80000000ul; }   /* as cvttsd2si to 32 bits */
u64 sxf_d2u(u64 a) {
  if (a >> 63) return sxf_d2i(a);
  return mag(a, 64, SIGN);
}
u64 sxf_cmp(u64 a, u64 b, u64 pred) {                     /* pred: LLVM's bits, 1 equal, 2 greater, 4 less, 8 unordered */
  u64 am = a & ~SIGN, bm = b & ~SIGN;
  u64 un = (am > INFB) | (bm > INFB);
  u64 ka = (a >> 63) ? 0 - am : am, kb = (b >> 63) ? 0 - bm : bm;   /* ordered as signed integers */
  u64 eq = ka == kb, gt = (int64_t)ka > (int64_t)kb;
  u64 rel = un ? 8 : eq ? 1 : gt ? 2 : 4;
  return (pred & rel) != 0;
}
u64 sxf_neg(u64 a) { return a ^ SIGN; }
u64 sxf_trunc(u64 a) {                                    /* double to float, nearest even */
  u64 s = (a >> 63) << 31, m = a & MANT;
  int e = (int)((a >> 52) & 0x7ff);
  if (e == 0x7ff) return s | 0x7f800000ul | (m ? 0x400000ul | (m >> 29) : 0);
  if (e < 1023 - 150) return s;
  if (e > 1023 - 127) return s | (e >= 1023 + 128 ? 0x7f800000ul : ((u64)(e - 896) << 23) + round_shift(m, 29, 0));
  e = (int)sx_concrete((u64)e);
  return s | round_shift(m | (1ul << 52), 29 + (897 - e), 0);
}
u64 sxf_ext(u64 f) {                                      /* float to double */
  u64 s = (f >> 31) << 63, m = f & 0x7fffff; int e = (int)((f >> 23) & 255);
  if (e == 255) return s | INFB | (m ? (m << 29) | (1ul << 51) : 0);
  if (e) return s | ((u64)(e + 896) << 52) | (m << 29);
  if (!m) return s;
  return s | pack(m, bits_of(m), -149, 0);
}

/* |a| < 2^63 times 10^p to the nearest integer, halves to even, as integer part *ip and
 * fraction *fp of p digits (p <= 9) */
void sxf_decimal(u64 a, int p, u64 *ip, u64 *fp) {
  u64 P = 1; for (int i = 0; i < p; i++) P *= 10;
  int e = (int)((a >> 52) & 0x7ff);
  if (e < 1023 - 40) { *ip = *fp = 0; return; }           /* below 2^-40: less than half of 10^-9 */
  e = (int)sx_concrete((u64)e);
  u64 m = (a & MANT) | (1ul << 52), f, q; int s = 1075 - e;
  if (s <= 0) { *ip = m << -s; *fp = 0; return; }
  *ip = s > 52 ? 0 : m >> s;
  f = s > 52 ? m : m & msk(s);
  if (s <= 26) { u64 t = f * P, r = t & msk(s), h = 1ul << (s - 1); q = t >> s; u64 odd = (p ? q : *ip) & 1; q += (r > h) | ((r == h) & odd); }
  else {
    u64 lo = (f & msk(26)) * P, hi = (f >> 26) * P + (lo >> 26); lo &= msk(26);
    int t = s - 26;                                       /* q = hi / 2^t, remainder (hi mod 2^t, lo) */
    if (t > 60) { *fp = 0; return; }
    u64 r = hi & msk(t), h = 1ul << (t - 1);
    q = hi >> t;
    u64 odd = (p ? q : *ip) & 1;
    q += (r > h) | ((r == h) & ((lo != 0) | odd));
  }
  if (q == P) { *ip += 1; q = 0; }
  *fp = q;
}
/* nearest double of the number i + f / 10^k, f < 10^k, k <= 9 */
u64 sxf_nearest(u64 i, u64 f, int k) {
  u64 P = 1, q, r; int n, t;
  for (int j = 0; j < k; j++) P *= 10;
  if (f == 0) return sxf_u2d(i);
  if (i == 0) {                                           /* f / P = q * 2^-t with q of 53 bits and rounding */
    int a = 1; while ((f << a) < P) a++;                  /* in 2^-a .. 2^(1-a) */
    t = a + 52;
    q = (f << a) / P; r = (f << a) % P;                   /* then 52 more bits, 26 at a time */
    q = (q << 26) + (r << 26) / P; r = (r << 26) % P;
    q = (q << 26) + (r << 26) / P; r = (r << 26) % P;
    q += (2 * r > P) | ((2 * r == P) & (q & 1));
    return ((u64)(1023 - t + 52) << 52) + (q - (1ul << 52));
  }
  n = bits_of(i); t = 53 - n;
  if (t < 0) return pack(i, n, 0, 1);
  int t1 = t > 26 ? 26 : t, t2 = t - t1;
  q = (f << t1) / P; r = (f << t1) % P;
  if (t2) { q = (q << t2) + (r << t2) / P; r = (r << t2) % P; }
  q += (i << t);
  q += (2 * r > P) | ((2 * r == P) & (q & 1));
  return ((u64)(1022 + n) << 52) + (q - (1ul << 52));
}
