#ifndef SOFTFP_H
#define SOFTFP_H
#include "sx.h"
uint64_t sxf_u2d(uint64_t v), sxf_i2d(uint64_t v), sxf_d2i(uint64_t a), sxf_d2w(uint64_t a), sxf_d2u(uint64_t a), sxf_cmp(uint64_t a, uint64_t b, uint64_t pred), sxf_neg(uint64_t a), sxf_trunc(uint64_t a), sxf_ext(uint64_t f);
void sxf_decimal(uint64_t a, int p, uint64_t *ip, uint64_t *fp);
uint64_t sxf_nearest(uint64_t i, uint64_t f, int k);
#endif
