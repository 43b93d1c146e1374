#include "h.h"
static kvtree *T;
static rt *R;
/* pack into a block of exactly the announced size, read it with the reference reader, unpack it */
static void round_trip(int ordered) {
  size_t n = kvtree_pack_size(T);
  char *buf = malloc(n);
  size_t m = kvtree_pack(buf, T);
  sx_check(m == n, "packing writes exactly the announced number of bytes");
  sx_check(T == NULL || !ordered || kv_is_ordered(T, R), "packing changes nothing");
  for (size_t i = 0; i < n; i++) sx_access(buf + i, 1, 0);
  size_t pos = 0;
  rt *p = ref_unpack((unsigned char *)buf, n, &pos);
  sx_check(p != NULL && pos == n, "the packed bytes are well formed and complete");
  sx_check(rt_eq(p, R), "the packed bytes are the documented form of the tree");
  kvtree *U = kvtree_new();
  char *copy = malloc(n); memcpy(copy, buf, n);
  size_t u = kvtree_unpack(buf, U);
  sx_check(u == n, "unpacking consumes exactly the packed size");
  sx_check(memcmp(copy, buf, n) == 0, "unpacking leaves the buffer alone");
  free(buf); free(copy);
  sx_check(kv_is(U, R), "unpacking reproduces the tree");
  sx_check(kvtree_pack_size(U) == n, "the copy has the same packed size");
  kvtree_delete(&U);
}
void h_c06_round(void) {
  long base = sx_live_allocs();
  sym_nulls = (int)sx_param(3); sym_nodes = (int)sx_param(0);
  R = sym_tree((int)sx_param(1), 3, (int)sx_param(2));
  T = kv_of(R);
  round_trip(1);
  kvtree_delete(&T);
  sx_check_live(base, "everything is released"); sx_cover("done");
}
/* arbitrary well-formed bytes -> tree -> bytes */
void h_c06_fromref(void) {
  sym_nodes = (int)sx_param(0); R = sym_tree(2, 3, 2);
  unsigned char b[256]; size_t n = ref_pack(b, R);
  char *buf = malloc(n); memcpy(buf, b, n);
  T = kvtree_new();
  sx_check(kvtree_unpack(buf, T) == n, "unpacking consumes a well-formed image completely");
  free(buf);
  sx_check(kv_is(T, R), "unpacking builds the tree of a well-formed image");
  round_trip(0);
  kvtree_delete(&T); sx_cover("done");
}
void h_c06_null(void) {
  int w = (int)sx_concrete(sx_choose("kind", 2));
  T = w ? kvtree_new() : NULL; R = rt_new();
  sx_check(kvtree_pack_size(T) == 4, "an empty tree takes four bytes");
  round_trip(0);
  sx_check(kvtree_unpack("\0\0\0\0", NULL) == 0, "unpacking into no tree consumes nothing");
  kvtree_delete(&T); sx_cover("done");
}
/* many elements and long keys: concrete sizes, one symbolic byte */
void h_c06_wide(void) {
  int n = (int)sx_param(0), kl = (int)sx_param(1);
  size_t sz = 4 + (size_t)n * (kl + 1 + 4);
  unsigned char *b = malloc(sz), c; size_t o = 4;
  put_be(b, n, 4);
  sx_bytes(&c, 1, "byte"); sx_assume(c != 0 && c != '#');
  for (int i = 0; i < n; i++) { memset(b + o, '#', kl); for (int j = 0, x = i; j < 5; j++, x /= 16) b[o + j] = "0123456789abcdef"[x % 16]; if (i == n - 1) b[o + kl - 1] = c; o += kl; b[o++] = 0; put_be(b + o, 0, 4); o += 4; }
  T = kvtree_new();
  sx_check(kvtree_unpack((char *)b, T) == sz, "unpacking consumes the image completely");
  sx_check(kvtree_size(T) == n && kvtree_pack_size(T) == sz, "every element is there");
  char *p = malloc(sz);
  sx_check(kvtree_pack(p, T) == sz && be((unsigned char *)p, 4) == (unsigned)n, "packing a large tree gives its exact size and count");
  /* order is the only freedom: every element of the image occurs, at a stride of the element size */
  int k = 0, hits = 0; size_t st = kl + 5;
  for (o = 4; o < sz; o += st) { unsigned x = 0; for (int j = 4; j >= 0; j--) { char q = p[o + j]; x = x * 16 + (q <= '9' ? q - '0' : q - 'a' + 10); } if (x < (unsigned)n && memcmp(p + o, b + 4 + x * st, st) == 0) hits++; k++; }
  sx_check(k == n && hits == n, "every element is packed");
  kvtree_delete(&T); free(b); free(p); sx_cover("done");
}
void h_c06_deep(void) {
  int d = (int)sx_param(0);
  R = rt_new(); rt *r = R; T = NULL;
  for (int i = 0; i < d; i++) { char *k = sym_str(1, "key"); leaf(r, i % 2 ? "" : "zz"); sx_assume(k[0] != 'z'); r = rt_put(r, k, rt_new()); }
  T = kv_of(R);
  round_trip(1);
  kvtree_delete(&T); sx_cover("done");
}
/* fixed width encoders */
static int enc(int w, void *b, size_t sz, size_t *pos, uint64_t v) { return w == 2 ? kvtree_pack_uint16_t(b, sz, pos, v) : w == 4 ? kvtree_pack_uint32_t(b, sz, pos, v) : kvtree_pack_uint64_t(b, sz, pos, v); }
static int decd(int w, const void *b, size_t sz, size_t *pos, uint64_t *v) {
  int rc; uint16_t a = 0x5a5a; uint32_t c = 0x5a5a5a5a; uint64_t d = 0x5a5a5a5a5a5a5a5a;
  if (w == 2) { rc = kvtree_unpack_uint16_t(b, sz, pos, v ? &a : NULL); if (v) *v = a; }
  else if (w == 4) { rc = kvtree_unpack_uint32_t(b, sz, pos, v ? &c : NULL); if (v) *v = c; }
  else { rc = kvtree_unpack_uint64_t(b, sz, pos, v ? &d : NULL); if (v) *v = d; }
  return rc;
}
void h_c06_enc(void) {
  int w = (int)sx_param(0);
  size_t cap = (size_t)sx_concrete(sx_choose("buffer size", 18)), pos = sx_sym("position", 64), p0 = pos;
  sx_assume(pos <= (1ul << 63));
  uint64_t v = sx_sym("value", 64), u = 0; if (w < 8) v &= (1ull << (8 * w)) - 1;
  unsigned char *b = malloc(cap ? cap : 1), old[18];
  sx_bytes(old, 18, "old"); memcpy(b, old, cap);
  int rc = enc(w, b, cap, &pos, v);
  int fits = p0 <= cap && cap - p0 >= (size_t)w;
  sx_check(rc == (fits ? KVTREE_SUCCESS : KVTREE_FAILURE), "an encoder succeeds exactly when the value fits");
  if (!fits) { sx_check(pos == p0 && memcmp(b, old, cap) == 0, "a refused encoding changes nothing"); sx_cover("refused"); }
  else {
    size_t p = sx_concrete(p0);
    sx_check(pos == p0 + w, "the position advances by the width");
    sx_check(be(b + p, w) == v, "the value is stored big-endian");
    sx_check(memcmp(b, old, p) == 0 && memcmp(b + p + w, old + p + w, cap - p - w) == 0, "no other byte is written");
    size_t q = p;
    sx_check(decd(w, b, cap, &q, &u) == KVTREE_SUCCESS && q == p + w && u == v, "decoding gives the value back"); sx_cover("fits");
  }
  free(b);
}
void h_c06_dec(void) {
  int w = (int)sx_param(0);
  size_t cap = (size_t)sx_concrete(sx_choose("buffer size", 18)), pos = sx_sym("position", 64), p0 = pos;
  sx_assume(pos <= (1ul << 63));
  unsigned char *b = malloc(cap ? cap : 1), old[18]; uint64_t v = 0;
  sx_bytes(old, 18, "old"); memcpy(b, old, cap);
  int rc = decd(w, b, cap, &pos, &v);
  int fits = p0 <= cap && cap - p0 >= (size_t)w;
  sx_check(rc == (fits ? KVTREE_SUCCESS : KVTREE_FAILURE), "a decoder succeeds exactly when the bytes are there");
  sx_check(memcmp(b, old, cap) == 0, "decoding leaves the buffer alone");
  if (fits) { size_t p = sx_concrete(p0); sx_check(pos == p0 + w && v == be(b + p, w), "the value is read big-endian"); sx_cover("fits"); }
  else { sx_check(pos == p0 && v == (0x5a5a5a5a5a5a5a5a & (w == 8 ? ~0ull : (1ull << (8 * w)) - 1)), "a refused decoding changes nothing"); sx_cover("refused"); }
  free(b);
}
void h_c06_encnull(void) {
  int w = (int)sx_param(0); unsigned char b[8]; size_t pos = 0; uint64_t v;
  sx_check(enc(w, NULL, 8, &pos, 1) == KVTREE_FAILURE && enc(w, b, 8, NULL, 1) == KVTREE_FAILURE && pos == 0, "encoders refuse NULL");
  sx_check(decd(w, NULL, 8, &pos, &v) == KVTREE_FAILURE && decd(w, b, 8, NULL, &v) == KVTREE_FAILURE && decd(w, b, 8, &pos, NULL) == KVTREE_FAILURE && pos == 0, "decoders refuse NULL");
  sx_cover("done");
}
