#include "h.h"
/* One typed field among others.  param 0: field type; param 1: what the key held before */
static kvtree *T;
enum { INT, I64, UL, BC, CRC, STR, PTR };
typedef union { int i; int64_t l; unsigned long u; uLong c; char *s; void *p; } val;
static int set(int t, const char *k, val v) {
  switch (t) {
  case INT: return kvtree_util_set_int(T, k, v.i);
  case I64: return kvtree_util_set_int64(T, k, v.l);
  case UL: return kvtree_util_set_unsigned_long(T, k, v.u);
  case BC: return kvtree_util_set_bytecount(T, k, v.u);
  case CRC: return kvtree_util_set_crc32(T, k, v.c);
  case STR: return kvtree_util_set_str(T, k, v.s);
  default: return kvtree_util_set_ptr(T, k, v.p);
  }
}
static int get(int t, const kvtree *h, const char *k, val *v) {
  switch (t) {
  case INT: return kvtree_util_get_int(h, k, &v->i);
  case I64: return kvtree_util_get_int64(h, k, &v->l);
  case UL: return kvtree_util_get_unsigned_long(h, k, &v->u);
  case BC: return kvtree_util_get_bytecount(h, k, &v->u);
  case CRC: return kvtree_util_get_crc32(h, k, &v->c);
  case STR: return kvtree_util_get_str(h, k, &v->s);
  default: return kvtree_util_get_ptr(h, k, &v->p);
  }
}
static int same(int t, val a, val b) {
  switch (t) {
  case INT: return a.i == b.i;
  case I64: return a.l == b.l;
  case UL: case BC: return a.u == b.u;
  case CRC: return a.c == b.c;
  case STR: return strcmp(a.s, b.s) == 0;
  default: return a.p == b.p;
  }
}
static val sym(int t, const char *n) {
  val v; memset(&v, 0, sizeof v);
  switch (t) {
  case INT: v.i = (int)sx_sym(n, 32); break;
  case I64: v.l = (int64_t)sx_sym(n, 64); break;
  case UL: case BC: v.u = sx_sym(n, 64); break;
  case CRC: v.c = (uLong)(uint32_t)sx_sym(n, 32); break;
  case STR: v.s = sym_key(3, n); break;
  default: v.p = (void *)sx_sym(n, 64); break;
  }
  return v;
}
void h_c04_roundtrip(void) {
  int t = (int)sx_param(0), before = (int)sx_param(1);
  T = kvtree_new();
  kvtree_set_kv(T, "sib", "x"); kvtree_set_kv(T, "keyy", "z");
  val o; memset(&o, 0, sizeof o);
  switch (before) {
  case 0: break;
  case 1: o = sym(t, "earlier"); set(t, "key", o); break;
  case 2: kvtree_set_kv(T, "key", "u"); kvtree_set_kv(T, "key", "v"); kvtree_set(kvtree_get_kv(T, "key", "v"), "w", kvtree_new()); break;
  case 3: kvtree_set(T, "key", NULL); break;
  }
  val v = sym(t, "value"), r; memset(&r, 0x5a, sizeof r);
  sx_check(set(t, "key", v) == KVTREE_SUCCESS, "set succeeds");
  sx_check(get(t, T, "key", &r) == KVTREE_SUCCESS, "get succeeds");
  sx_check(same(t, r, v), "get returns the value last set");
  sx_check(kvtree_size(kvtree_get(T, "key")) == 1, "the key holds that single value only");
  kvtree_elem *e = kvtree_elem_first(kvtree_get(T, "key"));
  sx_check(kvtree_size(kvtree_elem_hash(e)) == 0, "nothing hangs below the value");
  sx_check(kvtree_size(T) == 3 && kvtree_size(kvtree_get(T, "sib")) == 1 && kvtree_get_kv(T, "sib", "x") && kvtree_size(kvtree_get(T, "keyy")) == 1 && kvtree_get_kv(T, "keyy", "z"), "other keys are untouched");
  if (t == INT) sx_observe("int", (uint64_t)(int64_t)r.i); else if (t != STR) sx_observe("value", r.u);
  kvtree_delete(&T); sx_cover("done");
}
/* two fields of different types do not disturb each other */
void h_c04_two(void) {
  int t = (int)sx_param(0), u = (int)sx_param(1);
  T = kvtree_new();
  char *k = sym_str(2, "first key"), *l = sym_str(2, "second key");
  sx_assume(strcmp(k, l) != 0);
  val v = sym(t, "first"), w = sym(u, "second"), r; memset(&r, 0x5a, sizeof r);
  set(t, k, v); set(u, l, w);
  sx_check(get(t, T, k, &r) == KVTREE_SUCCESS && same(t, r, v), "the first field keeps its value");
  sx_check(get(u, T, l, &r) == KVTREE_SUCCESS && same(u, r, w), "the second field has its value");
  sx_check(kvtree_size(T) == 2, "two keys");
  kvtree_delete(&T); sx_cover("done");
}
/* failing getters leave the output alone */
void h_c04_missing(void) {
  int t = (int)sx_param(0);
  T = kvtree_new();
  kvtree_set_kv(T, "sib", "1");
  int how = (int)sx_concrete(sx_choose("how the value is missing", 5));
  val r, b; sx_bytes(&r, sizeof r, "output"); memcpy(&b, &r, sizeof r);
  const kvtree *h = T; const char *k = "key";
  switch (how) {
  case 0: h = NULL; break;
  case 1: k = NULL; break;
  case 2: k = sym_key(3, "absent"); sx_assume(strcmp(k, "sib") != 0); break;
  case 3: kvtree_set(T, "key", NULL); break;
  case 4: kvtree_set(T, "key", kvtree_new()); break;
  }
  int n = kvtree_size(T);
  sx_check(get(t, h, k, &r) != KVTREE_SUCCESS, "get of a missing value fails");
  sx_check(memcmp(&r, &b, sizeof r) == 0, "a failing get leaves the output as it was");
  sx_check(kvtree_size(T) == n && kvtree_get_kv(T, "sib", "1"), "a failing get changes nothing");
  kvtree_delete(&T); sx_cover("done");
}

/* the key held a value of any other type; keys of many characters; parameters: type, characters of the key before the last, earlier type */
void h_c04_over(void) {
  int t = (int)sx_param(0), n = (int)sx_param(1), u = (int)sx_param(2);
  char *k = sx_alloc(n + 2), *l;
  memset(k, 'k', n); l = rt_dup(k); if (n) l[n - 1]++; else l = "1";
  sx_bytes(k + n, 1, "last"); sx_assume(k[n] != 0);
  if (!n) sx_assume(strcmp(k, l) != 0);
  T = kvtree_new();
  kvtree_set_kv(T, l, "other");
  val o, v = sym(t, "value"), r; memset(&o, 0, sizeof o);
  switch (u) { case INT: o.i = -17; break; case I64: o.l = -5000000000ll; break; case UL: case BC: o.u = ~0ull; break; case CRC: o.c = 0xdeadbeef; break; case STR: o.s = "a string"; break; default: o.p = (void *)0xabcdef0123ull; }
  sx_check(set(u, k, o) == KVTREE_SUCCESS && set(t, k, v) == KVTREE_SUCCESS, "set succeeds");
  memset(&r, 0x5a, sizeof r);
  sx_check(get(t, T, k, &r) == KVTREE_SUCCESS && same(t, r, v), "get returns the value last set whatever the key held before");
  sx_check(kvtree_size(kvtree_get(T, k)) == 1, "the key holds that single value only");
  sx_check(kvtree_size(T) == 2 && kvtree_get_kv(T, l, "other") && kvtree_size(kvtree_get(T, l)) == 1, "other keys are untouched");
  kvtree_delete(&T); sx_cover("done");
}
/* strings of many characters; parameters: characters before the two arbitrary ones, number of lengths from there */
void h_c04_long(void) {
  int n = (int)sx_param(0) + (sx_param(1) ? pick("length", (int)sx_param(1)) : 0);
  char *s = sx_alloc(n + 3), *g = NULL, *c;
  memset(s, 's', n); sx_bytes(s + n, 2, "end"); sx_assume(s[n] != 0);
  c = sx_alloc(n + 3); memcpy(c, s, n + 3);
  T = kvtree_new();
  kvtree_util_set_str(T, "a", "before"); kvtree_util_set_int(T, "b", 5);
  sx_check(kvtree_util_set_str(T, "a", s) == KVTREE_SUCCESS, "set succeeds");
  sx_check(kvtree_util_get_str(T, "a", &g) == KVTREE_SUCCESS && strcmp(g, c) == 0, "get returns the value last set");
  s[0] = 'X';
  sx_check(kvtree_util_get_str(T, "a", &g) == KVTREE_SUCCESS && strcmp(g, c) == 0, "the field keeps its own copy of the string");
  sx_check(kvtree_size(T) == 2 && kvtree_size(kvtree_get(T, "a")) == 1, "one value");
  kvtree_delete(&T); sx_cover("done");
}
/* the key or the string is the tree's own copy; parameters: type, 0: key of the field, 1: key of its value, 2: string value of the field, 3: string is the key */
void h_c04_own(void) {
  int t = (int)sx_param(0), how = (int)sx_param(1);
  T = kvtree_new();
  kvtree_set_kv(T, "sib", "x");
  char *k = sym_str(2, "key"), *s = sym_str(2, "earlier value"); sx_assume(strcmp(k, "sib") != 0); sx_assume(strcmp(s, "sib") != 0);
  if (how != 1) sx_assume(strcmp(k, s) != 0);
  kvtree_util_set_str(T, k, s);
  val v, r; memset(&v, 0, sizeof v); memset(&r, 0x5a, sizeof r);
  char *kk = k, *sc = rt_dup(s), *g;
  if (how == 0) kk = kvtree_elem_key(kvtree_elem_get(T, k));
  if (how == 1) { kk = kvtree_elem_key(kvtree_elem_first(kvtree_get(T, k))); }
  if (how == 2) { sx_check(kvtree_util_get_str(T, k, &g) == KVTREE_SUCCESS, "get succeeds"); v.s = g; }
  else if (how == 3) v.s = kvtree_elem_key(kvtree_elem_get(T, k));
  else v = sym(t, "value");
  sx_check(set(t, kk, v) == KVTREE_SUCCESS, "set succeeds");
  const char *at = how == 1 ? sc : k;
  sx_check(get(t, T, at, &r) == KVTREE_SUCCESS, "get succeeds");
  if (how == 2) sx_check(strcmp(r.s, sc) == 0, "a field set to its own value keeps it");
  else if (how == 3) sx_check(strcmp(r.s, k) == 0, "a field set to its own key has that value");
  else sx_check(same(t, r, v), "get returns the value last set");
  sx_check(kvtree_size(kvtree_get(T, at)) == 1, "the key holds that single value only");
  sx_check(kvtree_get_kv(T, "sib", "x") != NULL && kvtree_size(T) == (how == 1 && strcmp(k, sc) != 0 ? 3 : 2), "other keys are untouched");
  kvtree_delete(&T); sx_cover("done");
}
