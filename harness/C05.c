#include "h.h"
#define MAXN 160
static int N, pre; static kvtree *T; static kvtree *sub[MAXN]; static kvtree_elem *el[MAXN]; static char *key[MAXN]; static int num[MAXN];
static void add(int i) {
  sub[i] = kvtree_new(); char b[8] = "s"; b[1] = (char)(1 + i); b[2] = 0; kvtree_set(sub[i], b, kvtree_new());
  sx_check(kvtree_set(T, key[i], sub[i]) == sub[i], "set");
}
static void grab(void) {
  sx_check(kvtree_size(T) == N, "all keys are stored");
  for (int i = 0; i < N; i++) { el[i] = kvtree_elem_get(T, key[i]); sx_check(el[i] != NULL && kvtree_elem_hash(el[i]) == sub[i], "element"); }
}
/* the same elements, each once, with their keys and subtrees */
static void same(void) {
  int n = 0; unsigned char seen[MAXN] = { 0 };
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) {
    int i; sx_check(++n <= N, "no element is added or repeated");
    for (i = 0; i < N && el[i] != e; i++);
    sx_check(i < N && !seen[i], "the same elements");
    seen[i] = 1;
    sx_check(strcmp(kvtree_elem_key(e), key[i]) == 0 && kvtree_elem_hash(e) == sub[i], "each element keeps its key and subtree");
    char b[8] = "s"; b[1] = (char)(1 + i); b[2] = 0;
    sx_check(kvtree_size(sub[i]) == 1 && kvtree_elem_get(sub[i], b) != NULL, "subtrees are untouched");
  }
  sx_check(n == N && kvtree_size(T) == N, "no element is lost");
}
/* still a working map: lookups, removal of any element, insertion */
static void usable(void) {
  kvtree_elem *before[MAXN]; int m = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) before[m++] = e;
  for (int i = 0; i < N; i++) { sx_check(kvtree_get(T, key[i]) == sub[i], "every key is found"); if (pre < 900) kvtree_getf(T, "%s", key[i]); }
  m = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) { sx_check(before[m++] == e, "lookups keep the order"); kvtree_elem_get(T, key[m - 1]); }
  sx_check(m == N, "lookups keep the order");
  for (int i = 0; i < N; i++) sx_check(kvtree_elem_get(T, key[i]) == el[i], "every key is found");
  if (!N) return;
  int d = (int)sx_concrete(sx_choose("element to remove", N));
  int how = (int)sx_concrete(sx_choose("how", 2));
  if (how == 0) sx_check(kvtree_unset(T, key[d]) == KVTREE_SUCCESS, "unset");
  else { kvtree_elem *e = kvtree_elem_extract_by_addr(T, el[d]); sx_check(e == el[d], "extract by address"); elem_free(e); }
  int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) { n++; sx_check(e != el[d], "the element is gone"); }
  sx_check(n == N - 1 && kvtree_elem_get(T, key[d]) == NULL, "exactly that element is gone");
  for (int i = 0; i < N; i++) if (i != d) sx_check(kvtree_elem_get(T, key[i]) == el[i], "the others stay");
  kvtree *x = kvtree_new(); kvtree_set(T, "\x01new key", x);
  sx_check(kvtree_get(T, "\x01new key") == x && kvtree_size(T) == N, "a new key can be added");
}
static char *lkey(int kl) { int n = (int)sx_concrete(sx_choose("key length", kl + 1)); char *p = sx_alloc(pre + n + 1); memset(p, 'p', pre); sx_bytes(p + pre, n, "key"); for (int i = 0; i < n; i++) sx_assume(p[pre + i] != 0); p[pre + n] = 0; return p; }
/* parameters: keys, arbitrary characters up to, shared leading characters */
void h_c05_str(void) {
  long base = sx_live_allocs(); pre = (int)sx_param(2);
  N = (int)sx_param(0); int kl = (int)sx_param(1), dir = sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
  T = kvtree_new();
  for (int i = 0; i < N; i++) { key[i] = lkey(kl); for (int j = 0; j < i; j++) sx_assume(strcmp(key[i], key[j]) != 0); add(i); }
  grab();
  sx_check(kvtree_sort(T, dir) == KVTREE_SUCCESS, "sort succeeds");
  same();
  const char *p = NULL;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) {
    const char *k = kvtree_elem_key(e);
    if (p) { int c = strcmp(p, k); sx_check(dir == KVTREE_SORT_ASCENDING ? c < 0 : c > 0, "string keys are in byte order"); }
    p = k;
  }
  if (dir == KVTREE_SORT_ASCENDING) sx_cover("ascending"); else sx_cover("descending");
  usable();
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
}
/* integer of one of the classes: 1 or 10 digits, either sign; or any int (mode 1) */
static int anyint(int mode) {
  if (mode == 1) return (int)sx_sym("int", 32);
  switch ((int)sx_concrete(sx_choose("class", 4))) {
  case 0: { int v = (int)sx_sym("int", 32); sx_assume(v >= 0 && v <= 9); return v; }
  case 1: { int v = (int)sx_sym("int", 32); sx_assume(v >= 1000000000); return v; }
  case 2: { int v = (int)sx_sym("int", 32); sx_assume(v >= -9 && v < 0); return v; }
  default: { int v = (int)sx_sym("int", 32); sx_assume(v <= -1000000000); return v; }
  }
}
static char *dec(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); return rt_dup(b); }
static void ints(int mode) {
  for (int i = 0; i < N; i++) { num[i] = anyint(mode); for (int j = 0; j < i; j++) sx_assume(num[i] != num[j]); key[i] = dec(num[i]); add(i); }
}
static void int_sorted(int dir) {
  sx_check(kvtree_sort_int(T, dir) == KVTREE_SUCCESS, "integer sort succeeds");
  same();
  int first = 1, p = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) {
    int i; for (i = 0; el[i] != e; i++);
    if (!first) sx_check(dir == KVTREE_SORT_ASCENDING ? p < num[i] : p > num[i], "integer keys are in numeric order");
    p = num[i]; first = 0;
  }
}
static void listed(void) {
  int n = -7, *v = (int *)&n;
  sx_check(kvtree_list_int(T, &n, &v) == KVTREE_SUCCESS && n == N, "integer listing has one value per key");
  if (N == 0) { sx_check(v == NULL, "no list for an empty tree"); return; }
  for (int i = 0; i + 1 < n; i++) sx_check(v[i] < v[i + 1], "the listing is ascending");
  for (int i = 0; i < N; i++) { int hit = 0; for (int j = 0; j < n; j++) if (v[j] == num[i]) hit = 1; sx_check(hit, "the listing holds every key's value"); }
  kvtree_free(&v);
}
void h_c05_int(void) {
  long base = sx_live_allocs();
  N = (int)sx_param(0); int mode = (int)sx_param(1), dir = sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
  T = kvtree_new(); ints(mode); grab();
  int_sorted(dir);
  if (dir == KVTREE_SORT_ASCENDING) sx_cover("ascending"); else sx_cover("descending");
  usable();
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
}
void h_c05_list(void) {
  long base = sx_live_allocs();
  N = (int)sx_param(0); int mode = (int)sx_param(1);
  T = kvtree_new(); ints(mode); grab();
  kvtree_elem *before[MAXN]; int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) before[n++] = e;
  listed();
  n = 0;
  for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) sx_check(before[n++] == e, "listing does not reorder the tree");
  same(); sx_cover("done");
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
}
/* many keys, one of them arbitrary, at any place of the insertion order */
void h_c05_many(void) {
  long base = sx_live_allocs();
  N = (int)sx_param(0); int kind = (int)sx_param(1);
  int at = (int)sx_concrete(sx_choose("position", 3)) * (N - 1) / 2, dir = sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
  T = kvtree_new();
  for (int i = 0; i < N; i++) {
    /* spread, not monotonic: 0, big, negative, ... */
    long long c = (long long)((i * 7) % N) * (4000000000ll / N) - 2000000000ll;
    num[i] = i == at ? anyint(0) : (int)c;
    if (kind == 0) key[i] = dec(num[i]);
    else if (i == at) key[i] = sym_str(2, "key");
    else { char b[8] = "k0"; int z = (i * 7) % N; if (N <= 24) b[0] = 'a' + z; else { b[0] = (char)('a' + z / 20); b[1] = (char)('0' + z % 20); } key[i] = rt_dup(b); }
    for (int j = 0; j < i; j++) sx_assume(kind == 0 ? num[i] != num[j] : strcmp(key[i], key[j]) != 0);
    add(i);
  }
  grab();
  if (kind == 0) { int_sorted(dir); listed(); }
  else {
    sx_check(kvtree_sort(T, dir) == KVTREE_SUCCESS, "sort succeeds"); same();
    const char *p = NULL;
    for (kvtree_elem *e = kvtree_elem_first(T); e; e = kvtree_elem_next(e)) { const char *k = kvtree_elem_key(e); if (p) { int c = strcmp(p, k); sx_check(dir == KVTREE_SORT_ASCENDING ? c < 0 : c > 0, "string keys are in byte order"); } p = k; }
  }
  sx_cover("done");
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
}
/* parameters: keys: many, in three orders */
void h_c05_count(void) {
  int n = (int)sx_param(0), o = (int)sx_concrete(sx_choose("order", 3)), dir = sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
  kvtree *t = kvtree_new(); char b[16];
  /* unpacked from an image, insertion would be quadratic */
  size_t cap = (size_t)n * 20 + 4; unsigned char *img = sx_alloc(cap); size_t z = 4;
  img[0] = (unsigned char)(n >> 24); img[1] = (unsigned char)(n >> 16); img[2] = (unsigned char)(n >> 8); img[3] = (unsigned char)n;
  for (int i = 0; i < n; i++) { int v = o == 0 ? i : o == 1 ? n - 1 - i : (int)((long)i * 7919 % n); int l = snprintf(b, sizeof b, "%d", v - n / 2); memcpy(img + z, b, l + 1); z += l + 1; memset(img + z, 0, 4); z += 4; }
  kvtree_unpack((char *)img, t);
  int m = 0, *v = NULL;
  sx_check(kvtree_list_int(t, &m, &v) == KVTREE_SUCCESS && m == n, "all keys are listed");
  for (int i = 0; i < n; i++) sx_check(v[i] == i - n / 2, "the list is in order");
  free(v);
  sx_check(kvtree_sort_int(t, dir) == KVTREE_SUCCESS, "sort succeeds");
  int i = 0;
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e), i++) sx_check(i < n && kvtree_elem_key_int(e) == (dir == KVTREE_SORT_ASCENDING ? i : n - 1 - i) - n / 2, "integer keys are in order");
  sx_check(i == n, "no element is lost");
  sx_check(kvtree_sort(t, dir) == KVTREE_SUCCESS, "sort succeeds");
  const char *p = NULL;
  i = 0;
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e), i++) { const char *k = kvtree_elem_key(e); if (p) { int c = strcmp(p, k); sx_check(dir == KVTREE_SORT_ASCENDING ? c < 0 : c > 0, "string keys are in byte order"); } p = k; }
  sx_check(i == n, "no element is lost");
  kvtree_delete(&t);
  sx_cover("done");
}
void h_c05_empty(void) {
  long base = sx_live_allocs();
  T = sx_concrete(sx_choose("empty or NULL", 2)) ? kvtree_new() : NULL;
  int null = T == NULL, dir = sx_concrete(sx_choose("direction", 2)) ? KVTREE_SORT_DESCENDING : KVTREE_SORT_ASCENDING;
  N = 0; listed();
  kvtree_sort(T, dir); kvtree_sort_int(T, dir);
  sx_check(kvtree_size(T) == 0 && kvtree_elem_first(T) == NULL, "nothing appears");
  if (null) sx_cover("NULL"); else sx_cover("empty");
  kvtree_delete(&T);
  sx_check_live(base, "everything is released");
}
