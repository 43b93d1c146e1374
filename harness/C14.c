/* C14: the global exchange delivers every message once, to the right rank. */
#include "h.h"
#define MAXN 320
static int N, mode;
static unsigned char msgs[MAXN][MAXN];               /* [from][to]: number of messages queued */
static char sym[3];
static int kindm;
static kvtree *message(int s, int d, int i) {
  kvtree *m = kvtree_new();
  char b[32];
  snprintf(b, sizeof b, "%d to %d", s, d); kvtree_set(kvtree_set(m, "data", kvtree_new()), b, kvtree_new());
  if (i) { snprintf(b, sizeof b, "message %d", i); kvtree_set(m, b, kvtree_new()); }
  if (sym[0]) kvtree_set(m, sym, kvtree_new());
  return m;
}
static rt *expect(int s, int d, int n) {
  rt *m = rt_new(), *x = rt_put(m, "data", rt_new());
  char b[32];
  snprintf(b, sizeof b, "%d to %d", s, d); leaf(x, b);
  for (int i = 1; i < n; i++) { snprintf(b, sizeof b, "message %d", i); leaf(m, b); }
  if (sym[0]) leaf(m, sym);
  return m;
}
static const char *num(int i) { static char b[4][8]; static int k; k = (k + 1) & 3; snprintf(b[k], 8, "%d", i); return b[k]; }
static void check(const kvtree *t, int r, int out) {     /* out: entries by destination, else by source */
  int n = 0;
  for (int o = 0; o < N; o++) {
    int s = out ? r : o, d = out ? o : r;
    kvtree *e = kvtree_getf(t, "%d", o);
    int present = 0;
    for (kvtree_elem *x = kvtree_elem_first(t); x; x = kvtree_elem_next(x)) present += strcmp(kvtree_elem_key(x), num(o)) == 0;
    if (msgs[s][d]) {
      n++;
      sx_check(present == 1, out ? "the send tree is modified" : "a message is missing or delivered twice");
      sx_check(kindm == 1 ? kvtree_size(e) == 0 : kv_is(e, expect(s, d, msgs[s][d])), out ? "the send tree is modified" : "a message arrives with other contents");
    } else sx_check(present == 0, out ? "the send tree is modified" : "a rank receives a message that was not sent to it");
  }
  sx_check(kvtree_size(t) == n, out ? "the send tree is modified" : "the receive tree holds something else");
}
static void rank_main(int r) {
  kvtree *snd = kvtree_new(), *rcv = kvtree_new();
  int f = (int)sx_param(3);
  for (int k = 0; k < N; k++) {
    int d = f ? N - 1 - k : (k + r) % N;
    for (int i = 0; i < msgs[r][d]; i++) {
      kvtree *m = kindm == 1 ? kvtree_new() : message(r, d, i);
      if (kindm == 1) kvtree_setf(snd, sx_param(4) ? NULL : kvtree_new(), "%d", d);
      else { sx_check(kvtree_exchange_sendq(snd, d, m) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails"); sx_check(kv_is(m, i ? rt_of(m) : expect(r, d, 1)), "kvtree_exchange_sendq changes the message"); }
      kvtree_delete(&m);
    }
  }
  check(snd, r, 1);
  int rc = mode == 0 ? kvtree_exchange(snd, rcv, MPI_COMM_WORLD) : kvtree_exchange_direction(snd, rcv, MPI_COMM_WORLD, mode == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
  sx_check(rc == KVTREE_SUCCESS, "the exchange fails");
  check(rcv, r, 0);
  check(snd, r, 1);
  kvtree_delete(&snd); kvtree_delete(&rcv);
}
static void go(void) {
  kindm = (int)sx_param(2);
  vm_mpi_run(N, rank_main);
  sx_cover(mode == 0 ? "automatic" : mode == 1 ? "left" : "right");
}
/* parameters: ranks, arbitrary key, kind of message, order, NULL messages: every pattern of destinations */
void h_c14_all(void) {
  N = (int)sx_param(0);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  if (sx_param(1)) memcpy(sym, sym_str(2, "key"), 3);
  for (int s = 0; s < N; s++) for (int d = 0; d < N; d++) msgs[s][d] = (unsigned char)sx_concrete(sx_choose("message", 2));
  go();
}
/* parameters: ranks, arbitrary key, kind, order, -, messages: any senders and receivers, messages to one destination merge */
void h_c14_few(void) {
  N = (int)sx_param(0);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  if (sx_param(1)) memcpy(sym, sym_str(2, "key"), 3);
  for (int i = 0; i < sx_param(5); i++) { int s = (int)sx_concrete(sx_choose("sender", N)), d = (int)sx_concrete(sx_choose("receiver", N)); msgs[s][d]++; }
  go();
}
/* parameters: ranks ...: structured dense patterns: everybody to everybody, shifts, to one, from one, all but one */
void h_c14_dense(void) {
  N = (int)sx_param(0);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  int k = (int)sx_concrete(sx_choose("pattern", 6)), x = (int)sx_concrete(sx_choose("rank", N));
  for (int s = 0; s < N; s++) for (int d = 0; d < N; d++) switch (k) {
    case 0: msgs[s][d] = 1; break;
    case 1: msgs[s][d] = (s + x) % N == d; break;
    case 2: msgs[s][d] = d == x; break;
    case 3: msgs[s][d] = s == x; break;
    case 4: msgs[s][d] = d != x; break;
    default: msgs[s][d] = (s * 7 + d * 3 + x) % 5 == 0; break;
  }
  go();
}
/* ---- messages of all shapes queued for one destination, one after the other; several exchanges; every communicator */
static int nm, rounds, selfc;
static struct { int s, d; rt *t; } M[8];
static rt *shape(int k, const char *key) {
  rt *t = rt_new();
  switch (k) {
  case 0: break;
  case 1: leaf(t, "a"); break;
  case 2: leaf(t, "b"); break;
  case 3: leaf(rt_put(t, "a", rt_new()), "x"); break;
  case 4: leaf(rt_put(t, "a", rt_new()), "y"); break;
  case 5: leaf(rt_put(rt_put(t, "a", rt_new()), "x", rt_new()), "z"); break;
  case 6: leaf(t, "a"); leaf(t, "b"); break;
  case 7: leaf(rt_put(t, key, rt_new()), "x"); break;
  default: leaf(t, "0"); leaf(rt_put(t, "1", rt_new()), "2"); leaf(t, key); break;
  }
  return t;
}
static void merge_rank(int r) {
  int n = selfc ? 1 : N, me = selfc ? 0 : r;
  for (int round = 0; round < rounds; round++) {
    kvtree *snd = kvtree_new(), *rcv = kvtree_new();
    rt *out = rt_new(), *in = rt_new();
    for (int i = 0; i < nm; i++) {
      int s = (M[i].s + round) % n, d = (M[i].d + 2 * round) % n;
      if (s == me) {
        kvtree *m = kv_of(M[i].t);
        sx_check(kvtree_exchange_sendq(snd, d, m) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails");
        sx_check(kv_is(m, M[i].t), "kvtree_exchange_sendq changes the message");
        kvtree_delete(&m);
        rt_merge(rt_sub(out, num(d)), M[i].t);
        sx_check(kv_is(snd, out), "the messages queued for one destination are not merged");
      }
      if (d == me) rt_merge(rt_sub(in, num(s)), M[i].t);
    }
    MPI_Comm c = selfc ? MPI_COMM_SELF : MPI_COMM_WORLD;
    int rc = mode == 0 ? kvtree_exchange(snd, rcv, c) : kvtree_exchange_direction(snd, rcv, c, mode == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
    sx_check(rc == KVTREE_SUCCESS, "the exchange fails");
    sx_check(kv_is(rcv, in), "a rank does not receive exactly what was sent to it");
    sx_check(kv_is(snd, out), "the send tree is modified");
    kvtree_delete(&snd); kvtree_delete(&rcv);
  }
}
/* parameters: ranks, smallest and largest message, 1: from every rank, otherwise from one: messages of every length between */
static size_t ll; static char *lkey; static int lall;
static void long_rank(int r) {
  kvtree *snd = kvtree_new(), *rcv = kvtree_new(), *m = kvtree_new();
  int d = (r + N - 1) % N, from = (r + 1) % N;
  kvtree_set(m, lkey, kvtree_new());
  if (lall || r == 0) sx_check(kvtree_exchange_sendq(snd, d, m) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails");
  int rc = mode == 0 ? kvtree_exchange(snd, rcv, MPI_COMM_WORLD) : kvtree_exchange_direction(snd, rcv, MPI_COMM_WORLD, mode == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
  sx_check(rc == KVTREE_SUCCESS, "the exchange fails");
  if (lall || from == 0) {
    kvtree *e = kvtree_getf(rcv, "%d", from);
    kvtree_elem *x = kvtree_elem_first(e);
    sx_check(kvtree_size(rcv) == 1 && kvtree_size(e) == 1, "a message is missing");
    sx_check(strlen(kvtree_elem_key(x)) == ll && memcmp(kvtree_elem_key(x), lkey, ll) == 0 && kvtree_size(kvtree_elem_hash(x)) == 0, "a message arrives with other contents");
  } else sx_check(kvtree_size(rcv) == 0, "a rank receives a message that was not sent to it");
  kvtree_delete(&m); kvtree_delete(&snd); kvtree_delete(&rcv);
}
void h_c14_long(void) {
  N = (int)sx_param(0); lall = (int)sx_param(3);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  ll = (size_t)sx_param(1) + (size_t)pick("length", (int)(sx_param(2) - sx_param(1) + 1));
  lkey = sx_alloc(ll + 1);
  for (size_t i = 0; i < ll; i++) lkey[i] = (char)('a' + (i >> 3) % 25);
  lkey[ll] = 0;
  vm_mpi_run(N, long_rank);
  sx_cover("done");
}
/* parameters: ranks, messages, rounds, 1: every rank for itself, length of an arbitrary key, 1: any senders and receivers */
void h_c14_merge(void) {
  N = (int)sx_param(0); nm = (int)sx_param(1); rounds = (int)sx_param(2); selfc = (int)sx_param(3);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  const char *key = sx_param(4) ? sym_str((int)sx_param(4), "key") : "k";
  int s = (int)sx_concrete(sx_choose("sender", N)), d = (int)sx_concrete(sx_choose("receiver", N));
  for (int i = 0; i < nm; i++) {
    M[i].s = i && sx_param(5) ? (int)sx_concrete(sx_choose("sender", N)) : s;
    M[i].d = i && sx_param(5) ? (int)sx_concrete(sx_choose("receiver", N)) : d;
    int k = (int)sx_concrete(sx_choose("message", 9));
    if (!sx_param(4) && (k == 7)) sx_done();
    M[i].t = shape(k, key);
  }
  vm_mpi_run(N, merge_rank);
  sx_cover(mode == 0 ? "automatic" : mode == 1 ? "left" : "right");
}
/* parameters: ranks, length of an arbitrary key: every division into groups, every group exchanges among itself */
static int pat, px;
static int sends(int s, int d, int n) {
  switch (pat) {
  case 0: return 1;
  case 1: return (s + px) % n == d;
  case 2: return d == px % n;
  case 3: return s == px % n;
  default: return (s * 7 + d * 3 + px) % 2;
  }
}
static void split_rank(int w) {
  int g = vm_group[w], n = gsize(N, g), me = vm_group_rank[w];
  kvtree *snd = kvtree_new(), *rcv = kvtree_new();
  rt *out = rt_new(), *in = rt_new();
  for (int o = 0; o < n; o++) {
    if (sends(me, o, n)) { kvtree *m = message(w, gworld(N, g, o), 0); kvtree_exchange_sendq(snd, o, m); kvtree_delete(&m); rt_put(out, num(o), expect(w, gworld(N, g, o), 1)); }
    if (sends(o, me, n)) rt_put(in, num(o), expect(gworld(N, g, o), w, 1));
  }
  int rc = mode == 0 ? kvtree_exchange(snd, rcv, VM_COMM_GROUP) : kvtree_exchange_direction(snd, rcv, VM_COMM_GROUP, mode == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
  sx_check(rc == KVTREE_SUCCESS, "the exchange fails");
  sx_check(kv_is(rcv, in), "a rank does not receive exactly what was sent to it");
  sx_check(kv_is(snd, out), "the send tree is modified");
  kvtree_delete(&snd); kvtree_delete(&rcv);
}
void h_c14_split(void) {
  N = (int)sx_param(0);
  int ng = split(N);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  if (sx_param(1)) memcpy(sym, sym_str((int)sx_param(1), "key"), sx_param(1) + 1);
  pat = (int)sx_concrete(sx_choose("pattern", 5));
  px = pat ? (int)sx_concrete(sx_choose("rank", N)) : 0;
  vm_mpi_run(N, split_rank);
  sx_cover(ng == 1 ? "one group" : "several groups");
}
/* parameters: ranks: many ranks: one message over any of the critical distances, or every rank to its neighbour at that distance */
void h_c14_many(void) {
  N = (int)sx_param(0);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  int d[64], n = 0;
  for (int b = 1; b < N; b *= 2) {
    d[n++] = b;
    if (b > 2) d[n++] = b - 1;
    if (b > 1) d[n++] = N - b;
    if (N - b - 1 > 0 && b > 2) d[n++] = N - b - 1;
  }
  int k = d[sx_concrete(sx_choose("distance", n))];
  int s = (int)sx_concrete(sx_choose("sender", 3));
  if (s == 2) for (int r = 0; r < N; r++) msgs[r][(r + k) % N] = 1;
  else { s = s ? N - 3 : 0; msgs[s][(s + k) % N] = 1; }
  go();
}
/* parameters: ranks: one message over the distances that are the first to need a ninth bit */
void h_c14_far(void) {
  static const int d[4] = {255, 256, 257, 299};
  N = (int)sx_param(0);
  mode = (int)sx_concrete(sx_choose("exchange", 3));
  int s = sx_concrete(sx_choose("sender", 2)) ? N - 1 : 0, k = d[sx_concrete(sx_choose("distance", 4))];
  msgs[s][(s + k) % N] = 1;
  go();
}
/* a message queued for any rank */
void h_c14_queue(void) {
  static const int other[6] = {0, 7, 12, 99, 123456, 2147483647};
  int r = (int)sx_sym("rank", 32);
  int two = (int)sx_concrete(sx_choose("one or two ranks", 2));
  int q = two ? other[sx_concrete(sx_choose("other rank", 6))] : r;
  sx_assume(r >= 0 && (!two || r != q));
  kvtree *t = kvtree_new(), *m = kv_of(tree_no(3)), *l = kv_of(tree_no(4));
  sx_check(kvtree_exchange_sendq(t, r, m) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails");
  sx_check(kvtree_exchange_sendq(t, q, l) == KVTREE_SUCCESS, "kvtree_exchange_sendq fails");
  rt *a = rt_copy(tree_no(3)), *b = rt_copy(tree_no(4));
  if (!two) rt_merge(a, b);
  sx_check(kv_is(m, tree_no(3)) && kv_is(l, tree_no(4)), "kvtree_exchange_sendq changes the message");
  char x[16], y[16];
  snprintf(x, sizeof x, "%d", r); snprintf(y, sizeof y, "%d", q);
  sx_check(kvtree_size(t) == 1 + two, "the send tree holds other destinations");
  sx_check(kv_is(kvtree_get(t, x), a), "the messages queued for one destination are not merged");
  if (two) sx_check(kv_is(kvtree_get(t, y), b), "a message is queued for another rank");
  kvtree_delete(&t); kvtree_delete(&m); kvtree_delete(&l);
  sx_cover(two ? "two" : "one");
}
