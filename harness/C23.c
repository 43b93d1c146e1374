/* C23: when memory runs out a call either does what it always does, reports failure, or ends the program with an error status. */
#include "mio.h"
#define PATH "/d/file"
#define PRE1 "/d/set"
static unsigned char img[8192]; static size_t imgn, packn; static unsigned char packed[4096];
typedef struct { int ok; uint64_t v; char *s; kvtree *t; } res;
static char *K, *W;                                           /* arbitrary key and value */
static int fmt_i;
/* everything an operation returns goes to r; nothing but r and t may be touched */
static void run(int op, kvtree *t, kvtree *u, res *r) {
  int i = 0, n = 0, fd = -1, *l = NULL; unsigned long ul = 0; char *s = NULL; void *p = NULL; size_t z = 0; double d = 0; int64_t q = 0; uLong c = 0; kvtree *x; kvtree_elem *e;
  r->ok = 1; r->v = 0; r->s = NULL; r->t = NULL;
  switch (op) {
  case 0: r->t = kvtree_new(); r->ok = r->t != NULL; break;
  case 1: x = kvtree_set(t, K, u); r->ok = x != NULL; if (x) sx_check(x == u, "kvtree_set returns another tree"); break;
  case 2: r->ok = kvtree_set_kv(t, K, W) != NULL; break;
  case 3: r->ok = kvtree_set_kv_int(t, K, fmt_i) != NULL; break;
  case 4: r->ok = kvtree_setf(t, u, "%s %d %s", K, 3, W) != NULL; break;
  case 5: r->ok = kvtree_getf(t, "%s %s", "key", "value") != NULL; break;
  case 6: r->ok = kvtree_util_set_bytecount(t, K, 9) == KVTREE_SUCCESS; break;
  case 7: r->ok = kvtree_util_set_crc32(t, K, 9) == KVTREE_SUCCESS; break;
  case 8: r->ok = kvtree_util_set_int(t, K, 9) == KVTREE_SUCCESS; break;
  case 9: r->ok = kvtree_util_set_unsigned_long(t, K, 9) == KVTREE_SUCCESS; break;
  case 10: r->ok = kvtree_util_set_str(t, K, W) == KVTREE_SUCCESS; break;
  case 11: r->ok = kvtree_util_set_int64(t, K, -9) == KVTREE_SUCCESS; break;
  case 12: r->ok = kvtree_util_set_double(t, K, 9.5) == KVTREE_SUCCESS; break;
  case 13: r->ok = kvtree_util_set_ptr(t, K, (void *)0x1230) == KVTREE_SUCCESS; break;
  case 14: r->ok = kvtree_merge(t, u) == KVTREE_SUCCESS; break;
  case 15: r->v = kvtree_unpack((char *)packed, u); r->ok = r->v == packn; break;
  case 16: r->ok = kvtree_sort(t, KVTREE_SORT_DESCENDING) == KVTREE_SUCCESS; break;
  case 17: r->ok = kvtree_sort_int(u, KVTREE_SORT_ASCENDING) == KVTREE_SUCCESS; break;
  case 18: r->ok = kvtree_list_int(u, &n, &l) == KVTREE_SUCCESS; r->v = (uint64_t)n; if (r->ok) for (i = 0; i < n; i++) r->v = r->v * 31 + (uint64_t)l[i]; free(l); break;
  case 19: r->ok = kvtree_write_file(PATH, t) == KVTREE_SUCCESS; break;
  case 20: r->ok = kvtree_read_file(PATH, t) == KVTREE_SUCCESS; break;
  case 21: r->ok = kvtree_write_with_lock(PATH, t) == KVTREE_SUCCESS; break;
  case 22: r->ok = kvtree_read_with_lock(PATH, t) == KVTREE_SUCCESS; break;
  case 23: r->ok = kvtree_lock_open_read(PATH, &fd, t) == KVTREE_SUCCESS; if (r->ok) { kvtree_set_kv(t, "more", "text"); r->ok = kvtree_write_close_unlock(PATH, &fd, t) == KVTREE_SUCCESS; } break;
  case 24: r->ok = kvtree_write_persist(&p, &z, t) == KVTREE_SUCCESS; if (r->ok) { r->v = z; for (size_t j = 0; j < z; j++) r->v = r->v * 31 + ((unsigned char *)p)[j]; free(p); } break;
  case 25: r->ok = kvtree_write_to_gather(PRE1, u, 2) == KVTREE_SUCCESS; break;
  case 26: r->ok = kvtree_read_scatter_single(PRE1, t) == KVTREE_SUCCESS; break;
  case 27: vm_capture = 1; vm_out_reset(); kvtree_print(t, 1); kvtree_print_mode(t, 0, KVTREE_PRINT_KEYVAL); kvtree_log(t, 1, 0); vm_capture = 0; r->v = vm_out_len; for (size_t j = 0; j < vm_out_len; j++) r->v = r->v * 31 + (unsigned char)vm_out[j]; break;
  case 28: r->ok = kvtree_exchange_sendq(t, 3, u) == KVTREE_SUCCESS; break;
  case 29: r->ok = kvtree_util_get_int(u, "i", &i) == KVTREE_SUCCESS; r->v = (uint64_t)i; break;
  case 30: r->ok = kvtree_util_get_int64(u, "i", &q) == KVTREE_SUCCESS; r->v = (uint64_t)q; break;
  case 31: r->ok = kvtree_util_get_bytecount(u, "i", &ul) == KVTREE_SUCCESS; r->v = ul; break;
  case 32: r->ok = kvtree_util_get_crc32(u, "i", &c) == KVTREE_SUCCESS; r->v = c; break;
  case 33: r->ok = kvtree_util_get_unsigned_long(u, "i", &ul) == KVTREE_SUCCESS; r->v = ul; break;
  case 34: r->ok = kvtree_util_get_double(u, "i", &d) == KVTREE_SUCCESS; r->v = d == 7.0; break;
  case 35: r->ok = kvtree_util_get_str(u, "i", &s) == KVTREE_SUCCESS; r->v = s ? strlen(s) : 9; break;
  case 36: r->ok = kvtree_util_get_ptr(u, "i", &p) == KVTREE_SUCCESS; r->v = (uint64_t)p; break;
  case 37: kvtree_unset(t, "key"); kvtree_unset_kv(t, "a", "b"); kvtree_unset_kv_int(u, "i", 7); break;
  case 38: x = kvtree_get_kv(t, "key", "value"); e = kvtree_elem_get(t, "key"); s = kvtree_elem_get_first_val(t, "key"); r->ok = x && e && s && kvtree_get_kv_int(u, "i", 7) && kvtree_get_val(u, "i"); break;
  case 39: x = kvtree_extract(t, "key"); r->ok = x != NULL; kvtree_delete(&x); e = kvtree_elem_extract(u, "i"); r->ok &= e != NULL; if (e) elem_free(e); break;
  default: r->v = kvtree_pack_size(t); r->ok = kvtree_pack((char *)img, t) == r->v; break;
  }
  r->ok = (int)sx_concrete(r->ok);
}
static int sound(const kvtree *t) {
  int n = 0;
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    if (!kvtree_elem_key(e) || ++n > 12 || !sound(kvtree_elem_hash(e))) return 0;
    sx_access(kvtree_elem_key(e), strlen(kvtree_elem_key(e)) + 1, 0);
  }
  return 1;
}
static kvtree *base(void) { rt *r = tree_no(3); leaf(rt_put(r, "key", rt_new()), "value"); leaf(r, "d"); return kv_of(r); }
static kvtree *other(int op) {
  if (op == 15) return kvtree_new();
  rt *r = rt_new();
  if (op == 25) { for (int i = 0; i < 2; i++) leaf(rt_put(rt_put(r, num(i), rt_new()), "data", rt_new()), "of rank"); return kv_of(r); }
  if (op == 17 || op == 18) { leaf(r, "12"); leaf(r, "-3"); leaf(r, "7"); return kv_of(r); }
  leaf(rt_put(r, "i", rt_new()), "7"); leaf(rt_put(r, "key", rt_new()), "second");
  return kv_of(r);
}
static void files(int op) {
  vm_fs_reset();
  vm_dir_add("/d");
  if (op >= 19 && op <= 23) vm_file_set(PATH, img, imgn, 0644);
  if (op == 26) for (int i = -1; i < 2; i++) {
    rt *t = rt_new(), *k; char b[20] = "";
    leaf(rt_put(t, "LEVEL", rt_new()), i < 0 ? "1" : "0"); leaf(rt_put(t, "RANKS", rt_new()), "2"); k = rt_put(t, "RANK", rt_new());
    for (int j = i < 0 ? 0 : i; j < (i < 0 ? 2 : i + 1); j++) {
      rt *e = rt_put(k, num(j), rt_new());
      if (i >= 0) leaf(rt_put(e, "data", rt_new()), "of rank");
      else { char f[20] = ".0."; strcat(f, num(j)); leaf(rt_put(e, "FILE", rt_new()), f); leaf(rt_put(e, "OFFSET", rt_new()), "0"); }
    }
    if (i >= 0) { strcpy(b, ".0."); strcat(b, num(i)); }
    put_tree(PRE1, b, t);
  }
}
static int uses_u(int op) { return op == 1 || op == 4; }
static int op_; static kvtree *T, *U; static res R;
static void proc(void *a) { vm_oom = (int)sx_param(1); run(op_, T, U, &R); vm_oom = 0; }
static void texts(void) { K = sym_str((int)sx_param(3), "key"); W = sym_str(1, "value"); fmt_i = (int)sx_sym("number", 8) - 128; }
/* the same file, or both none */
static int same_files(int n, char **name, unsigned char **data, size_t *len) {
  if (vm_file_count() != n) return 0;
  for (int i = 0; i < n; i++) if (!vm_file_exists(name[i]) || vm_file_size(name[i]) != len[i] || memcmp(vm_file_data(name[i]), data[i], len[i]) != 0) return 0;
  return 1;
}
/* parameters: operation, 1 any one / 2 all from any allocation on, 1: no allocation can fail usefully, key length */
void h_c23(void) {
  op_ = (int)sx_param(0);
  packn = ref_pack(packed, tree_no(4)); imgn = ref_image(img, tree_no(5));
  texts();
  vm_env_name = "KVTREE_ENTRIES_PER_FILE"; vm_env_value = "1";
  /* what the call does with enough memory */
  files(op_);
  kvtree *t = base(), *u = other(op_); res e;
  run(op_, t, u, &e);
  int nf = vm_file_count(); char *name[8]; unsigned char *data[8]; size_t len[8];
  if (nf > 8) sx_incomplete("too many files");
  for (int i = 0; i < nf; i++) { name[i] = rt_dup(vm_file_name(i)); len[i] = vm_file_size(name[i]); data[i] = sx_alloc(len[i] + 1); memcpy(data[i], vm_file_data(name[i]), len[i]); }
  imgn = ref_image(img, tree_no(5));
  files(op_);
  long live = sx_live_allocs();
  T = base(); U = other(op_);
  int code = 0, exited = vm_call_exit(proc, NULL, &code);
  vm_oom = 0;
  if (exited) {
    sx_check(vm_oom_hit, "the program ends although there is memory");
    sx_check((code & 255) != 0, "running out of memory ends the program with success");
    sx_cover("program ends");
    return;
  }
  sx_check(!U || sound(U), "a tree holds an element without a key after running out of memory");
  sx_check(sound(T), "a tree holds an element without a key after running out of memory");
  sx_check(vm_open_fds() == 0 && vm_locks_held() == 0, "a descriptor or lock stays after running out of memory");
  if (R.ok || !vm_oom_hit) {
    sx_check(R.ok == e.ok && R.v == e.v, "another result after running out of memory");
    sx_check(kv_is_ordered(T, rt_of(t)), "another tree after running out of memory");
    if (!uses_u(op_)) sx_check(kv_is_ordered(U, rt_of(u)), "another tree after running out of memory");
    sx_check(same_files(nf, name, data, len), "other files after running out of memory");
    sx_cover(vm_oom_hit ? "succeeds all the same" : "enough memory");
  } else sx_cover("failure");
  int owned = uses_u(op_) && R.ok;
  if (R.t) kvtree_delete(&R.t);
  kvtree_delete(&T); if (!owned) { if (!uses_u(op_) || !vm_oom_hit) kvtree_delete(&U); else return; }
  sx_check_live(live, "memory is not released after running out of memory");
}
/* ---- ranks */
static int oks[MAXN], from, to; static kvtree *got[MAXN];
static void ended(int code) {
  sx_check(vm_oom_hit, "a rank ends the job although there is memory");
  sx_check((code & 255) != 0, "running out of memory ends the job with success");
  sx_cover("job ends");
  sx_done();
}
static void body(int r) {
  kvtree *k = kv_of(tree_no(r + 2)), *q = kvtree_new(), *s = kvtree_new(); int rc = 0;
  vm_oom = (int)sx_param(2);
  switch (sx_param(0)) {
  case 0: if (r == from) rc = kvtree_send(k, to, MPI_COMM_WORLD); if (r == to) rc = kvtree_recv(q, from, MPI_COMM_WORLD); break;
  case 1: rc = kvtree_sendrecv(k, (r + 1) % N, q, (r + N - 1) % N, MPI_COMM_WORLD); break;
  case 2: if (r == from) kvtree_merge(q, k); rc = kvtree_bcast(q, from, MPI_COMM_WORLD); break;
  case 3: rc = kvtree_exchange_sendq(s, (r + from) % N, k) != KVTREE_SUCCESS; rc |= kvtree_exchange(s, q, MPI_COMM_WORLD) != KVTREE_SUCCESS; break;
  case 4: rc = kvtree_exchange_sendq(s, (r + from) % N, k) != KVTREE_SUCCESS; rc |= kvtree_exchange_direction(s, q, MPI_COMM_WORLD, KVTREE_EXCHANGE_LEFT) != KVTREE_SUCCESS; break;
  case 5: { kvtree *m = rank_kv(r); rc = kvtree_write_gather(PRE1, m, MPI_COMM_WORLD); kvtree_delete(&m); } break;
  default: rc = kvtree_read_scatter(PRE1, q, MPI_COMM_WORLD); break;
  }
  oks[r] = (int)sx_concrete(rc == KVTREE_SUCCESS);
  got[r] = q;
  kvtree_delete(&k); kvtree_delete(&s);
}
static void wr(int r) { kvtree *k = rank_kv(r); kvtree_write_gather(PRE1, k, MPI_COMM_WORLD); kvtree_delete(&k); }
/* parameters: operation, ranks, 1 any one / 2 all from any allocation on, size class */
void h_c23_ranks(void) {
  N = (int)sx_param(1); segsize(4);
  int op = (int)sx_param(0);
  from = N > 1 ? (int)sx_concrete(sx_choose("from", N)) : 0; to = (from + 1) % N;
  for (int r = 0; r < N; r++) cls[r] = (int)sx_param(3);
  vm_dir_add("/d");
  if (op == 6) vm_mpi_run(N, wr);
  vm_exit_hook = ended; vm_exit_allowed = 1;
  vm_mpi_run(N, body);
  vm_oom = 0;
  int all = 1, any = 0;
  for (int r = 0; r < N; r++) { all &= oks[r]; any |= oks[r]; sx_check(sound(got[r]), "a tree holds an element without a key after running out of memory"); }
  if (op >= 5) sx_check(all == any, "ranks disagree after running out of memory");
  if (!all) { sx_check(vm_oom_hit, "failure although there is memory"); sx_cover("failure"); return; }
  for (int r = 0; r < N; r++) {
    rt *w = NULL;
    switch (op) {
    case 0: w = r == to ? tree_no(from + 2) : rt_new(); break;
    case 1: w = tree_no((r + N - 1) % N + 2); break;
    case 2: w = tree_no(from + 2); break;
    case 3: case 4: w = rt_new(); rt_put(w, num((r + N - from) % N), tree_no((r + N - from) % N + 2)); break;
    case 5: w = rt_new(); break;
    default: w = rank_tree(r); break;
    }
    sx_check(kv_is(got[r], w), "another tree after running out of memory");
    kvtree_delete(&got[r]);
  }
  if (op == 5) check_set(PRE1, N);
  sx_cover(vm_oom_hit ? "succeeds all the same" : "enough memory");
}
