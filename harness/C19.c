/* C19: printing renders exactly the documented tree and key=value forms. */
#include "h.h"
static char *buf; static size_t len, cap;                 /* expected text */
static void put(const char *s, size_t n) {
  if (len + n + 1 > cap) { size_t c = (len + n + 1) * 2 + 4000; char *b = sx_alloc(c); if (buf) memcpy(b, buf, len); buf = b; cap = c; }
  memcpy(buf + len, s, n); len += n;
}
static void spaces(int n) { static const char s[] = "                                        "; while (n > 0) { int m = n < 40 ? n : 40; put(s, m); n -= m; } }
static void line(int indent, const char *a, const char *m, const char *b) { spaces(indent); put(a, strlen(a)); put(m, strlen(m)); put(b, strlen(b)); put("\n", 1); }
/* elements are indented two spaces more than the tree they belong to */
static void render(const kvtree *t, int indent, int mode) {
  if (!t) { line(indent, "NULL LIST", "", ""); return; }
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    const kvtree *s = kvtree_elem_hash(e);
    if (mode == KVTREE_PRINT_KEYVAL && kvtree_size(s) == 1 && kvtree_size(kvtree_elem_hash(kvtree_elem_first(s))) == 0) { line(indent + 2, kvtree_elem_key(e), " = ", kvtree_elem_key(kvtree_elem_first(s))); sx_cover("key = value"); continue; }
    line(indent + 2, kvtree_elem_key(e), "", "");
    render(s, indent + 2, mode);
  }
}
static void captured(const char *what) {
  vm_capture = 0;
  sx_check(vm_out_len == len, what);
  if (len) sx_check(memcmp(vm_out, buf, len) == 0, what);
}
static void shown(const kvtree *t, int indent, int mode) {
  len = 0; render(t, indent, mode);
  vm_out_reset(); vm_capture = 1;
  int rc = kvtree_print_mode(t, indent, mode);
  captured("kvtree_print_mode prints another text than documented");
  sx_check(rc == KVTREE_SUCCESS, "kvtree_print_mode fails");
  if (mode != KVTREE_PRINT_TREE) return;
  vm_out_reset(); vm_capture = 1;
  rc = kvtree_print(t, indent);
  captured("kvtree_print prints another text than documented");
  sx_check(rc == KVTREE_SUCCESS, "kvtree_print fails");
}
static int anymode(void) { return sx_concrete(sx_choose("key/value mode", 2)) ? KVTREE_PRINT_KEYVAL : KVTREE_PRINT_TREE; }
/* parameters: nodes, levels, key length */
void h_c19_shape(void) {
  sym_nodes = (int)sx_param(0); sym_nulls = 1;
  rt *r = sym_tree((int)sx_param(1), 3, (int)sx_param(2)), *c = rt_copy(r);
  kvtree *t = kv_of(r);
  int in = (int)sx_concrete(sx_choose("indent", 3)) * 3, mode = anymode();
  shown(t, in, mode);
  sx_check(kv_is(t, c), "printing changes the tree");
  sx_cover("done");
}
void h_c19_null(void) { int in = (int)sx_concrete(sx_choose("indent", 5)), mode = anymode(); shown(NULL, in, mode); sx_cover("done"); }
/* parameters: from, to: every indent in between */
void h_c19_indent(void) {
  kvtree *t = kv_of(tree_no((int)sx_concrete(sx_choose("tree", 4)) + 2));
  int in = (int)sx_param(0) + (int)sx_concrete(sx_choose("indent", (unsigned)(sx_param(1) - sx_param(0) + 1))), mode = anymode();
  shown(t, in, mode);
  sx_cover("done");
}
/* parameters: levels, 1: a sibling on each level */
void h_c19_deep(void) {
  kvtree *t = NULL;
  for (int i = 0; i < sx_param(0); i++) { char b[8]; snprintf(b, sizeof b, "%d", i); kvtree *u = kvtree_new(); if (sx_param(1)) kvtree_set(u, "s", NULL); kvtree_set(u, b, t); t = u; }
  shown(t, 0, anymode());
  kvtree_delete(&t);
  sx_cover("done");
}
/* parameters: length of the keys, number of lengths from there */
void h_c19_long(void) {
  int n = (int)sx_param(0) + (sx_param(1) ? pick("length", (int)sx_param(1)) : 0); char *k = sx_alloc(n + 1);
  kvtree *t = kvtree_new(), *u = kvtree_new();
  memset(k, '%', n); k[n] = 0; k[n - 1] = 'n';
  kvtree_set(u, k, kvtree_new()); if (sx_concrete(sx_choose("two values", 2))) kvtree_set(u, "%s", NULL);
  k[0] = (char)sx_sym("character", 8); sx_assume(k[0] != 0);
  kvtree_set(t, k, u); kvtree_set(t, "%d%s%n", NULL);
  int in = (int)sx_concrete(sx_choose("indent", 2)) * 4, mode = anymode();
  shown(t, in, mode);
  sx_cover("done");
}
/* the log emits the lines of the tree form, each as one message */
static char pre[400]; static size_t npre;
static void logged(const kvtree *t, int indent) {
  if (!t) { put(pre, npre); line(indent, "NULL LIST", "", ""); return; }
  for (kvtree_elem *e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) { put(pre, npre); line(indent + 2, kvtree_elem_key(e), "", ""); logged(kvtree_elem_hash(e), indent + 2); }
}
/* parameters: levels (0: small trees), indent */
void h_c19_log(void) {
  vm_out_reset(); vm_capture = 1; kvtree_dbg(1, "%s", "x"); vm_capture = 0;
  npre = 0; { size_t i = vm_out_len; while (i && vm_out[i - 1] != 'x') i--; if (i) i--; if (i > sizeof pre) sx_done(); memcpy(pre, vm_out, i); npre = i; }
  kvtree *t = NULL;
  if (sx_param(0)) for (int i = 0; i < sx_param(0); i++) { kvtree *u = kvtree_new(); kvtree_set(u, "k", t); t = u; }
  else { sym_nodes = 2; sym_nulls = 1; rt *r = rt_new(), *s; char *k; k = sym_str(1, "key"); sx_assume(k[0] != '\n'); s = rt_put(r, k, rt_new()); leaf(s, "a%s"); rt_put(s, "b", sx_concrete(sx_choose("NULL", 2)) ? NULL : rt_new()); t = sx_concrete(sx_choose("NULL tree", 2)) ? NULL : kv_of(r); }
  len = 0; logged(t, (int)sx_param(1));
  vm_out_reset(); vm_capture = 1; int rc = kvtree_log(t, 1, (int)sx_param(1)); vm_capture = 0;
  sx_check(rc == KVTREE_SUCCESS, "kvtree_log fails");
  size_t i = 0, j = 0;
  for (;;) {                                                /* compare, skipping empty lines */
    while (j < vm_out_len && vm_out[j] == '\n' && (j == 0 || vm_out[j - 1] == '\n')) j++;
    if (i >= len || j >= vm_out_len) break;
    size_t n = 0; while (buf[i + n] != '\n') n++;
    sx_check(j + n < vm_out_len && memcmp(buf + i, vm_out + j, n + 1) == 0, "kvtree_log emits another text than the tree form");
    i += n + 1; j += n + 1;
  }
  sx_check(i >= len && j >= vm_out_len, "kvtree_log emits too few or too many lines");
  kvtree_delete(&t);
  sx_cover("done");
}
/* ---- the command line printer */
int kvtree_print_main(int argc, char **argv);
static int ac, ret; static char *av[8];
static void run(void *x) { (void)x; ret = kvtree_print_main(ac, av); }
static int status(void) { int code = 0; vm_capture = 1; vm_out_reset(); int ex = vm_call_exit(run, NULL, &code); vm_capture = 0; return (ex ? code : ret) & 255; }
static void args(int n, char **a) { av[0] = rt_dup("kvtree_print"); ac = n + 1; for (int i = 0; i < n; i++) av[i + 1] = rt_dup(a[i]); av[ac] = NULL; }
static unsigned char img[4096];
static const struct { int n; char *a[5]; int mode; } OK[] = {      /* mode: 1 tree, 2 keyval, 0: invalid, 3: help */
  {1, {"F"}, 1}, {3, {"-m", "tree", "F"}, 1}, {3, {"-m", "keyval", "F"}, 2}, {2, {"-mkeyval", "F"}, 2}, {2, {"-mtree", "F"}, 1},
  {3, {"--mode", "tree", "F"}, 1}, {3, {"--mode", "keyval", "F"}, 2}, {2, {"--mode=keyval", "F"}, 2}, {2, {"--mode=tree", "F"}, 1}, {2, {"--mo=keyval", "F"}, 2},
  {3, {"F", "-m", "keyval"}, 2}, {2, {"F", "--mode=keyval"}, 2}, {2, {"--", "F"}, 1}, {4, {"-m", "keyval", "--", "F"}, 2}, {5, {"-m", "tree", "-m", "keyval", "F"}, 2}, {5, {"-m", "keyval", "--mode", "tree", "F"}, 1},
  {0, {0}, 0}, {2, {"F", "F"}, 0}, {2, {"F", "G"}, 0}, {1, {"-m"}, 0}, {2, {"-m", "F"}, 0}, {2, {"-m", "tree"}, 0}, {3, {"-m", "", "F"}, 0}, {3, {"-m", "Tree", "F"}, 0}, {3, {"-m", "treee", "F"}, 0},
  {3, {"-m", "key", "F"}, 0}, {2, {"--mode=", "F"}, 0}, {2, {"F", "--mode"}, 0}, {2, {"-x", "F"}, 0}, {2, {"--xyz", "F"}, 0}, {2, {"--help=no", "F"}, 0}, {2, {"F", "-m"}, 0}, {3, {"-m", "tree ", "F"}, 0}, {4, {"-m", "tree", "F", "F"}, 0}, {1, {"--"}, 0}, {3, {"-x", "-m", "tree"}, 0}, {3, {"-x", "-h", "F"}, 0},
};
static void content(int k) {
  size_t n = ref_image(img, tree_no(k));
  vm_file_set("F", img, n, 0644); vm_file_set("G", img, n, 0644);
}
static void expect(int mode) { kvtree *t = kvtree_new(); sx_check(kvtree_read_file("F", t) == KVTREE_SUCCESS, "the file cannot be read"); len = 0; render(t, 0, mode == 2 ? KVTREE_PRINT_KEYVAL : KVTREE_PRINT_TREE); kvtree_delete(&t); }
void h_c19_main(void) {
  content(2 + (int)sx_concrete(sx_choose("tree", 5)));
  int i = (int)sx_concrete(sx_choose("arguments", sizeof OK / sizeof *OK));
  args(OK[i].n, (char **)OK[i].a);
  if (OK[i].mode) {
    expect(OK[i].mode);
    sx_check(status() == 0, "the printer fails with valid arguments");
    captured("the printer prints another text than the tree in the chosen mode");
    sx_cover("printed");
  } else { sx_check(status() != 0, "the printer accepts invalid arguments"); sx_cover("invalid"); }
  sx_check(vm_open_fds() == 0, "a descriptor stays open");
}
/* parameters: length, form: a mode of arbitrary characters */
void h_c19_mode(void) {
  content(2);
  char *m = sym_str((int)sx_param(0), "mode"), b[20];
  int tree = strcmp(m, "tree") == 0, keyval = strcmp(m, "keyval") == 0;
  if (sx_param(1) == 0) { char *a[] = { "-m", m, "F" }; args(3, a); }
  else if (sx_param(1) == 1) { snprintf(b, sizeof b, "--mode=%s", m); char *a[] = { b, "F" }; args(2, a); }
  else { snprintf(b, sizeof b, "-m%s", m); char *a[] = { b, "F" }; args(2, a); }
  if (tree || keyval) {
    expect(keyval ? 2 : 1);
    sx_check(status() == 0, "the printer fails with valid arguments");
    captured("the printer prints another text than the tree in the chosen mode");
    sx_cover("valid mode");
  } else { sx_check(status() != 0, "the printer accepts an unknown mode"); sx_cover("unknown mode"); }
}
/* files that cannot be read, in both modes */
void h_c19_unreadable(void) {
  content(3);
  size_t n = vm_file_size("F");
  switch (sx_concrete(sx_choose("file", 5))) {
  case 0: vm_file_remove("F"); break;
  case 1: vm_file_readable("F", 0); break;
  case 2: vm_file_truncate("F", 1 + sx_concrete(sx_choose("length", (unsigned)(n - 1)))); break;
  case 3: { size_t at = sx_concrete(sx_choose("position", (unsigned)(n - 3))); uint64_t m = sx_sym("burst", 32); sx_assume(m != 0); for (int i = 0; i < 4; i++) img[at + i] ^= (unsigned char)(m >> (8 * i)); vm_file_set("F", img, n, 0644); } break;
  default: vm_faults = VM_READ_ERR_P | VM_OPEN_P; vm_fault_budget = 1; break;
  }
  char *a[] = { sx_concrete(sx_choose("mode", 2)) ? "-mkeyval" : "-mtree", "F" };
  args(2, a);
  int s = status();
  if (vm_faults && !vm_faults_injected) sx_done();
  sx_check(s != 0, "the printer exits zero although the file cannot be read");
  sx_cover("done");
}
