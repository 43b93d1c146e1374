# The planted bugs: (file under src/, old text, new text) edits and the demonstration.
SEEDS = []
def S(id, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    SEEDS.append(dict(id=id, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ------------------------------------------------------------------ C01
S("C01-a", ("kvtree.c", "if (elem->key != NULL && strcmp(elem->key, key) == 0) {",
            "if (elem->key != NULL && strncmp(elem->key, key, KVTREE_MAX_LINE) == 0) {"),
  "two keys of more than 1024 bytes that share their first 1024 bytes",
  "lookups compare only the first KVTREE_MAX_LINE bytes of a key, so long keys with a common prefix are one key",
r'''
int main(void) {
  char a[1100], b[1100];
  memset(a, 'k', 1090); a[1090] = 0; memcpy(b, a, sizeof a); b[1080] = 'x';
  kvtree* t = kvtree_new();
  kvtree_set(t, a, kvtree_new());
  CHECK(kvtree_get(t, b) == NULL);
  kvtree_set(t, b, kvtree_new());
  CHECK(kvtree_size(t) == 2);
  kvtree_delete(&t);
  return 0;
}
''')
S("C01-b", ("kvtree.c", """    if (elem->hash != NULL) {
      kvtree_delete(&elem->hash);
    }
    elem->hash = hash_value;""", """    if (hash_value != NULL) {
      kvtree_delete(&elem->hash);
      elem->hash = hash_value;
    }"""),
  "setting a key that already has a subtree to NULL",
  "kvtree_set(t, k, NULL) keeps the old subtree of an existing key",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree_set_kv(t, "a", "1");
  kvtree_set(t, "a", NULL);
  CHECK(kvtree_get(t, "a") == NULL);
  CHECK(kvtree_size(t) == 1);
  kvtree_delete(&t);
  return 0;
}
''')
S("C01-c", ("kvtree.c", """  char tmp[100];
  sprintf(tmp, "%d", key);

  kvtree_elem* elem = kvtree_elem_get(hash, tmp);
  if (elem != NULL) {
    LIST_REMOVE(elem, pointers);
  }
  return elem;""", """  kvtree_elem* elem;
  for (elem = kvtree_elem_first(hash);
       elem != NULL;
       elem = kvtree_elem_next(elem))
  {
    if (kvtree_elem_key_int(elem) == key) {
      LIST_REMOVE(elem, pointers);
      break;
    }
  }
  return elem;"""),
  "extracting an element by integer while another key converts to the same integer (\"07\", \"0x\", any word for 0)",
  "kvtree_elem_extract_int takes out an element whose key merely converts to the number",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree_set(t, "NAME", kvtree_new());
  kvtree_set(t, "7x", kvtree_new());
  CHECK(kvtree_elem_extract_int(t, 0) == NULL);
  CHECK(kvtree_elem_extract_int(t, 7) == NULL);
  CHECK(kvtree_size(t) == 2);
  kvtree_delete(&t);
  return 0;
}
''')
# ------------------------------------------------------------------ C02
S("C02-a", [("kvtree.c", """    kvtree* key_hash1 = kvtree_get(hash1, key);
    if (key_hash1 == NULL) {""", """    kvtree* key_hash1 = kvtree_get(hash1, key);
    if (kvtree_elem_get(hash1, key) == NULL) {""")],
  "merging into a tree in which a shared key is bound to NULL instead of a subtree",
  "kvtree_merge drops the data under a key that the destination has bound to NULL",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set(a, "k", NULL);
  kvtree_set_kv_int(b, "k", 5);
  kvtree_merge(a, b);
  CHECK(kvtree_get_kv_int(a, "k", 5) != NULL);
  kvtree_delete(&a); kvtree_delete(&b);
  return 0;
}
''')
S("C02-b", [("kvtree.c", """    kvtree* key_hash2 = kvtree_elem_hash(elem);
    if (kvtree_merge(key_hash1, key_hash2) != KVTREE_SUCCESS) {
      rc = KVTREE_FAILURE;
    }""", """    kvtree* key_hash2 = kvtree_elem_hash(elem);
    if (kvtree_size(key_hash1) == 0) {
      /* nothing to merge with, hand over the elements */
      kvtree_elem* sub = kvtree_elem_first(key_hash2);
      while (sub != NULL && kvtree_size(kvtree_elem_hash(sub)) == 0) {
        kvtree_elem* next = kvtree_elem_next(sub);
        kvtree_set(key_hash1, kvtree_elem_key(sub), kvtree_new());
        sub = next;
      }
      if (sub == NULL) {
        continue;
      }
      if (kvtree_elem_next(sub) == NULL) {
        kvtree_set(key_hash1, kvtree_elem_key(sub), kvtree_elem_hash(sub));
        sub->hash = NULL;
        continue;
      }
    }
    if (kvtree_merge(key_hash1, key_hash2) != KVTREE_SUCCESS) {
      rc = KVTREE_FAILURE;
    }""")],
  "merging a source at least three levels deep and using the source afterwards",
  "kvtree_merge moves subtrees out of the source instead of copying them",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set_kv(kvtree_set_kv(b, "a", "b"), "c", "d");
  kvtree_merge(a, b);
  CHECK(kvtree_get_kv(kvtree_get_kv(a, "a", "b"), "c", "d") != NULL);
  CHECK(kvtree_get_kv(kvtree_get_kv(b, "a", "b"), "c", "d") != NULL);
  return 0;
}
''')
# ------------------------------------------------------------------ C03
S("C03-a", ("kvtree.c", """  int rc = kvtree_unset(v, val);
  if (kvtree_size(v) == 0) {
    rc = kvtree_unset(hash, key);
  }
""", """  if (kvtree_size(v) == 1) {
    /* it is the only one, so the key goes too */
    return kvtree_unset(hash, key);
  }
  int rc = kvtree_unset(v, val);
"""),
  "unsetting a value which a key with exactly one other value does not have",
  "kvtree_unset_kv removes a key and its value when asked to remove a value that is not there",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree_set_kv(t, "k", "1");
  kvtree_unset_kv(t, "k", "2");
  CHECK(kvtree_get_kv(t, "k", "1") != NULL);
  kvtree_delete(&t);
  return 0;
}
''')
S("C03-b", ("kvtree.c", """      kvtree* tmp = kvtree_get(h, key);

      /* didn't find an entry for this key, so create one */
      if (tmp == NULL) {""", """      kvtree* tmp = kvtree_get(h, key);

      /* didn't find an entry for this key, so create one */
      if (kvtree_size(tmp) == 0) {"""),
  "a pointer kept to an empty intermediate tree before kvtree_setf walks through it",
  "kvtree_setf replaces (and frees) an existing empty intermediate subtree, so pointers to it dangle",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree* mid = kvtree_set(t, "a", kvtree_new());
  kvtree_setf(t, kvtree_new(), "%s %s", "a", "b");
  CHECK(kvtree_get(t, "a") == mid);
  CHECK(kvtree_size(mid) == 1);
  kvtree_delete(&t);
  return 0;
}
''')
S("C03-c", ("kvtree.c", """      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned long));
    } else if (strcmp(token, "%#x") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned int));
    } else if (strcmp(token, "%#lx") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned long));
    } else if (strcmp(token, "%llu") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned long long));
    } else if (strcmp(token, "%f") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, double));
    } else if (strcmp(token, "%p") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, void*));
    } else {
      kvtree_abort(-1, "Unsupported hash key format '%s' @ %s:%d",
        token, __FILE__, __LINE__
      );
    }

    /* check that we were able to fit the string into our buffer */
    if (size >= sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    /* get hash for this key */""", """      size = snprintf(key, sizeof(key), "%u", va_arg(args, unsigned int));
    } else if (strcmp(token, "%#x") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned int));
    } else if (strcmp(token, "%#lx") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned long));
    } else if (strcmp(token, "%llu") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, unsigned long long));
    } else if (strcmp(token, "%f") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, double));
    } else if (strcmp(token, "%p") == 0) {
      size = snprintf(key, sizeof(key), token, va_arg(args, void*));
    } else {
      kvtree_abort(-1, "Unsupported hash key format '%s' @ %s:%d",
        token, __FILE__, __LINE__
      );
    }

    /* check that we were able to fit the string into our buffer */
    if (size >= sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    /* get hash for this key */"""),
  "kvtree_getf with %lu and a value of 2^32 or more",
  "kvtree_getf formats %lu arguments as 32 bit, so large keys stored by kvtree_setf are not found",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree* v = kvtree_new();
  kvtree_setf(t, v, "%s %lu", "a", 5000000000UL);
  CHECK(kvtree_getf(t, "%s %lu", "a", 5000000000UL) == v);
  kvtree_delete(&t);
  return 0;
}
''')
S("C03-d", ("kvtree.c", """  kvtree* v = kvtree_get(k, val);
  if (v == NULL) {
    v = kvtree_set(k, val, kvtree_new());
  }

  return v;""", """  kvtree* v = kvtree_get(k, val);
  if (kvtree_size(v) == 0) {
    v = kvtree_set(k, val, kvtree_new());
  }

  return v;"""),
  "kvtree_set_kv called again for a pair whose (still empty) subtree the caller holds",
  "kvtree_set_kv frees and replaces the existing subtree of a pair when it is empty",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree* v = kvtree_set_kv(t, "a", "1");
  CHECK(kvtree_set_kv(t, "a", "1") == v);
  CHECK(kvtree_get_kv(t, "a", "1") == v);
  return 0;
}
''')
# ------------------------------------------------------------------ C04
S("C04-a", ("kvtree_util.c", "*val = (int64_t) strtoll(val_str, NULL, 0);", "*val = (int64_t) strtod(val_str, NULL);"),
  "a 64 bit value with more than 53 significant bits",
  "kvtree_util_get_int64 reads the value as a double and loses low bits",
r'''
int main(void) {
  kvtree* t = kvtree_new(); int64_t v = 0;
  kvtree_util_set_int64(t, "k", 9007199254740993LL);
  CHECK(kvtree_util_get_int64(t, "k", &v) == KVTREE_SUCCESS && v == 9007199254740993LL);
  kvtree_delete(&t);
  return 0;
}
''')
S("C04-b", ("kvtree_util.c", """int kvtree_util_get_unsigned_long(const kvtree* hash, const char* key, unsigned long* val)
{
  int rc = KVTREE_FAILURE;

  /* check whether this key is even set */
  char* val_str = kvtree_get_val(hash, key);
  if (val_str != NULL) {
    /* convert the key string */
    *val = strtoul(val_str, NULL, 0);""", """int kvtree_util_get_unsigned_long(const kvtree* hash, const char* key, unsigned long* val)
{
  int rc = KVTREE_FAILURE;

  /* check whether this key is even set */
  char* val_str = kvtree_get_val(hash, key);
  if (val_str != NULL) {
    /* convert the key string */
    *val = (unsigned long) strtol(val_str, NULL, 0);"""),
  "an unsigned long of 2^63 or more",
  "kvtree_util_get_unsigned_long saturates at LONG_MAX",
r'''
int main(void) {
  kvtree* t = kvtree_new(); unsigned long v = 0;
  kvtree_util_set_unsigned_long(t, "k", ULONG_MAX - 3);
  CHECK(kvtree_util_get_unsigned_long(t, "k", &v) == KVTREE_SUCCESS && v == ULONG_MAX - 3);
  kvtree_delete(&t);
  return 0;
}
''')
S("C04-c", ("kvtree_util.c", "*val = (uLong) strtoul(val_str, NULL, 0);", "*val = (uLong) (int) strtoul(val_str, NULL, 0);"),
  "a CRC with its top bit set",
  "kvtree_util_get_crc32 sign-extends the value",
r'''
int main(void) {
  kvtree* t = kvtree_new(); uLong v = 0;
  kvtree_util_set_crc32(t, "k", 0x89abcdefUL);
  CHECK(kvtree_util_get_crc32(t, "k", &v) == KVTREE_SUCCESS && v == 0x89abcdefUL);
  kvtree_delete(&t);
  return 0;
}
''')
# ------------------------------------------------------------------ C05
S("C05-a", ("kvtree.c", "int cmp = strcmp(str_b, str_a);", "int cmp = strcasecmp(str_b, str_a);"),
  "descending sort of keys that differ in case or in punctuation between the cases",
  "descending sort is case insensitive, so it is not the reverse of strcmp order",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree_set(t, "Z", NULL); kvtree_set(t, "a", NULL); kvtree_set(t, "_", NULL);
  kvtree_sort(t, KVTREE_SORT_DESCENDING);
  kvtree_elem* e = kvtree_elem_first(t);
  CHECK(!strcmp(kvtree_elem_key(e), "a")); e = kvtree_elem_next(e);
  CHECK(!strcmp(kvtree_elem_key(e), "_")); e = kvtree_elem_next(e);
  CHECK(!strcmp(kvtree_elem_key(e), "Z"));
  return 0;
}
''')
S("C05-b", ("kvtree.c", """    if (elem->key != NULL && strcmp(elem->key, key) == 0) {
      return elem;
    }""", """    if (elem->key != NULL && strcmp(elem->key, key) == 0) {
      /* keep recently used elements near the front */
      LIST_REMOVE(elem, pointers);
      LIST_INSERT_HEAD((kvtree*) hash, elem, pointers);
      return elem;
    }"""),
  "a lookup between sorting a tree and walking it",
  "looking up a key moves its element to the front and destroys the order",
r'''
int main(void) {
  kvtree* t = kvtree_new();
  kvtree_set(t, "c", NULL); kvtree_set(t, "b", NULL); kvtree_set(t, "a", NULL);
  kvtree_sort(t, KVTREE_SORT_ASCENDING);
  kvtree_get(t, "c");
  CHECK(!strcmp(kvtree_elem_key(kvtree_elem_first(t)), "a"));
  return 0;
}
''')
S("C05-c", ("kvtree.c", """  /* sort the keys */
  qsort(list, count, sizeof(int), &kvtree_cmp_fn_int_asc);
""", """  /* sort the keys, they may already be in order */
  if (list[0] > list[count - 1]) {
    qsort(list, count, sizeof(int), &kvtree_cmp_fn_int_asc);
  }
"""),
  "three or more keys whose list starts below where it ends but is out of order in between",
  "kvtree_list_int returns an unsorted list",
r'''
int main(void) {
  kvtree* t = kvtree_new(); int n = 0; int* v = NULL;
  kvtree_set(t, "3", NULL); kvtree_set(t, "1", NULL); kvtree_set(t, "5", NULL); kvtree_set(t, "2", NULL);
  kvtree_list_int(t, &n, &v);
  CHECK(n == 4 && v[0] == 1 && v[1] == 2 && v[2] == 3 && v[3] == 5);
  return 0;
}
''')
# ------------------------------------------------------------------ C06
S("C06-a", ("kvtree.c", """  size_t size = 0;
  if (elem != NULL) {
    if (elem->key != NULL) {
      size += strlen(elem->key) + 1;
    } else {
      size += 1;
    }
    size += kvtree_pack_size(elem->hash);""", """  size_t size = 0;
  if (elem != NULL) {
    if (elem->key != NULL) {
      size += strnlen(elem->key, KVTREE_MAX_LINE) + 1;
    } else {
      size += 1;
    }
    size += kvtree_pack_size(elem->hash);"""),
  "a key longer than 1024 bytes",
  "kvtree_pack_size counts at most KVTREE_MAX_LINE bytes per key while kvtree_pack writes them all (buffer overflow)",
r'''
int main(void) {
  char k[3000]; memset(k, 'k', 2999); k[2999] = 0;
  kvtree* t = kvtree_new(); kvtree_set(t, k, kvtree_new());
  char* buf = malloc(10000);
  CHECK(kvtree_pack_size(t) == kvtree_pack(buf, t));
  return 0;
}
''')
S("C06-b", ("kvtree_helpers.c", """int kvtree_pack_uint16_t(void* buf, size_t buf_size, size_t* buf_pos, uint16_t val)
{
  /* check that we have a valid pointer to a buffer position value */
  if (buf == NULL || buf_pos == NULL) {
    kvtree_err("NULL pointer to buffer or buffer position @ %s:%d",
            __FILE__, __LINE__
    );
    return KVTREE_FAILURE;
  }

  /* get current buffer position */
  size_t pos = *buf_pos;

  /* compute final buffer position */
  size_t pos_final = pos + sizeof(val);
""", """int kvtree_pack_uint16_t(void* buf, size_t buf_size, size_t* buf_pos, uint16_t val)
{
  /* check that we have a valid pointer to a buffer position value */
  if (buf == NULL || buf_pos == NULL) {
    kvtree_err("NULL pointer to buffer or buffer position @ %s:%d",
            __FILE__, __LINE__
    );
    return KVTREE_FAILURE;
  }

  /* get current buffer position */
  size_t pos = *buf_pos;

  /* compute final buffer position */
  size_t pos_final = pos + sizeof(val);
  *buf_pos = pos_final;
"""),
  "packing a 16 bit value into a buffer without room for it",
  "the position is advanced although nothing was packed",
r"""
int main(void) {
  char b[4]; size_t pos = 3;
  CHECK(kvtree_pack_uint16_t(b, 4, &pos, 7) == KVTREE_FAILURE);
  CHECK(pos == 3);
  return 0;
}
""")
S("C06-c", ("kvtree.c", """    kvtree_elem* elem = kvtree_elem_new();
    size += kvtree_elem_unpack(buf + size, elem);
    LIST_INSERT_HEAD(hash, elem, pointers);""", """    kvtree_elem* elem = kvtree_elem_new();
    size += kvtree_elem_unpack(buf + size, elem);
    if (elem->key[0] == '\\0') {
      /* skip elements without a key */
      kvtree_elem_delete(elem);
      continue;
    }
    LIST_INSERT_HEAD(hash, elem, pointers);"""),
  "a key that is the empty string",
  "unpacking drops the element whose key is the empty string",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); char b[100];
  kvtree_set_kv(t, "", "v");
  kvtree_pack(b, t); kvtree_unpack(b, u);
  CHECK(kvtree_get_kv(u, "", "v") != NULL);
  return 0;
}
''')
# ------------------------------------------------------------------ C07
S("C07-a", ("kvtree.c", "int fd = kvtree_open(file, O_WRONLY | O_CREAT | O_TRUNC, mode_file);", "int fd = kvtree_open(file, O_WRONLY | O_CREAT, mode_file);"),
  "writing a tree over an existing file that is longer",
  "kvtree_write_file no longer truncates: the file keeps the tail of its previous contents",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); struct stat st; int i;
  for (i = 0; i < 100; i++) kvtree_set_kv_int(a, "K", i);
  kvtree_set_kv_int(b, "K", 1);
  CHECK(kvtree_write_file("f", a) == 0 && kvtree_write_file("f", b) == 0);
  CHECK(stat("f", &st) == 0 && st.st_size == (off_t) kvtree_persist_size(b));
  return 0;
}
''')
S("C07-b", ("kvtree.c", """  kvtree_unpack(buf + size, tmp_hash);
  kvtree_merge(hash, tmp_hash);
  kvtree_delete(&tmp_hash);

  /* free the buffer holding the file contents */""", """  kvtree_unpack(buf + size, tmp_hash);
  kvtree_elem* elem;
  for (elem = kvtree_elem_first(hash);
       elem != NULL;
       elem = kvtree_elem_next(elem))
  {
    /* what we have wins over what is in the file */
    kvtree_unset(tmp_hash, kvtree_elem_key(elem));
  }
  kvtree_merge(hash, tmp_hash);
  kvtree_delete(&tmp_hash);

  /* free the buffer holding the file contents */"""),
  "reading a file into a tree that already has one of the file's top level keys",
  "the contents of the file are not merged under keys that are already present",
r"""
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set_kv(a, "K", "1"); kvtree_set_kv(b, "K", "2");
  CHECK(kvtree_write_file("f", a) == 0);
  CHECK(kvtree_read_file("f", b) == 0);
  CHECK(kvtree_get_kv(b, "K", "1") && kvtree_get_kv(b, "K", "2"));
  return 0;
}
""")
# ------------------------------------------------------------------ C08
S("C08-a", ("kvtree.c", """  if (magic   != KVTREE_FILE_MAGIC ||
      type    != KVTREE_FILE_TYPE_HASH ||
      version != KVTREE_FILE_VERSION_HASH_1)
  {
    kvtree_err("File header""", """  if (magic != KVTREE_FILE_MAGIC ||
      version != KVTREE_FILE_VERSION_HASH_1)
  {
    kvtree_err("File header"""),
  "an otherwise intact file whose type field is not that of a tree",
  "files of another type are accepted",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set_kv(a, "K", "1");
  char* buf; size_t n;
  kvtree_write_persist((void**)&buf, &n, a);
  buf[5] = 9;
  uint32_t c = htonl(crc32(crc32(0, 0, 0), (void*)buf, n - 4)); memcpy(buf + n - 4, &c, 4);
  int fd = open("f", O_WRONLY|O_CREAT, 0600); CHECK(write(fd, buf, n) == n); close(fd);
  CHECK(kvtree_read_file("f", b) != KVTREE_SUCCESS);
  CHECK(kvtree_size(b) == 0);
  return 0;
}
'''.replace("int main", "#include <arpa/inet.h>\n#include <zlib.h>\nint main"))
S("C08-b", ("kvtree.c", "    if (nread != remainder) {\n", "    if (crc_set && nread != remainder) {\n"),
  "a file without CRC flag that is cut off in its body (heap contents then decide)",
  "the missing tail of a file that has no CRC is taken from uninitialised memory",
r"""
#include <arpa/inet.h>
extern void* __libc_calloc(size_t, size_t);
void* malloc(size_t n) { return __libc_calloc(n, 1); }
static int put(char* p, uint32_t v) { v = htonl(v); memcpy(p, &v, 4); return 4; }
int main(void) {
  char f[64]; memset(f, 0, sizeof f); int n = 0;
  n += put(f + n, 0x951fc3f5); n += put(f + n, 0x00010001);
  n += put(f + n, 0); n += put(f + n, 31); n += put(f + n, 0);
  n += put(f + n, 1); memcpy(f + n, "ab", 3); n += 3;
  int fd = open("f", O_WRONLY|O_CREAT, 0600); CHECK(write(fd, f, n) == n); close(fd);
  kvtree* b = kvtree_new();
  CHECK(kvtree_read_file("f", b) != KVTREE_SUCCESS);
  CHECK(kvtree_size(b) == 0);
  return 0;
}
""")
# ------------------------------------------------------------------ C09
S("C09-a", ("kvtree.c", """    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s""", """    if (crc != crc_file && crc_file != 0) {
      kvtree_err("CRC32 mismatch detected in %s"""),
  "damage that zeroes the stored CRC (a lost last block), possibly together with other damage",
  "a stored CRC of zero is taken to mean that there is none",
r"""
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); struct stat st;
  kvtree_set_kv(a, "K", "1");
  CHECK(kvtree_write_file("f", a) == 0 && stat("f", &st) == 0);
  int fd = open("f", O_RDWR); CHECK(pwrite(fd, "\0\0\0\0", 4, st.st_size - 4) == 4); close(fd);
  CHECK(kvtree_read_file("f", b) != KVTREE_SUCCESS);
  return 0;
}
""")
S("C09-b", ("kvtree.c", """    if (crc != crc_file) {
      kvtree_err("CRC32 mismatch detected in %s""", """    if ((uint16_t) crc != (uint16_t) crc_file) {
      kvtree_err("CRC32 mismatch detected in %s"""),
  "damage that leaves the low 16 bits of the CRC unchanged (for example in the upper half of the stored CRC)",
  "only half of the CRC is compared",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); struct stat st; char c;
  kvtree_set_kv(a, "K", "1");
  CHECK(kvtree_write_file("f", a) == 0 && stat("f", &st) == 0);
  int fd = open("f", O_RDWR); CHECK(pread(fd, &c, 1, st.st_size - 4) == 1); c ^= 1;
  CHECK(pwrite(fd, &c, 1, st.st_size - 4) == 1); close(fd);
  CHECK(kvtree_read_file("f", b) != KVTREE_SUCCESS);
  return 0;
}
''')
# ------------------------------------------------------------------ C10
S("C10-a", ("kvtree_io.c", """      /* got an error, check whether it was serious */
      if (errno == EINTR || errno == EAGAIN) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error reading file""", """      /* got an error, check whether it was serious */
      if (errno == EINTR) {
        continue;
      }

      /* something worth printing an error about */
      retries--;
      if (retries) {
        /* print an error and try again */
        kvtree_err("Error reading file"""),
  "read() failing with EAGAIN ten times while one block is read",
  "EAGAIN counts as a serious error, so a read that should have been continued is given up",
r'''
#include <sys/syscall.h>
static int again;
ssize_t read(int fd, void* b, size_t n) { if (again-- > 0) { errno = EAGAIN; return -1; } return syscall(SYS_read, fd, b, n); }
int main(void) {
  int fd = open("f", O_RDWR|O_CREAT, 0600); char b[8]; CHECK(write(fd, "abcdefgh", 8) == 8); lseek(fd, 0, SEEK_SET);
  again = 50;
  CHECK(kvtree_read_attempt("f", fd, b, 8) == 8 && !memcmp(b, "abcdefgh", 8));
  return 0;
}
''')
S("C10-c", ("kvtree_io.c", "  ssize_t n = 0;\n  int retries = 10;\n  while (n < size)\n  {\n    int rc = read(fd, (char*) buf + n, size - n);\n",
            "  ssize_t n = 0;\n  int retries = 10;\n  while (n < size)\n  {\n    int rc = read(fd, (char*) buf + n, size);\n"),
  "a short read() in the middle of a file with more data behind the requested block",
  "after a short read the full size is requested again, reading past the end of the buffer",
r"""
#include <sys/syscall.h>
static int first = 1;
ssize_t read(int fd, void* b, size_t n) { if (first && n > 2) { n = 2; } first = 0; return syscall(SYS_read, fd, b, n); }
int main(void) {
  int fd = open("f", O_RDWR|O_CREAT, 0600); char b[16]; memset(b, '.', 16);
  CHECK(write(fd, "abcdefghijklmnop", 16) == 16); lseek(fd, 0, SEEK_SET);
  CHECK(kvtree_read_attempt("f", fd, b, 8) == 8);
  CHECK(b[8] == '.' && b[9] == '.');
  return 0;
}
""")
# ------------------------------------------------------------------ C11
S("C11-a", ("kvtree_io.c", """  if (fsync(fd) < 0) {""", """  if ((fcntl(fd, F_GETFL) & O_ACCMODE) == O_WRONLY && fsync(fd) < 0) {"""),
  "a crash after a locked update (descriptor opened O_RDWR) was reported as done",
  "kvtree_close syncs only write-only descriptors, so locked writes can be lost after success was returned",
r'''
static int synced;
int fsync(int fd) { synced++; return 0; }
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); int fd;
  kvtree_set_kv(a, "K", "1");
  CHECK(kvtree_write_file("f", a) == 0 && synced == 1);
  synced = 0;
  CHECK(kvtree_write_with_lock("g", a) == 0 && synced >= 1);
  CHECK(kvtree_lock_open_read("g", &fd, b) == 0);
  synced = 0;
  CHECK(kvtree_write_close_unlock("g", &fd, b) == 0 && synced >= 1);
  return 0;
}
''')
S("C07-c", ("kvtree.c", """    if (nwrite >= 0) {
      if (ftruncate(*fd, (off_t) nwrite) == -1) {""", """    if (nwrite >= 0) {
      fsync(*fd);
      if (lseek(*fd, 0, SEEK_END) > (off_t) nwrite * 2 && ftruncate(*fd, (off_t) nwrite) == -1) {"""),
  "an update that makes the file smaller, but not by more than half",
  "kvtree_write_close_unlock leaves the old tail behind unless the file shrinks to less than half",
r"""
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); int fd; struct stat st;
  kvtree_set_kv(a, "K", "1"); kvtree_set_kv(a, "K", "2");
  CHECK(kvtree_write_file("f", a) == 0);
  CHECK(kvtree_lock_open_read("f", &fd, b) == 0);
  kvtree_unset_kv(b, "K", "2");
  CHECK(kvtree_write_close_unlock("f", &fd, b) == 0);
  CHECK(stat("f", &st) == 0 && st.st_size == (off_t) kvtree_persist_size(b));
  return 0;
}
""")
S("C11-c", [("kvtree_io.c", """  /* fsync first */
  if (fsync(fd) < 0) {""", """  /* fsync first, unless there is little to lose */
  struct stat st;
  if (fstat(fd, &st) == 0 && st.st_size < 512) {
    goto out;
  }
  if (fsync(fd) < 0) {"""), ("kvtree_io.c", """  /* now close the file */
  if (close(fd) != 0) {
    /* hit""", """out:
  /* now close the file */
  if (close(fd) != 0) {
    /* hit""")],
  "a crash after a small file was reported as written",
  "files under 512 bytes are closed without being synced",
r'''
static int synced;
int fsync(int fd) { synced++; return 0; }
int main(void) {
  kvtree* a = kvtree_new();
  kvtree_set_kv(a, "K", "1");
  CHECK(kvtree_write_file("f", a) == 0 && synced == 1);
  return 0;
}
''')
# ------------------------------------------------------------------ C12
S("C12-b", ("kvtree_io.c", "    if (flock(fd, op) != 0) {\n", "    if (flock(fd, op) != 0 && errno != EINTR) {\n"),
  "a signal that interrupts the wait for the lock",
  "an interrupted wait counts as having the lock",
r'''
int flock(int fd, int op) { if (op != LOCK_UN) { errno = EINTR; return -1; } return 0; }
int main(void) {
  CHECK(kvtree_open_with_lock("f", O_RDWR|O_CREAT, 0600, 1) == -1);
  return 0;
}
''')
S("C12-c", ("kvtree.c", "*fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);", "*fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, access(file, W_OK) == 0 ? 0 : 1);"),
  "two processes updating the same existing file at once",
  "kvtree_lock_open_read takes only a shared lock on an existing file, so concurrent updates lose one of them",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); int fd;
  kvtree_set_kv(a, "K", "1");
  CHECK(kvtree_write_file("f", a) == 0);
  CHECK(kvtree_lock_open_read("f", &fd, b) == 0);
  int fd2 = open("f", O_RDWR);
  CHECK(flock(fd2, LOCK_SH | LOCK_NB) != 0);
  return 0;
}
''')
S("C12-d", ("kvtree_io.c", """  /* release the file lock */
  int ret = kvtree_file_unlock(file, fd);

  /* close the file, even if we failed to release the lock */
  int rc = kvtree_close(file, fd);""", """  /* release the file lock only when we are done, a lock held through a
   * duplicate of the descriptor is left to its other owner */
  int ret = KVTREE_SUCCESS;

  /* close the file, even if we failed to release the lock */
  int rc = kvtree_close(file, fd);"""),
  "a child forked while the file was locked (it shares the open file description)",
  "the lock is not released explicitly, so it lives on in forked children after the update is finished",
r'''
int main(void) {
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new(); int fd;
  kvtree_set_kv(a, "K", "1");
  CHECK(kvtree_write_file("f", a) == 0);
  CHECK(kvtree_lock_open_read("f", &fd, b) == 0);
  int dupfd = dup(fd);   /* stands for the copy a forked child has */
  CHECK(kvtree_write_close_unlock("f", &fd, b) == 0);
  int fd2 = open("f", O_RDWR);
  CHECK(flock(fd2, LOCK_EX | LOCK_NB) == 0);
  return 0;
}
''')
# ------------------------------------------------------------------ C13
S("C13-a", ("kvtree_mpi.c", """  /* clear the hash */
  kvtree_unset_all(hash);

  /* get the size of the incoming hash, nothing arrives from MPI_PROC_NULL */
  int size = 0;
  MPI_Status status;
  MPI_Recv(&size, 1, MPI_INT, rank, 0, comm, &status);
""", """  /* get the size of the incoming hash, nothing arrives from MPI_PROC_NULL */
  int size = 0;
  MPI_Status status;
  MPI_Recv(&size, 1, MPI_INT, rank, 0, comm, &status);

  /* clear the hash */
  if (size > (int) sizeof(uint32_t)) {
    kvtree_unset_all(hash);
  }
"""),
  "receiving an empty tree into one that is not empty",
  "the receiver keeps its old contents",
r"""
int main(int argc, char** argv) {
  int rank; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* t = kvtree_new();
  if (rank) { kvtree_set_kv(t, "old", "1"); kvtree_recv(t, 0, MPI_COMM_WORLD); }
  else kvtree_send(t, 1, MPI_COMM_WORLD);
  CHECK(kvtree_size(t) == 0);
  MPI_Finalize(); return 0;
}
""", kind='mpi')
S("C13-b", ("kvtree_mpi.c", """    buf_recv = (char*) KVTREE_MALLOC((size_t)size_recv);
    MPI_Irecv(buf_recv, size_recv, MPI_BYTE, rank_recv, 0, comm, &request[num_req]);
    num_req++;
  }
  if (size_send > 0) {
    /* allocate space, pack our hash, and send it */
    buf_send = (char*) KVTREE_MALLOC((size_t)size_send);
    kvtree_pack(buf_send, hash_send);
    MPI_Isend(buf_send, size_send, MPI_BYTE, rank_send, 0, comm, &request[num_req]);
    num_req++;
  }""", """    buf_recv = (char*) KVTREE_MALLOC((size_t)size_recv);
  }
  if (size_send > 0) {
    /* allocate space, pack our hash, and send it */
    buf_send = (char*) KVTREE_MALLOC((size_t)size_send);
    kvtree_pack(buf_send, hash_send);
    MPI_Send(buf_send, size_send, MPI_BYTE, rank_send, 0, comm);
  }
  if (size_recv > 0) {
    MPI_Irecv(buf_recv, size_recv, MPI_BYTE, rank_recv, 0, comm, &request[num_req]);
    num_req++;
  }"""),
  "trees too large for the eager protocol, exchanged by ranks that all send before they receive",
  "kvtree_sendrecv deadlocks when messages are not buffered",
r'''
int main(int argc, char** argv) {
  int rank, i; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  char* k = malloc(4000001); memset(k, 'x', 4000000); k[4000000] = 0;
  kvtree_set(a, k, kvtree_new());
  alarm(30);
  kvtree_sendrecv(a, 1 - rank, b, 1 - rank, MPI_COMM_WORLD);
  CHECK(kvtree_size(b) == 1);
  MPI_Finalize(); return 0;
}
''', kind='mpi')
S("C13-c", ("kvtree_mpi.c", """  if (rank_recv != MPI_PROC_NULL) {
    kvtree_unset_all(hash_recv);
    have_incoming = 1;""", """  if (rank_recv != MPI_PROC_NULL) {
    if (rank_recv != rank_send) {
      kvtree_unset_all(hash_recv);
    }
    have_incoming = 1;"""),
  "exchanging with one partner (same rank sent to and received from) into a non-empty tree",
  "the received tree is added to the old contents instead of replacing them",
r'''
int main(int argc, char** argv) {
  int rank, i; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* a = kvtree_new(); kvtree* b = kvtree_new();
  kvtree_set_kv_int(a, "new", rank); kvtree_set_kv_int(b, "old", rank);
  kvtree_sendrecv(a, 1 - rank, b, 1 - rank, MPI_COMM_WORLD);
  CHECK(kvtree_size(b) == 1 && kvtree_get_kv_int(b, "new", 1 - rank));
  MPI_Finalize(); return 0;
}
''', kind='mpi')
# ------------------------------------------------------------------ C14
S("C14-a", ("kvtree_mpi.c", """      if (steps_left > max_steps[STEPS_LEFT]) {
        max_steps[STEPS_LEFT] = steps_left;""", """      if (hops_left > max_steps[STEPS_LEFT]) {
        max_steps[STEPS_LEFT] = hops_left;"""),
  "five ranks or more and a single message for a rank a power of two (4 or more) away to the left",
  "the left-going exchange counts hops instead of steps and stops before far messages arrive",
r'''
int main(int argc, char** argv) {
  int rank, ranks; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new();
  /* 4 to the left (7 = 111b to the right) in a job of 11 */
  if (rank == 4) { kvtree* m = kvtree_new(); kvtree_set_kv(m, "k", "v"); kvtree_setf(s, m, "%d", 0); }
  kvtree_exchange(s, r, MPI_COMM_WORLD);
  CHECK((kvtree_getf(r, "%d %s %s", 4, "k", "v") != NULL) == (rank == 0));
  MPI_Finalize(); return 0;
}
''', kind='mpi', np=11)
S("C14-b", ("kvtree_mpi.c", """    kvtree_merge(hash, msg);
  }
  return KVTREE_SUCCESS;""", """    if (kvtree_size(hash) == 0 || kvtree_size(msg) != kvtree_size(hash)) {
      kvtree_merge(hash, msg);
    }
  }
  return KVTREE_SUCCESS;"""),
  "a second message queued for one rank that has as many top level keys as what is queued already",
  "the second message is lost",
r'''
int main(int argc, char** argv) {
  int rank, ranks; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* s = kvtree_new(); kvtree* m = kvtree_new(); kvtree* n = kvtree_new();
  kvtree_set_kv(m, "a", "1"); kvtree_set_kv(n, "b", "2");
  kvtree_exchange_sendq(s, 0, m); kvtree_exchange_sendq(s, 0, n);
  CHECK(kvtree_getf(s, "%d %s %s", 0, "a", "1") && kvtree_getf(s, "%d %s %s", 0, "b", "2"));
  MPI_Finalize(); return 0;
}
''', kind='mpi')
S("C14-c", ("kvtree_mpi.c", """  int rc = kvtree_exchange_direction_hops(send, recv, comm, dir, -1);""",
  """  /* every distance below ranks is reached once the steps add up to it */
  int ranks, hops = 2;
  MPI_Comm_size(comm, &ranks);
  while ((1 << hops) < ranks - 1) {
    hops++;
  }
  int rc = kvtree_exchange_direction_hops(send, recv, comm, dir, hops);"""),
  "5, 9, 17, ... ranks and a message that goes the largest distance",
  "kvtree_exchange_direction takes one step too few for 2^k + 1 ranks, k > 1",
r'''
int main(int argc, char** argv) {
  int rank, ranks; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new();
  if (rank == 0) { kvtree* m = kvtree_new(); kvtree_set_kv(m, "k", "v"); kvtree_setf(s, m, "%d", ranks - 1); }
  kvtree_exchange_direction(s, r, MPI_COMM_WORLD, KVTREE_EXCHANGE_RIGHT);
  CHECK((kvtree_getf(r, "%d %s %s", 0, "k", "v") != NULL) == (rank == ranks - 1));
  MPI_Finalize(); return 0;
}
''', kind='mpi', np=5)
# ------------------------------------------------------------------ C15
WG = r'''
int main(int argc, char** argv) {
  int rank, ranks, i; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks);
  kvtree* d = kvtree_new(); kvtree* r = kvtree_new();
  int n = %(n)s; int bytes = %(bytes)s;
  char* k = calloc(bytes + 1, 1); memset(k, 'x', bytes);
  for (i = 0; i < n; i++) { char key[32]; sprintf(key, "key%%d", i); kvtree_set_kv(d, key, k); }
  kvtree_util_set_int(d, "ME", rank);
  alarm(60);
  CHECK(kvtree_write_gather("set", d, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_read_scatter("set", r, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  int me = -1; kvtree_util_get_int(r, "ME", &me);
  CHECK(me == rank && kvtree_size(r) == kvtree_size(d));
  %(more)s
  MPI_Finalize(); return 0;
}
'''
S("C15-a", ("kvtree_mpi_io.c", """  kvtree_exchange_sendq(send, writer, data);
""", """  if (kvtree_size(data) > 0) {
    kvtree_exchange_sendq(send, writer, data);
  }
"""),
  "a rank with an empty tree, and the set read by the single-process reader",
  "ranks with empty trees are not recorded in the part files, so the set is incomplete",
r"""
int main(int argc, char** argv) {
  int rank; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* d = kvtree_new(); kvtree* r = kvtree_new();
  if (rank == 0) kvtree_set_kv(d, "k", "v");
  CHECK(kvtree_write_gather("set", d, MPI_COMM_WORLD) == KVTREE_SUCCESS);
  MPI_Barrier(MPI_COMM_WORLD);
  CHECK(kvtree_read_scatter_single("set", r) == KVTREE_SUCCESS);
  CHECK(kvtree_size(r) == 2);
  MPI_Finalize(); return 0;
}
""", kind='mpi')
S("C15-b", ("kvtree_mpi_io.c", "    if (mylastbyte > seglastbyte) {", "    if (mylastbyte > seglastbyte && segindex == 0) {"),
  "more than two segments of 1 MB", "placeholder", "", skip=True)
S("C15-c", ("kvtree_mpi_io.c", """  /* define file name */
  char mapfile[1024];
  char mappath[1024];
  snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);""", """  /* define file name */
  char mapfile[1024];
  char mappath[1024];
  snprintf(mapfile, sizeof(mapfile), ".0.%d", writer %% 2);""".replace("%%", "%")),
  "more than one writer where two writers have the same parity",
  "two writers share one part file and the data of one of them is lost",
  WG % dict(n="3", bytes="400000", more=""), kind='mpi', np=4)
# ------------------------------------------------------------------ C16
S("C16-a", ("kvtree_io.c", """        kvtree_err("Giving up write of file %s errno=%d %s @ %s:%d",
          file, errno, strerror(errno), __FILE__, __LINE__
        );
        return -1;""", """        kvtree_err("Giving up write of file %s errno=%d %s @ %s:%d",
          file, errno, strerror(errno), __FILE__, __LINE__
        );
        return n;"""),
  "a full disk while a gather writes its files",
  "a write that was given up returns the short count, and the gather functions only look for negative values: they report success",
r'''
#include <sys/syscall.h>
static int broken;
ssize_t write(int fd, const void* b, size_t n) { if (broken && fd > 2 && n > 20) { char c; char p[64], q[512]; ssize_t m; sprintf(p, "/proc/self/fd/%d", fd); m = readlink(p, q, 511); if (m > 0) { q[m] = 0; if (strstr(q, "/set")) { errno = ENOSPC; return -1; } } } return syscall(SYS_write, fd, b, n); }
int main(int argc, char** argv) {
  int rank; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* d = kvtree_new(); kvtree_set_kv(d, "k", "v");
  broken = 1;
  CHECK(kvtree_write_gather("set", d, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  broken = 0;
  MPI_Finalize(); return 0;
}
''', kind='mpi')
S("C16-b", ("kvtree_mpi_io.c", """  /* check for read errors */
  if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
    rc = KVTREE_FAILURE;
    goto cleanup;
  }

  /* create hashes to exchange data */""", """  /* check for read errors */
  if (rc != KVTREE_SUCCESS) {
    goto cleanup;
  }

  /* create hashes to exchange data */"""),
  "a root file that cannot be read (only rank 0 notices)",
  "the failing rank leaves the collective read alone and the others wait for ever",
r'''
int main(int argc, char** argv) {
  int rank; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* d = kvtree_new();
  alarm(20);
  CHECK(kvtree_read_scatter("nosuchset", d, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  MPI_Finalize(); return 0;
}
''', kind='mpi')
S("C16-c", ("kvtree_mpi_io.c", """      if (write_rc < 0) {
        rc = KVTREE_FAILURE;
      }

      /* free memory */
      kvtree_free(&buf);

      /* close the file */
      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
        rc = KVTREE_FAILURE;
      }""", """      if (write_rc < 0) {
        rc = KVTREE_FAILURE;
      }

      /* free memory */
      kvtree_free(&buf);

      /* close the file */
      rc = kvtree_close(mappath, fd);"""),
  "a failing write of a part file that can be closed without error",
  "the result of the close overwrites the failure of the write (and of the map), so the gather reports success",
r'''
#include <sys/syscall.h>
static int broken;
ssize_t write(int fd, const void* b, size_t n) { if (broken && fd > 2 && n > 20) { char c; char p[64], q[512]; ssize_t m; sprintf(p, "/proc/self/fd/%d", fd); m = readlink(p, q, 511); if (m > 0) { q[m] = 0; if (strstr(q, "/set.0")) { errno = ENOSPC; return -1; } } } return syscall(SYS_write, fd, b, n); }
int main(int argc, char** argv) {
  int rank; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  kvtree* d = kvtree_new(); kvtree_set_kv(d, "k", "v");
  broken = 1;
  CHECK(kvtree_write_gather("set", d, MPI_COMM_WORLD) != KVTREE_SUCCESS);
  broken = 0;
  MPI_Finalize(); return 0;
}
''', kind='mpi')
# ------------------------------------------------------------------ C17
S("C17-a", ("kvtree.c", """    char filename[1024];
    snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);""", """    char filename[256];
    snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);"""),
  "a prefix longer than about 250 bytes",
  "the part file's name is cut off, so the part is written elsewhere (possibly over the root file) and cannot be found",
r'''
int main(void) {
  char p[400], d[121], e[121]; memset(d, 'd', 120); d[120] = 0; memset(e, 'e', 120); e[120] = 0;
  CHECK(mkdir(d, 0700) == 0); sprintf(p, "%s/%s", d, e); CHECK(mkdir(p, 0700) == 0);
  strcat(p, "/setsetsetsetset");
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  kvtree_set_kv(kvtree_set(t, "0", kvtree_new()), "k", "v");
  CHECK(kvtree_write_to_gather(p, t, 1) == 0);
  CHECK(kvtree_read_scatter_single(p, u) == 0);
  CHECK(kvtree_getf(u, "%d %s %s", 0, "k", "v") != NULL);
  return 0;
}
''')
S("C17-b", ("kvtree.c", """    kvtree_set_kv_int(entries, "RANKS", ranks);
""", """    kvtree_set_kv_int(entries, "RANKS", max_rank + 1 > 0 ? max_rank + 1 : ranks);
"""),
  "a set with more than one part file, read back with kvtree_read_scatter",
  "later part files record the ranks seen so far instead of the number of ranks in the job",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i, n;
  setenv("KVTREE_ENTRIES_PER_FILE", "1", 1);
  for (i = 0; i < 3; i++) kvtree_set_kv_int(kvtree_set_kv_int(t, "x", 0), "y", 0);
  kvtree_unset(t, "x");
  for (i = 0; i < 3; i++) kvtree_setf(t, kvtree_new(), "%d %s", i, "k");
  CHECK(kvtree_write_to_gather("set", t, 3) == 0);
  for (i = 0; i < 3; i++) {
    char f[32]; sprintf(f, "set.0.%d", i); u = kvtree_new();
    CHECK(kvtree_read_file(f, u) == 0);
    CHECK(kvtree_util_get_int(u, "RANKS", &n) == 0 && n == 3);
  }
  return 0;
}
''')
S("C17-c", ("kvtree.c", """            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
              actual_ranks += kvtree_size(subfile_rank_tree);
            }""", """            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
              actual_ranks = kvtree_size(final_tree) > actual_ranks ? kvtree_size(final_tree) : actual_ranks + 1;
            }"""),
  "the same rank in two part files while another rank is missing",
  "a rank that appears twice makes up for a missing one", "", skip=True)
S("C17-d", [("kvtree.c", """      /* Construct the full path to the subfile kvtree */
      char tmp[PATH_MAX];""", """      files_seen++;

      /* Construct the full path to the subfile kvtree */
      char tmp[PATH_MAX];"""), ("kvtree.c", "  unsigned long actual_ranks = 0;\n", "  unsigned long actual_ranks = 0;\n  int files_seen = 0;\n"),
  ("kvtree.c", "  if (actual_ranks == expected_ranks) {\n", "  if (actual_ranks == expected_ranks ||\n      (root_level == 1 && files_seen == kvtree_size(subfiles) && files_seen > 1))\n  {\n")],
  "a set of several part files of which one is damaged (not missing)",
  "an incomplete set is returned as success as long as every part file exists",
r"""
int main(void) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i;
  setenv("KVTREE_ENTRIES_PER_FILE", "1", 1);
  for (i = 0; i < 3; i++) kvtree_setf(t, kvtree_new(), "%d %s", i, "k");
  CHECK(kvtree_write_to_gather("set", t, 3) == 0);
  CHECK(truncate("set.0.1", 10) == 0);
  CHECK(kvtree_read_scatter_single("set", u) != 0);
  return 0;
}
""")
# ------------------------------------------------------------------ C18
S("C18-a", ("kvtree.c", """      kvtree_err("CRC32 mismatch detected in %s @ %s:%d",
        file, __FILE__, __LINE__
      );
      kvtree_free(&buf);
      return -1;""", """      kvtree_err("CRC32 mismatch detected in %s @ %s:%d",
        file, __FILE__, __LINE__
      );
      return -1;"""),
  "reading a file whose CRC does not match", "the file's buffer is leaked",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); struct stat st;
  freopen("/dev/null", "w", stdout);
  kvtree_set_kv(t, "k", "v");
  CHECK(kvtree_write_file("f", t) == 0 && stat("f", &st) == 0);
  int fd = open("f", O_RDWR); CHECK(pwrite(fd, "Z", 1, st.st_size - 1) == 1); close(fd);
  CHECK(kvtree_read_file("f", u) != 0);
  kvtree_delete(&t); kvtree_delete(&u);
  return 0;
}
''', kind='asan', leaks=1)
S("C18-b", ("kvtree.c", """      if (rc == KVTREE_SUCCESS) {
        /* Sanity: each subfile""", """      if (rc != KVTREE_SUCCESS) {
        continue;
      } else {
        /* Sanity: each subfile"""),
  "a damaged part file in a set", "the tree allocated for a part file that cannot be read is leaked",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new();
  freopen("/dev/null", "w", stdout);
  kvtree_setf(t, kvtree_new(), "%d %s", 0, "k");
  CHECK(kvtree_write_to_gather("set", t, 1) == 0);
  CHECK(truncate("set.0.0", 10) == 0);
  CHECK(kvtree_read_scatter_single("set", u) != 0);
  kvtree_delete(&t); kvtree_delete(&u);
  return 0;
}
''', kind='asan', leaks=1)
S("C18-c", ("kvtree_io.c", """  if (ret != KVTREE_SUCCESS) {
    close(fd);
    return -1;
  }

  /* return the opened""", """  if (ret != KVTREE_SUCCESS) {
    return -1;
  }

  /* return the opened"""),
  "the file system refusing the lock", "the descriptor is not closed when the lock cannot be had",
r'''
int flock(int fd, int op) { errno = ENOLCK; return -1; }
int main(void) {
  kvtree* t = kvtree_new(); int fd = open("/dev/null", O_RDONLY); close(fd);
  CHECK(kvtree_read_with_lock("f", t) != 0);
  int fd2 = open("/dev/null", O_RDONLY);
  CHECK(fd == fd2);
  return 0;
}
''')
# ------------------------------------------------------------------ C19
S("C19-a", ("kvtree.c", "        if (kvtree_size(elem->hash) == 1) {", "        if (kvtree_size(elem->hash) >= 1) {"),
  "keyval printing of a key with several values of which the one listed first is a leaf",
  "only the first value of a key is printed",
r'''
int main(void) {
  kvtree* t = kvtree_new(); char b[1000]; int n;
  kvtree_set_kv(t, "k", "1"); kvtree_set_kv(t, "k", "2");
  fflush(stdout); int fd = open("out", O_RDWR|O_CREAT, 0600); int o = dup(1); dup2(fd, 1);
  kvtree_print_mode(t, 0, KVTREE_PRINT_KEYVAL);
  fflush(stdout); dup2(o, 1);
  n = pread(fd, b, 999, 0); b[n] = 0;
  CHECK(strchr(b, '1') && strchr(b, '2'));
  return 0;
}
''')
S("C19-b", ("kvtree_print.c", """    printf("ERROR: Failed to read file: `%s'\\n", filename);
    rc = 1;""", """    printf("ERROR: Failed to read file: `%s'\\n", filename);"""),
  "running the printer on a file that cannot be read", "kvtree_print exits with 0 although it could not read the file",
r'''
int main(int argc, char** argv) {
  char c[500]; sprintf(c, "%s nosuchfile > /dev/null", argv[1]);
  int rc = system(c);
  CHECK(rc != -1 && WEXITSTATUS(rc) == 1);
  return 0;
}
''', kind='print')
S("C19-c", ("kvtree.c", """      if (elem->key != NULL) {
        printf("%*s%s\\n", indent, "", elem->key);
      } else {
        printf("%*sNULL KEY\\n", indent, "");
      }
      kvtree_print_mode(elem->hash, indent, mode);
    } else {
      printf("%*sNULL ELEMENT\\n", indent, "");
    }

    return KVTREE_SUCCESS;
  }

  if (mode == KVTREE_PRINT_KEYVAL) {""", """      if (elem->key != NULL) {
        printf("%*s", indent, "");
        printf(strchr(elem->key, '\\n') ? "%.80s\\n" : "%s\\n", elem->key);
      } else {
        printf("%*sNULL KEY\\n", indent, "");
      }
      kvtree_print_mode(elem->hash, indent, mode);
    } else {
      printf("%*sNULL ELEMENT\\n", indent, "");
    }

    return KVTREE_SUCCESS;
  }

  if (mode == KVTREE_PRINT_KEYVAL) {"""),
  "a key of more than 80 bytes that contains a newline", "such keys are printed cut off", "", skip=True)
# ------------------------------------------------------------------ C20
S("C20-a", ("kvtree_io.c", """      usleep(KVTREE_OPEN_USLEEP);
      if (mode_set) {
        fd = open(file, flags, mode);
      } else {
        fd = open(file, flags);
      }""", """      usleep(KVTREE_OPEN_USLEEP);
      fd = open(file, flags, mode & (S_IRUSR | S_IWUSR));"""),
  "a file created on a retry because the first open failed",
  "a file created by a later attempt does not get the requested permission bits",
r'''
#include <stdarg.h>
#include <sys/syscall.h>
static int n;
int open(const char* f, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); if (n++ == 0) { errno = EIO; return -1; } return syscall(SYS_open, f, fl, m); }
int main(void) {
  struct stat st;
  umask(0);
  int fd = kvtree_open("f", O_WRONLY|O_CREAT, 0664);
  CHECK(fd >= 0 && fstat(fd, &st) == 0 && (st.st_mode & 0777) == 0664);
  return 0;
}
''')
S("C20-b", ("kvtree_io.c", """  mode_t old_mask = umask(S_IWGRP | S_IWOTH);
  umask(old_mask);

  mode_t bits = 0;""", """  mode_t old_mask = umask(S_IWGRP | S_IWOTH);

  mode_t bits = 0;
  if (read || write || execute) {
    umask(old_mask);
  }"""),
  "asking for the mode of no access at all", "the umask of the process is left changed",
r'''
int main(void) {
  umask(077);
  CHECK(kvtree_getmode(0, 0, 0) == 0);
  CHECK(umask(0) == 077);
  return 0;
}
''')
# ------------------------------------------------------------------ C21
S("C21-a", ("kvtree.c", """  /* assume there aren't any keys */
  *n = 0;
  *v = NULL;

  /* count the number of keys */
  int count = kvtree_size(hash);
  if (count == 0) {""", """  /* count the number of keys */
  int count = kvtree_size(hash);
  if (hash != NULL && count == 0) {
    /* there aren't any keys */
    *n = 0;
    *v = NULL;
  }
  if (count == 0) {"""),
  "listing the keys of a NULL tree",
  "kvtree_list_int leaves its outputs unset for a NULL tree",
r"""
int main(void) {
  int n = 5; int x; int* v = &x;
  CHECK(kvtree_list_int(NULL, &n, &v) == 0);
  CHECK(n == 0 && v == NULL);
  return 0;
}
""")
S("C21-b", ("kvtree.c", """  if (hash == NULL || key == NULL) {
    return NULL;
  }

  kvtree_elem* elem;
  LIST_FOREACH(elem, hash, pointers) {""", """  if (hash == NULL) {
    return NULL;
  }

  kvtree_elem* elem;
  LIST_FOREACH(elem, hash, pointers) {"""),
  "looking up a NULL key in a non-empty tree", "crash on a NULL key",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree_set_kv(t, "a", "b");
  CHECK(kvtree_elem_get(t, NULL) == NULL);
  return 0;
}
''')
S("C21-c", ("kvtree.c", """  /* check that we have a hash and a file name */
  if (file == NULL || hash == NULL) {
    return KVTREE_FAILURE;
  }

  /* open the hash file */
  mode_t""", """  /* check that we have a file name */
  if (file == NULL) {
    return KVTREE_FAILURE;
  }

  /* open the hash file */
  mode_t"""),
  "kvtree_write_file with a NULL tree on an existing file", "the file is emptied before the missing tree is noticed",
r'''
int main(void) {
  kvtree* t = kvtree_new(); struct stat st; kvtree_set_kv(t, "a", "b");
  CHECK(kvtree_write_file("f", t) == 0);
  CHECK(kvtree_write_file("f", NULL) != 0);
  CHECK(stat("f", &st) == 0 && st.st_size > 0);
  return 0;
}
''')
S("C22-a", ("kvtree_helpers.c", "  double value = strtod(str, NULL);", "  float value = strtof(str, NULL);"),
  "a double with more than 24 significant bits", "the value is read in single precision",
r'''
int main(void) {
  kvtree* t = kvtree_new(); double d = 0;
  CHECK(kvtree_util_set_double(t, "k", 2.5) == 0 && kvtree_util_get_double(t, "k", &d) == 0 && d == 2.5);
  CHECK(kvtree_util_set_double(t, "k", 16777217.0) == 0 && kvtree_util_get_double(t, "k", &d) == 0 && d == 16777217.0);
  return 0;
}
''')
S("C22-b", ("kvtree_helpers.c", """  /* convert string to double */
  errno = 0;
""", """  /* convert string to double */
"""),
  "errno left nonzero by an earlier library call", "a double that is there cannot be read",
r'''
int main(void) {
  kvtree* t = kvtree_new(); double d = 0;
  CHECK(kvtree_util_set_double(t, "k", 2.5) == 0);
  CHECK(close(-1) != 0 && errno != 0);
  CHECK(kvtree_util_get_double(t, "k", &d) == 0 && d == 2.5);
  return 0;
}
''')
S("C22-c", ("kvtree_helpers.c", """  double value = strtod(str, NULL);
  if (errno == 0) {""", """  double value = strtod(str, NULL);
  if (errno == 0 && (value != 0.0 || *str == '0')) {"""),
  "a negative value that rounds to zero", "a stored value cannot be read back",
r'''
int main(void) {
  kvtree* t = kvtree_new(); double d = 1;
  CHECK(kvtree_util_set_double(t, "k", 0.0) == 0 && kvtree_util_get_double(t, "k", &d) == 0 && d == 0);
  CHECK(kvtree_util_set_double(t, "k", -1e-9) == 0);
  CHECK(kvtree_util_get_double(t, "k", &d) == 0 && d == 0);
  return 0;
}
''')
S("C22-d", ("kvtree_helpers.c", """  double value = strtod(str, NULL);
""", """  char* frac = NULL;
  double value = (double) strtoll(str, &frac, 10);
  if (errno == 0 && *frac == '.') {
    /* add the part after the point */
    double part = strtod(frac, NULL);
    value += (value < 0) ? -part : part;
  } else {
    value = strtod(str, NULL);
  }
"""),
  "a value between -1 and 0", "the sign of a value without integer part is lost",
r'''
int main(void) {
  kvtree* t = kvtree_new(); double d = 1;
  CHECK(kvtree_util_set_double(t, "k", -1.5) == 0 && kvtree_util_get_double(t, "k", &d) == 0 && d == -1.5);
  CHECK(kvtree_util_set_double(t, "k", -0.5) == 0);
  CHECK(kvtree_util_get_double(t, "k", &d) == 0 && d == -0.5);
  return 0;
}
''')
S("C22-e", ("kvtree_helpers.c", """  double value = strtod(str, NULL);
""", """  char text[48];
  strncpy(text, str, sizeof(text) - 1);
  text[sizeof(text) - 1] = '\\0';
  double value = strtod(text, NULL);
"""),
  "a double of 10^47 or more", "only the leading digits are read",
r'''
int main(void) {
  kvtree* t = kvtree_new(); double d = 1;
  CHECK(kvtree_util_set_double(t, "k", 1e22) == 0 && kvtree_util_get_double(t, "k", &d) == 0 && d == 1e22);
  CHECK(kvtree_util_set_double(t, "k", 1e60) == 0 && kvtree_util_get_double(t, "k", &d) == 0 && d == 1e60);
  return 0;
}
''')
OOM = r'''
#include <sys/resource.h>
extern void* __libc_malloc(size_t); static long left = -1;
void* malloc(size_t n) { if (left > 0 && --left == 0) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
'''
# run f with the n-th allocation failing in a child: exit status, -1 when it was killed, 1000 + what f returned
FORK = r'''
static int run(int (*f)(void), long n) {
  fflush(stdout); pid_t p = fork(); int st;
  if (p == 0) { left = n; int r = f(); left = -1; _exit(r == 0 ? 42 : r == 1 ? 43 : 44); }
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
'''
S("C23-a", ("kvtree.c", """  kvtree* hash = (kvtree*) KVTREE_MALLOC(sizeof(kvtree));
  LIST_INIT(hash);
  return hash;""", """  /* callers accept a NULL hash, so there is no need to abort here */
  kvtree* hash = (kvtree*) malloc(sizeof(kvtree));
  if (hash != NULL) {
    LIST_INIT(hash);
  }
  return hash;"""),
  "an allocation of a tree head that fails in a setter", "the tree made for the value is lost: a failing call leaks memory",
r'''
extern void* __libc_malloc(size_t); extern void __libc_free(void*); static long left = -1, live;
void* malloc(size_t n) { if (left > 0 && --left == 0) { errno = ENOMEM; return NULL; } live++; return __libc_malloc(n); }
void free(void* p) { if (p) live--; __libc_free(p); }
int main(void) {
  for (int n = 1; n < 12; n++) {
    fflush(stdout); pid_t p = fork(); int st;
    if (p == 0) { long b = live; kvtree* t = kvtree_new(); left = n; kvtree_set_kv(t, "key", "value"); left = -1; kvtree_delete(&t); _exit(live == b ? 42 : 0); }
    waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0);
  }
  return 0;
}
''')
S("C23-b", ("kvtree.c", """  struct sort_elem_int* list = (struct sort_elem_int*) KVTREE_MALLOC(count * sizeof(struct sort_elem_int));
""", """  struct sort_elem_int* list = NULL;
  if (count > 0) {
    list = (struct sort_elem_int*) malloc(count * sizeof(struct sort_elem_int));
  }

  /* nothing to sort */
  if (list == NULL) {
    return KVTREE_SUCCESS;
  }
"""),
  "the list of an integer sort cannot be allocated", "the sort reports success and sorts nothing", OOM + FORK + r'''
static kvtree* t;
static int f(void) {
  int rc = kvtree_sort_int(t, KVTREE_SORT_ASCENDING);
  left = -1;
  if (rc != KVTREE_SUCCESS) return 1;
  return strcmp(kvtree_elem_key(kvtree_elem_first(t)), "1") == 0 ? 0 : 2;
}
int main(void) {
  t = kvtree_new(); kvtree_set(t, "1", NULL); kvtree_set(t, "3", NULL); kvtree_set(t, "2", NULL);
  for (int n = 1; n < 6; n++) { int r = run(f, n); CHECK(r != -1 && r != 0 && r != 44); }
  return 0;
}
''')
S("C23-c", [("kvtree.c", """  char* buf = (char*) KVTREE_MALLOC(bufsize);

  size_t size = 0;""", """  char* buf = (char*) malloc(bufsize);
  if (buf == NULL) {
    kvtree_err("Failed to allocate %llu bytes @ %s:%d",
      (unsigned long long) bufsize, __FILE__, __LINE__
    );
    return KVTREE_FAILURE;
  }

  size_t size = 0;"""), ("kvtree.c", """  void* buf;
  size_t size;
  kvtree_write_persist(&buf, &size, hash);
""", """  void* buf = NULL;
  size_t size = 0;
  kvtree_write_persist(&buf, &size, hash);
""")],
  "the buffer of a write cannot be allocated", "writing reports success and leaves an empty file", OOM + FORK + r'''
static kvtree* t;
static int f(void) { int rc = kvtree_write_file("f", t); left = -1; if (rc != KVTREE_SUCCESS) return 1; kvtree* q = kvtree_new(); return kvtree_read_file("f", q) == KVTREE_SUCCESS && kvtree_get_kv(q, "key", "value") ? 0 : 2; }
int main(void) {
  t = kvtree_new(); kvtree_set_kv(t, "key", "value");
  for (int n = 1; n < 12; n++) { int r = run(f, n); CHECK(r != -1 && r != 0 && r != 44); }
  return 0;
}
''')
S("C23-d", ("kvtree.c", """  int* list = (int*) KVTREE_MALLOC(count * sizeof(int));
""", """  int* list = (int*) malloc(count * sizeof(int));
  if (list == NULL) {
    /* return what we have, which is nothing */
    return KVTREE_SUCCESS;
  }
"""),
  "the list of integers cannot be allocated", "an empty list is returned with success", OOM + FORK + r'''
static kvtree* t;
static int f(void) { int n = 0, *l = NULL; int rc = kvtree_list_int(t, &n, &l); left = -1; if (rc != KVTREE_SUCCESS) return 1; return n == 2 && l != NULL ? 0 : 2; }
int main(void) {
  t = kvtree_new(); kvtree_set(t, "1", NULL); kvtree_set(t, "3", NULL);
  for (int n = 1; n < 4; n++) { int r = run(f, n); CHECK(r != -1 && r != 0 && r != 44); }
  return 0;
}
''')
S("C24-a", ("kvtree.c", """    if (elem->key != NULL && strcmp(elem->key, key) == 0) {
      return elem;
    }
  }
  return NULL;
}

/** given a hash and a key, return a pointer to the key of the first""", """    if (elem->key != NULL && strcmp(elem->key, key) == 0) {
      /* what was asked for last is likely to be asked for next */
      if (elem != hash->lh_first && elem->pointers.le_next == NULL) {
        kvtree* h = (kvtree*) hash;
        LIST_REMOVE(elem, pointers);
        LIST_INSERT_HEAD(h, elem, pointers);
      }
      return elem;
    }
  }
  return NULL;
}

/** given a hash and a key, return a pointer to the key of the first"""),
  "a lookup of the last element", "a lookup changes the order of the elements",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree_set(t, "c", NULL); kvtree_set(t, "b", NULL); kvtree_set(t, "a", NULL);
  kvtree_sort(t, KVTREE_SORT_ASCENDING);
  kvtree_get(t, "c");
  CHECK(strcmp(kvtree_elem_key(kvtree_elem_first(t)), "a") == 0);
  return 0;
}
''')
S("C24-b", ("kvtree.c", """  /* count the number of keys */
  int count = kvtree_size(hash);
  if (count == 0) {
    return KVTREE_SUCCESS;
  }
""", """  /* count the number of keys */
  int count = kvtree_size(hash);
  if (count == 0) {
    return KVTREE_SUCCESS;
  }

  /* keep the keys in order, so that the next listing is fast */
  kvtree_sort_int((kvtree*) hash, KVTREE_SORT_ASCENDING);
"""),
  "a listing of a tree in another order", "listing the integers sorts the tree",
r'''
int main(void) {
  kvtree* t = kvtree_new(); int n, *l; kvtree_set(t, "1", NULL); kvtree_set(t, "2", NULL); kvtree_set(t, "3", NULL);
  kvtree_sort_int(t, KVTREE_SORT_DESCENDING);
  CHECK(kvtree_list_int(t, &n, &l) == 0 && n == 3 && l[0] == 1);
  CHECK(strcmp(kvtree_elem_key(kvtree_elem_first(t)), "3") == 0);
  return 0;
}
''')
S("C24-c", ("kvtree.c", """  /* compute size of buffer to persist hash */
""", """  /* the same contents shall give the same file */
  kvtree_sort((kvtree*) hash, KVTREE_SORT_ASCENDING);

  /* compute size of buffer to persist hash */
"""),
  "writing a tree whose elements are not in order", "writing a tree sorts it",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree_set(t, "1", NULL); kvtree_set(t, "2", NULL);
  CHECK(strcmp(kvtree_elem_key(kvtree_elem_first(t)), "2") == 0);
  CHECK(kvtree_write_file("f", t) == 0);
  CHECK(strcmp(kvtree_elem_key(kvtree_elem_first(t)), "2") == 0);
  return 0;
}
''')
S("C24-d", ("kvtree_mpi.c", """    kvtree* tmp = kvtree_new();
    kvtree_merge(tmp, elem_hash);
    if (hops_left < hops_right) {""", """    kvtree* tmp = kvtree_new();
    if (dest == rank && elem_hash != NULL) {
      /* no need to copy what stays here */
      kvtree* own = tmp;
      tmp = elem_hash;
      elem->hash = own;
    } else {
      kvtree_merge(tmp, elem_hash);
    }
    if (hops_left < hops_right) {"""),
  "a rank that sends to itself", "an exchange empties the message of the sender to itself",
r'''
#include "mpi.h"
#include "kvtree_mpi.h"
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); char b[20]; sprintf(b, "%d", r);
  kvtree *s = kvtree_new(), *q = kvtree_new(), *m = kvtree_new(); kvtree_set_kv(m, "key", "value");
  kvtree_exchange_sendq(s, r, m);
  CHECK(kvtree_exchange(s, q, MPI_COMM_WORLD) == 0 && kvtree_get_kv(kvtree_get(q, b), "key", "value") != NULL);
  CHECK(kvtree_get_kv(kvtree_get(s, b), "key", "value") != NULL);
  MPI_Finalize();
  return 0;
}
''', kind="mpi", np=2)
S("C24-e", ("kvtree.c", """  char* v = NULL;
  kvtree* h = kvtree_get(hash, key);
  if (h != NULL) {
    kvtree_elem* e = kvtree_elem_first(h);
    if (e != NULL) {
      v = kvtree_elem_key(e);
    }
  }
  return v;
}

""", """  char* v = NULL;
  kvtree* h = kvtree_get(hash, key);
  if (h != NULL) {
    /* the value set last is the first one, any other one is outdated */
    kvtree_elem* e = kvtree_elem_first(h);
    if (e != NULL) {
      v = kvtree_elem_key(e);
      kvtree_elem* old = kvtree_elem_next(e);
      if (old != NULL && kvtree_elem_hash(old) == NULL) {
        LIST_REMOVE(old, pointers);
        kvtree_elem_delete(old);
      }
    }
  }
  return v;
}

"""),
  "a key with two values, one bound to NULL", "asking for the first value removes the second",
r'''
int main(void) {
  kvtree *t = kvtree_new(), *k = kvtree_new(); kvtree_set(t, "k", k); kvtree_set(k, "b", NULL); kvtree_set(k, "a", kvtree_new());
  CHECK(strcmp(kvtree_elem_get_first_val(t, "k"), "a") == 0);
  CHECK(kvtree_size(k) == 2);
  return 0;
}
''')
S("C03-k", ("kvtree.c", """    if (size >= sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    if (i < count-1) {""", """    if (size > sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    if (i < count-1) {"""),
  "a key of exactly 1024 characters set through the format accessor", "the last character of the key is cut off and another key is set",
r'''
int main(void) {
  kvtree *t = kvtree_new(); char k[1100]; int st; memset(k, 'a', 1099); k[1099] = 0; k[1023] = 0;
  CHECK(kvtree_setf(t, kvtree_new(), "%s", k) != NULL && kvtree_get(t, k) != NULL);
  kvtree_unset_all(t); k[1023] = 'a'; k[1024] = 0;
  fflush(stdout); pid_t p = fork();
  if (p == 0) { kvtree_setf(t, kvtree_new(), "%s", k); _exit(kvtree_get(t, k) != NULL ? 0 : 77); }
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 77);
  return 0;
}
''')
S("C03-l", ("kvtree.c", """    if (size >= sizeof(key)) {
      kvtree_abort(-1, "Key buffer too small, have %lu need %d bytes @ %s:%d",
        sizeof(key), size, __FILE__, __LINE__
      );
    }

    /* get hash for this key */""", """    if (size >= sizeof(key)) {
      /* no key is that long */
      if (i == count-1) {
        break;
      }
    }

    /* get hash for this key */"""),
  "a key of 1024 or more characters as the last one asked for", "the tree above is returned",
r'''
int main(void) {
  kvtree *t = kvtree_new(); char k[1100]; int st; memset(k, 'a', 1099); k[1099] = 0;
  CHECK(kvtree_getf(t, "%s", "k") == NULL);
  fflush(stdout); pid_t p = fork();
  if (p == 0) { _exit(kvtree_getf(t, "%s", k) != NULL ? 77 : 0); }
  waitpid(p, &st, 0);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 77);
  return 0;
}
''')
# ------------------------------------------------------------------ more
S("C01-d", [("kvtree.c", "kvtree_elem* kvtree_elem_get(const kvtree* hash, const char* key)\n{", """/* remember the last lookup */
static const kvtree* kvtree_last_hash;
static kvtree_elem* kvtree_last_elem;

kvtree_elem* kvtree_elem_get(const kvtree* hash, const char* key)
{
  if (hash != NULL && key != NULL && hash == kvtree_last_hash && kvtree_last_elem != NULL && strcmp(kvtree_last_elem->key, key) == 0) {
    return kvtree_last_elem;
  }
"""),
  ("kvtree.c", "    if (elem->key != NULL && strcmp(elem->key, key) == 0) {\n      return elem;", "    if (elem->key != NULL && strcmp(elem->key, key) == 0) {\n      kvtree_last_hash = hash;\n      kvtree_last_elem = elem;\n      return elem;"),
  ("kvtree.c", "  kvtree_elem* elem = kvtree_elem_get(hash, key);\n  if (elem != NULL) {\n    LIST_REMOVE(elem, pointers);", "  kvtree_elem* elem = kvtree_elem_get(hash, key);\n  kvtree_last_elem = NULL;\n  if (elem != NULL) {\n    LIST_REMOVE(elem, pointers);"),
  ("kvtree.c", "  /* TODO: check that elem is really in hash */\n", "  kvtree_last_elem = NULL;\n")],
  "a tree is deleted and a new one at the same address is asked for a key that was looked up last in the old one, whose element was allocated again or not at all",
  "the last lookup is remembered across kvtree_delete: a lookup in a new tree returns a freed element of the old one",
r'''
static int keep;
void free(void* p);
int main(void) {
  /* whatever malloc does with freed memory: a new tree may get the address of the old one */
  int i;
  for (i = 0; i < 50; i++) {
    kvtree* a = kvtree_new();
    kvtree_set(a, "key", kvtree_new());
    CHECK(kvtree_get(a, "key") != NULL);
    char was[sizeof(kvtree*)]; memcpy(was, &a, sizeof a);
    kvtree_delete(&a);
    kvtree* b = kvtree_new();
    char now[sizeof(kvtree*)]; memcpy(now, &b, sizeof b);
    if (memcmp(was, now, sizeof was) == 0) keep++;
    char* s = malloc(4); strcpy(s, "key");               /* the freed key may be this one */
    CHECK(kvtree_elem_get(b, "key") == NULL);
    free(s); kvtree_delete(&b);
  }
  return 0;
}
''')
S("C10-d", [("kvtree_io.c", "    ssize_t rc = write(fd, (char*) buf + n, size - n);\n    if (rc > 0) {\n      n += rc;", "    ssize_t rc = write(fd, (char*) buf + n, size - n);\n    if (rc > 0) {\n      if (++parts > 16) {\n        /* slow device, the kernel completes the rest */\n        return size;\n      }\n      n += rc;"),
  ("kvtree_io.c", "  int retries = 10;\n  while (n < size)\n  {\n    ssize_t rc = write", "  int retries = 10;\n  int parts = 0;\n  while (n < size)\n  {\n    ssize_t rc = write")],
  "more than 16 partial writes in one transfer",
  "kvtree_write_attempt reports success after 16 partial writes although bytes are missing",
r"""
#include <sys/syscall.h>
ssize_t write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n > 2 ? 2 : n); }
int main(void) {
  int i; char b[101], c[101]; for (i = 0; i < 100; i++) b[i] = 'a' + i % 26;
  int fd = open("f", O_RDWR|O_CREAT, 0600);
  ssize_t r = kvtree_write_attempt("f", fd, b, 100);
  CHECK(r != 100 || (pread(fd, c, 101, 0) == 100 && !memcmp(b, c, 100)));
  return 0;
}
""")
S("C17-e", ("kvtree.c", "    entries_per_file = atol(getenv(\"KVTREE_ENTRIES_PER_FILE\"));", "    entries_per_file = (unsigned short) atol(getenv(\"KVTREE_ENTRIES_PER_FILE\"));"),
  "KVTREE_ENTRIES_PER_FILE above 65535, for example 65537",
  "only 16 bits of the number of entries per file are kept: 65537 writes a file per rank",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree* u = kvtree_new(); int i;
  setenv("KVTREE_ENTRIES_PER_FILE", "65537", 1);
  for (i = 0; i < 3; i++) kvtree_setf(t, kvtree_new(), "%d %s", i, "k");
  CHECK(kvtree_write_to_gather("set", t, 3) == 0);
  CHECK(access("set.0.0", F_OK) == 0 && access("set.0.1", F_OK) != 0);
  CHECK(kvtree_read_scatter_single("set", u) == 0 && kvtree_size(u) == 3);
  return 0;
}
''')
S("C17-f", ("kvtree.c", "  if (strncmp(name, prefix_file, len) != 0 ||", "  if (strncasecmp(name, prefix_file, len) != 0 ||"),
  "a second set in the directory whose prefix differs only in the case of a letter",
  "part files of the other set are taken for part files of this one",
r'''
int main(void) {
  kvtree* t = kvtree_new(); kvtree* v = kvtree_new(); kvtree* u = kvtree_new(); int i;
  for (i = 0; i < 2; i++) kvtree_setf(t, kvtree_new(), "%d %s", i, "mine");
  for (i = 0; i < 2; i++) kvtree_setf(v, kvtree_new(), "%d %s", i, "other");
  CHECK(kvtree_write_to_gather("Set", v, 2) == 0);
  CHECK(kvtree_write_to_gather("set", t, 2) == 0);
  CHECK(kvtree_read_scatter_single("set", u) == 0);
  CHECK(kvtree_getf(u, "%d %s", 0, "mine") != NULL && kvtree_getf(u, "%d %s", 0, "other") == NULL);
  return 0;
}
''')
S("C13-d", ("kvtree_mpi.c", """  /* get our rank in the communicator */
  int rank;
  MPI_Comm_rank(comm, &rank);""", """  /* get our rank in the communicator */
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);"""),
  "a broadcast in a communicator whose ranks differ from those of MPI_COMM_WORLD",
  "kvtree_bcast compares the root with the caller's rank in MPI_COMM_WORLD",
r'''
int main(int argc, char** argv) {
  int rank, sub; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); alarm(40);
  MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, 0, -rank, &c); MPI_Comm_rank(c, &sub);
  kvtree* t = kvtree_new();
  if (sub == 0) kvtree_set_kv_int(t, "root", 1);
  kvtree_bcast(t, 0, c);
  CHECK(kvtree_get_kv_int(t, "root", 1) != NULL && kvtree_size(t) == 1);
  MPI_Finalize(); return 0;
}
''', kind='mpi', np=3)
S("C14-d", ("kvtree_mpi.c", """  int rank, ranks;
  MPI_Comm_rank(comm, &rank);
  MPI_Comm_size(comm, &ranks);

  /* set up current""", """  int rank, ranks;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(comm, &ranks);

  /* set up current"""),
  "an exchange in a communicator whose ranks differ from those of MPI_COMM_WORLD",
  "the exchange takes the caller's rank from MPI_COMM_WORLD, so messages go to the wrong ranks",
r'''
int main(int argc, char** argv) {
  int rank, sub; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); alarm(40);
  MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, 0, -rank, &c); MPI_Comm_rank(c, &sub);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new();
  kvtree_setf(s, kvtree_new(), "%d %s %d", (sub + 1) % 3, "from", sub);
  CHECK(kvtree_exchange(s, r, c) == 0);
  CHECK(kvtree_size(r) == 1 && kvtree_getf(r, "%d %s %d", (sub + 2) % 3, "from", (sub + 2) % 3) != NULL);
  MPI_Finalize(); return 0;
}
''', kind='mpi', np=3)
S("C16-d", ("kvtree_mpi_io.c", "MPI_Allreduce(&valid, &all_valid, 1, MPI_INT, MPI_LAND, comm);", "MPI_Allreduce(&valid, &all_valid, 1, MPI_INT, MPI_LAND, MPI_COMM_WORLD);"),
  "two groups of ranks read two sets at the same time, one of which is damaged",
  "the outcome of the write is agreed on with every process of the job, not with those of the communicator",
r'''
int main(int argc, char** argv) {
  int rank, sub; MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank); alarm(40);
  MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, rank / 2, rank, &c); MPI_Comm_rank(c, &sub);
  kvtree* s = kvtree_new(); kvtree* r = kvtree_new();
  kvtree_set_kv_int(s, "rank", sub);
  const char* p = rank / 2 ? "nowhere/setb" : "seta";
  int rc = kvtree_write_gather(p, s, c);
  CHECK(rank / 2 ? rc != 0 : rc == 0);
  rc = kvtree_read_scatter(p, r, c);
  CHECK(rank / 2 ? rc != 0 : rc == 0);
  MPI_Finalize(); return 0;
}
''', kind='mpi', np=4)
