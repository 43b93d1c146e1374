CFG = '''#define KVTREE_TEST_BASE "/dev/shm"
'''
VARIANTS = {
  "flock": "#define HAVE_BYTESWAP_H\n#define KVTREE_FILE_LOCK_USE_FLOCK\n" + CFG,
  "fcntl": "#define HAVE_BYTESWAP_H\n#define KVTREE_FILE_LOCK_USE_FCNTL\n" + CFG,
  "noswap": "#define KVTREE_FILE_LOCK_USE_FLOCK\n" + CFG,
}
PROPS = {}
def P(pid, jobs, assumptions=(), **kw): PROPS[pid] = dict(jobs=jobs, assumptions=list(assumptions), **kw)
def J(entry, params=(), bound="", covers=(), **kw): return dict(entry=entry, params=list(params), bound=bound, covers=list(covers), **kw)
Q, TH = ("quick",), ("thorough",)

C01C = ["set", "unset", "extract", "element extract", "unset all", "extract by address", "hit", "miss"]
P("C01", [
  J("h_c01_ops", [4, 1, 0, 0], "every sequence of 4 operations, keys of 1 arbitrary byte", C01C, cores=8),
  J("h_c01_ops", [3, -2, 0, 0], "every sequence of 3 operations, keys of 0..2 arbitrary bytes", C01C, cores=8),
  *[J("h_c01_ops", [3, 1, n, 0], "every sequence of 3 operations, keys of %d shared characters and 1 arbitrary byte" % n, C01C, cores=2) for n in (30, 255, 1023, 1030, 5000)],
  *[J("h_c01_many", [n, k, p, 2], "%d elements present, keys of mixed lengths, then every sequence of 2 operations, keys of %d arbitrary bytes behind %d shared characters" % (n, k, p), C01C, cores=2) for n, k, p in ((6, 1, 0), (12, 1, 300))],
  J("h_c01_many", [40, 1, 0, 1], "40 elements present, then every operation", C01C, cores=2),
  J("h_c01_int", [-3, 1], "1 key of 0..3 arbitrary bytes, every int", ["found", "missing"], cores=2),
  J("h_c01_int", [-2, 2], "2 keys of 0..2 arbitrary bytes, every int", ["found", "missing"], cores=2),
  *[J("h_c01_twice", [a, b, k, 0, d], "every sequence of %d operations, then of %d in a tree at the same address, keys of %d arbitrary bytes" % (a, b, k), ["set", "unset", "extract", "hit", "miss"], cores=2, reuse=True) for a, b, k, d in ((2, 2, 1, 0), (2, 2, 1, 1), (3, 1, 1, 1))],
  J("h_c01_ops", [3, 1, 0, 0], "every sequence of 3 operations, keys of 1 arbitrary byte, freed memory given out again", C01C, cores=2, reuse=True),
  J("h_c01_length", [1, 1100], "keys of every length up to 1100, first or last character arbitrary", ["hit", "miss"], cores=4),
  *[J("h_c01_count", [n], "%d elements" % n, ["done"], cores=1, max_steps=2000000000) for n in (300, 70000)],
  J("h_c01_ops", [5, 1, 0, 0], "every sequence of 5 operations, keys of 1 arbitrary byte", C01C, cores=8, tiers=TH),
  J("h_c01_ops", [4, -2, 0, 0], "every sequence of 4 operations, keys of 0..2 arbitrary bytes", C01C, cores=8, tiers=TH),
  J("h_c01_many", [20, 2, 0, 2], "20 elements present, then every sequence of 2 operations, keys of 2 arbitrary bytes", C01C, cores=8, tiers=TH),
])
P("C02", [
  J("h_c02_merge", [2, 2, 1], "trees of up to 2 nodes each, 2 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["common key"], cores=4),
  J("h_c02_merge", [3, 3, 1], "trees of up to 3 nodes each, 2 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["common key"], cores=8),
  J("h_c02_merge", [2, 2, 3], "trees of up to 2 nodes each, 2 levels, keys of 0..3 arbitrary bytes, NULL subtrees", ["common key"], cores=8),
  J("h_c02_algebra", [2], "trees of up to 2 nodes each", ["done"], cores=2),
  J("h_c02_algebra", [3], "trees of up to 3 nodes each", ["done"], cores=8, tiers=TH),
  *[J("h_c02_deep", [n, 2], "chains of %d levels with 2 siblings each, one symbolic key each" % n, ["done"], cores=2) for n in (5, 9, 40)],
  *[J("h_c02_wide", [a, b, p], "%d and %d elements, keys of %d shared characters, one arbitrary" % (a, b, p), ["done"], cores=2) for a, b, p in ((40, 40, 0), (8, 8, 1022), (8, 8, 1030), (3, 3, 4096), (0, 150, 0), (150, 3, 10))],
  J("h_c02_merge", [4, 3, 1], "trees of up to 4 and 3 nodes, 2 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["common key"], cores=8, tiers=TH),
])
P("C03", [
  J("h_c03_int", [], "all pairs of int", ["existing", "new"]),
  J("h_c03_int_unset", [], "all pairs of int", ["same", "different"]),
  *[J("h_c03_conv", [c], n, ["done"]) for c, n in enumerate(["%d: all int", "%lld: all 64 bit", "%lu: all 64 bit", "%llu: all 64 bit", "%#x: all 32 bit", "%#lx: all 64 bit", "%s: strings of 0..2 bytes", "%p: all pointers"])],
  *[J("h_c03_double", [a, b], "%%f: every double of biased exponent %d to %d" % (a, b), ["done"]) for a, b in ((0, 982), (983, 1022), (1023, 1040), (1041, 1085))],
  J("h_c03_long", [], "keys of 1000..1023 characters", ["done"], cores=1),
  J("h_c03_deep", [], "ten levels with mixed conversions, any number of them existing, with and without similar siblings, string of 2 arbitrary bytes", ["done"]),
  *[J("h_c03_limit", [o, l], "%s: key of 1020..1028 and 1024, 2048 ... 5120 characters as %s of the path" % (("setf", "getf")[o], ("the first", "all")[l]), ["too long", "fits"], cores=1) for o in (0, 1) for l in (0, 1)],
  *[J("h_c03_token", [o, n, b], "%s: every token of %d characters that is not supported%s" % (("setf", "getf")[o], n, ", second level" if b else ""), ["done"], cores=1) for o in (0, 1) for n in (1, 2, 3, 4) for b in (0, 1)],
  *[J("h_c03_longkv", [n, m, 1022], "keys and sub-keys of every length from 1 to 1022, the last character arbitrary", ["done"], cores=4) for n, m in ((1, 1),)],
  *[J("h_c03_longkv", [n, m], "key of %d, sub-key of %d characters, the last arbitrary" % (n, m), ["done"], cores=1) for n, m in ((1, 1023), (1023, 1), (1030, 1030), (5000, 3000))],
  J("h_c03_inttree", [2, 2], "tree of up to 2 nodes, keys of 0..2 bytes, integers -9..99", ["done"]),
  *[J("h_c03_" + o, [n, l], "tree of up to %d nodes, keys 0..%d bytes" % (n, l), c, cores=4, tiers=t) for n, l, t in ((3, 1, Q + TH), (2, 2, Q + TH), (3, 2, Q + TH), (4, 1, Q + TH), (5, 1, Q + TH)) for o, c in (("set", ["done"]), ("get", ["found", "missing"]), ("unset", ["removed", "key removed"]))],
  *[J("h_c03_setf", [n, l], "tree of up to %d nodes, 3 levels, keys of up to %d bytes" % (n, l), ["done"], cores=4, tiers=t) for n, l, t in ((3, 1, Q + TH), (2, 2, Q + TH), (4, 1, Q + TH), (3, 2, Q + TH))],
])
P("C04", [
  *[J("h_c04_roundtrip", [t, b], "every value of the type; key held before: %s" % ["nothing", "an arbitrary value", "two values", "a NULL subtree"][b], ["done"], cores=1) for t in range(7) for b in range(4)],
  *[J("h_c04_two", [t, (t + d) % 7], "two keys of 2 bytes, every value of both types", ["done"], cores=1) for t in range(7) for d in (0, 2)],
  *[J("h_c04_missing", [t], "five ways to lack a value", ["done"], cores=1) for t in range(7)],
  *[J("h_c04_over", [t, n, (t + d) % 7], "every value of the type over a value of another type, key of %d characters and one arbitrary" % n, ["done"], cores=1) for t in range(7) for n, d in ((0, 1), (3, 3), (99, 2), (300, 4), (1000, 5))],
  *[J("h_c04_own", [t, h], "%s is the tree's own copy of it" % ["the key", "the key (a value of the field)"][h], ["done"], cores=1) for t in range(7) for h in (0, 1)],
  *[J("h_c04_own", [5, h], "the string is the tree's own copy of %s" % ["the field's value", "the field's key"][h - 2], ["done"], cores=1) for h in (2, 3)],
  J("h_c04_long", [0, 1100], "strings of every length up to 1100, the last two characters arbitrary", ["done"], cores=4),
  *[J("h_c04_long", [n], "string of %d characters and up to two arbitrary ones" % n, ["done"], cores=1) for n in (1, 30, 1021, 1022, 1023, 1024, 5000)],
])
P("C05", [
  J("h_c05_str", [3, 1], "3 keys of 0..1 arbitrary bytes, both directions", ["ascending", "descending"], cores=4),
  *[J("h_c05_str", [3, 1, n], "3 keys of %d shared characters and 0..1 arbitrary bytes, both directions" % n, ["ascending", "descending"], cores=2) for n in (15, 300, 1023, 5000)],
  J("h_c05_str", [1, 3], "1 key of 0..3 arbitrary bytes, both directions", ["ascending", "descending"], cores=1),
  J("h_c05_str", [2, 3], "2 keys of 0..3 arbitrary bytes, both directions", ["ascending", "descending"], cores=2),
  J("h_c05_str", [4, 2], "4 keys of 0..2 arbitrary bytes, both directions", ["ascending", "descending"], cores=8, tiers=TH),
  J("h_c05_int", [2, 1], "2 keys, all pairs of int, both directions", ["ascending", "descending"], cores=4),
  J("h_c05_int", [3, 0], "3 keys of 1 or 10 digits and either sign, both directions", ["ascending", "descending"], cores=4),
  J("h_c05_list", [2, 1], "2 keys, all pairs of int", ["done"], cores=4),
  J("h_c05_list", [3, 0], "3 keys of 1 or 10 digits and either sign", ["done"], cores=4),
  J("h_c05_list", [4, 0], "4 keys of 1 or 10 digits and either sign", ["done"], cores=8, tiers=TH),
  J("h_c05_many", [19, 0], "19 integer keys, one arbitrary of 1 or 10 digits at 3 places", ["done"], cores=2),
  J("h_c05_many", [20, 1], "20 string keys, one of 2 arbitrary bytes at 3 places", ["done"], cores=2),
  *[J("h_c05_many", [n, k], "%d %s keys, one arbitrary at 3 places" % (n, "string" if k else "integer"), ["done"], cores=2) for n, k in ((40, 0), (150, 1))],
  *[J("h_c05_count", [n], "%d keys, integers in any of three orders, sorted both ways and listed" % n, ["done"], cores=1, max_steps=2000000000) for n in (1100, 2500)],
  J("h_c05_empty", [], "empty and NULL trees", ["NULL", "empty"], cores=1),
])
P("C06", [
  J("h_c06_round", [3, 2, 2, 1], "trees of up to 3 nodes, 2 levels, keys of 0..2 arbitrary bytes, NULL subtrees", ["done"], cores=4),
  J("h_c06_round", [4, 4, 1, 1], "trees of up to 4 nodes, 4 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["done"], cores=8),
  J("h_c06_fromref", [3], "well-formed images of up to 3 elements, keys of 0..2 arbitrary bytes", ["done"], cores=4),
  J("h_c06_null", [], "NULL and empty trees", ["done"], cores=1),
  J("h_c06_wide", [300, 7], "300 elements", ["done"], cores=1),
  J("h_c06_wide", [70, 1100], "70 elements with keys of 1100 bytes", ["done"], cores=1),
  J("h_c06_round", [4, 2, 2, 1], "trees of up to 4 nodes, 2 levels, keys of 0..2 arbitrary bytes, NULL subtrees", ["done"], cores=8),
  J("h_c06_round", [6, 5, 1, 1], "trees of up to 6 nodes, 5 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["done"], cores=8),
  J("h_c06_round", [7, 7, 1, 1], "trees of up to 7 nodes, 7 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["done"], cores=8, tiers=TH),
  J("h_c06_round", [1, 1, 6, 1], "one key of 0..6 arbitrary bytes", ["done"]),
  J("h_c06_fromref", [5], "well-formed images of up to 5 elements, keys of 0..2 arbitrary bytes", ["done"], cores=8, tiers=TH),
  J("h_c06_wide", [20, 70000], "20 elements with keys of 70000 bytes", ["done"], cores=1, max_steps=2000000000),
  J("h_c06_wide", [6, 300000], "6 elements with keys of 300000 bytes", ["done"], cores=1, max_steps=2000000000),
  J("h_c06_wide", [66000, 6], "66000 elements", ["done"], cores=1, max_steps=2000000000),
  J("h_c06_deep", [12], "12 levels, arbitrary one-byte keys", ["done"], cores=2),
  J("h_c06_deep", [60], "60 levels, arbitrary one-byte keys", ["done"], cores=2),
  *[J("h_c06_enc", [w], "all values of %d bytes, buffers of 0..17 bytes, all positions up to 2^63" % w, ["fits", "refused"], variant=v) for w in (2, 4, 8) for v in ("flock", "noswap")],
  *[J("h_c06_dec", [w], "all values of %d bytes, buffers of 0..17 bytes, all positions up to 2^63" % w, ["fits", "refused"], variant=v) for w in (2, 4, 8) for v in ("flock", "noswap")],
  *[J("h_c06_encnull", [w], "NULL arguments", ["done"], cores=1) for w in (2, 4, 8)],
])
P("C07", [
  *[J("h_c07_files", [w], "4 readers, 8 previous contents, 8 trees, 3 targets", ["done"], cores=2) for w in range(4)],
  *[J("h_c07_tree", [w, q, 3, 2, 1], "arbitrary trees of up to 3 nodes, 2 levels, keys of 0..1 arbitrary bytes, NULL subtrees", ["done"], cores=2) for w in range(4) for q in range(4)],
  *[J("h_c07_tree", [w, w, 4, 3, 2], "arbitrary trees of up to 4 nodes, 3 levels, keys of 0..2 arbitrary bytes, NULL subtrees", ["done"], cores=4) for w in range(4)],
  J("h_c07_tree", [0, 0, 1, 1, 4], "one key of 0..4 arbitrary bytes", ["done"]),
  *[J("h_c07_merge", [w, q, 2, 2, 1], "arbitrary trees of up to 2 nodes read into arbitrary targets of up to 2 nodes", ["done"], cores=2) for w, q in ((0, 0), (1, 1), (2, 2), (3, 3))],
  J("h_c07_merge", [0, 0, 3, 3, 1], "arbitrary trees of up to 3 nodes read into arbitrary targets of up to 3 nodes", ["done"], cores=8, tiers=TH),
  J("h_c07_persist", [3, 2, 2], "arbitrary trees of up to 3 nodes, 2 levels, keys of 0..2 arbitrary bytes, NULL subtrees", ["done"], cores=2),
  J("h_c07_turns", [3], "every sequence of 3 writes and reads on two files, keys of 0..2 arbitrary bytes", ["done"], cores=4),
  J("h_c07_turns", [4], "every sequence of 4 writes and reads on two files", ["done"], cores=8, tiers=TH),
  *[J("h_c07_exact", [a, b], "file sizes and packed sizes next to every power of two from 2^%d to 2^%d" % (a, b), ["done"], max_steps=2000000000) for a, b in ((6, 13), (14, 17), (20, 20))],
  J("h_c07_big", [12, 100000], "keys of 100000 bytes, 1.2 MB", ["done"], max_steps=2000000000),
  J("h_c07_big", [3, 700000], "keys of 700000 bytes, 2.1 MB", ["done"], max_steps=2000000000),
  J("h_c07_big", [200, 40], "200 elements, 10 kB", ["done"]),
  J("h_c07_big", [10, 9000], "keys of 9000 bytes", ["done"]),
  J("h_c07_big", [1500, 60], "1500 elements, 100 kB", ["done"], max_steps=2000000000),
])
P("C08", [
  *[J("h_c08_bytes", [0, n], "every file of %d bytes" % n, ["refused"] if n else ["empty"]) for n in (0, 1, 3, 8, 16, 19, 20, 21, 23)],
  *[J("h_c08_bytes", [q, n], "every file of %d bytes" % n, ["refused", "accepted, checksum", "accepted, no checksum"]) for q, n in ((0, 28), (0, 33), (1, 29), (2, 29), (3, 29))],
  *[J("h_c08_body", [q, m, -1, 0], "valid magic number, type, version; any size field, any flags without checksum, any %d bytes behind the header" % m, ["refused", "accepted, no checksum"], cores=4) for q, m in ((0, 18), (3, 12))],
  J("h_c08_body", [0, 18, 1, 1], "valid magic number, type, version; any size up to the file length + 8, fitting checksum, any 18 bytes behind the header", ["refused", "accepted, checksum"], cores=4),
  *[J("h_c08_struct", [q], "one byte of the packed data arbitrary, any cut, with and without checksum (recomputed)", ["refused", "accepted, checksum", "accepted, no checksum"], cores=4) for q in (0, 1)],
  *[J("h_c08_bytes", [q, n], "every file of %d bytes" % n, ["refused", "accepted, checksum", "accepted, no checksum"], cores=4, tiers=TH) for q, n in ((0, 38), (1, 34), (2, 34), (3, 34))],
  J("h_c08_body", [0, 24, -1, 0], "valid magic number, type, version; any size field, any flags without checksum, any 24 bytes behind the header", ["refused", "accepted, no checksum"], cores=8, tiers=TH),
  J("h_c08_body", [0, 24, 1, 1], "as above with a fitting checksum, 24 bytes", ["refused", "accepted, checksum"], cores=8, tiers=TH),
  J("h_c08_huge", [], "every size field above the file length", ["refused"]),
])
P("C09", [
  *[J("h_c09_burst", [t], "fixed tree, every burst of four bytes (all masks) at every position, 2 writers, 4 readers", ["detected"], cores=2) for t in range(7)],
  J("h_c09_burst", [7], "262 byte file, every burst of four bytes (all masks) at every position, 2 writers, 4 readers", ["detected"], cores=4),
  *[J("h_c09_burst_sym", [a, b], "keys of %d and %d arbitrary characters, every burst of four bytes at every position, 2 writers, 4 readers" % (a, b), ["detected"], cores=4) for a, b in ((1, 0), (2, 3))],
  *[J("h_c09_far", [n, l], "%d elements with keys of %d bytes: every burst of four bytes at up to 18 places all over the file, cut at these places" % (n, l), ["detected"], cores=2) for n, l in ((3, 3000), (300, 20), (4, 20000), (5, 240000))],
  J("h_c09_burst_wide", [260], "260 elements, every burst in the header and the element count", ["detected"], cores=8, tiers=TH),
  *[J("h_c09_cut", [t], "fixed tree, every shorter length, 2 writers, 4 readers", ["detected"], cores=1) for t in range(8)],
])
P("C20", [
  J("h_c20_getmode", [], "all umasks, all arguments", ["done"], cores=1),
  *[J("h_c20_file", [op, 0], "all umasks; %s" % n, ["created"], cores=1) for op, n in enumerate(["write_file", "write_with_lock", "read_with_lock", "lock_open_read and write_close_unlock", "open", "open_with_lock"])],
  *[J("h_c20_file", [op, 2], "all umasks, up to 2 faults; %s" % n, ["created", "not created"], cores=1) for op, n in enumerate(["write_file", "write_with_lock", "read_with_lock", "lock_open_read and write_close_unlock", "open", "open_with_lock"])],
  *[J("h_c20_gather", [3, n], "all umasks, 3 ranks, %d entries per file" % n, ["done"], cores=1) for n in (1, 2)],
  J("h_c20_mpi", [5, 90], "all umasks, 5 ranks, several map levels", ["done"], cores=1),
  *[J("h_c20_mpi", [n], "all umasks, %d ranks" % n, ["done"], cores=1) for n in (1, 3)],
])

RD = dict(OPEN=1, READ_SHORT=2, READ_INTR=4, READ_ERR=8, WRITE_SHORT=0x10, WRITE_INTR=0x20, WRITE_ERR=0x40, CLOSE=0x80, FSYNC=0x100, LOCK=0x200, SEEK=0x400, TRUNC=0x800, WRITE_ZERO=0x1000, UNLOCK=0x2000, ACCESS=0x4000, WRITE_ERR_P=0x8000, READ_ERR_P=0x10000, OPEN_P=0x20000, OPENDIR=0x40000)
def F(*n): return sum(RD[x] for x in n)
SOFTW, SOFTR = F("WRITE_SHORT", "WRITE_INTR", "OPEN"), F("READ_SHORT", "READ_INTR", "OPEN")
ALLW = SOFTW | F("WRITE_ERR", "CLOSE", "FSYNC", "LOCK", "SEEK", "TRUNC", "WRITE_ZERO", "UNLOCK", "WRITE_ERR_P", "OPEN_P")
ALLR = SOFTR | F("READ_ERR", "CLOSE", "FSYNC", "LOCK", "UNLOCK", "ACCESS", "READ_ERR_P", "OPEN_P")
W10 = ["write_file", "write_with_lock", "write_close_unlock", "write_fd", "write_attempt"]
R10 = ["read_file", "read_with_lock", "lock_open_read", "read_fd", "read_attempt"]
P("C10", [
  *[J("h_c10_write", [w, ALLW, 2, 3, 5, 0], "%s: up to 2 faults of every kind at any call, every short count" % n, ["success", "success after faults", "failure"]) for w, n in enumerate(W10)],
  *[J("h_c10_write", [w, SOFTW, 3, 4, 1, 0], "%s: up to 3 short writes, interruptions or transient open failures" % n, ["success after faults"]) for w, n in enumerate(W10)],
  *[J("h_c10_write", [w, ALLW, 1, 2, -1, 0], "%s: 1 fault, keys of 1 and 2 arbitrary characters" % n, ["success", "failure"]) for w, n in enumerate(W10)],
  *[J("h_c10_write", [w, F("WRITE_INTR"), 14, 2, 2, 1], "%s: up to 14 interruptions" % n, ["success after faults"], cores=1) for w, n in enumerate(W10)],
  *[J("h_c10_write", [w, F("WRITE_ERR"), 12, 2, 2, 1], "%s: up to 12 hard errors" % n, ["success", "failure"], cores=1) for w, n in enumerate(W10)],
  *[J("h_c10_read", [q, ALLR, 2, 5, 1, 0], "%s: up to 2 faults of every kind at any call, every short count" % n, ["success", "success after faults", "failure"]) for q, n in enumerate(R10)],
  *[J("h_c10_read", [q, SOFTR, 3, 2, 2, 0], "%s: up to 3 short reads, interruptions or transient open failures" % n, ["success after faults"]) for q, n in enumerate(R10)],
  *[J("h_c10_read", [q, ALLR, 1, -1, 1, 0], "%s: 1 fault, keys of 1 and 2 arbitrary characters" % n, ["success", "failure"]) for q, n in enumerate(R10)],
  *[J("h_c10_read", [q, F("READ_INTR"), 14, 2, 1, 1], "%s: up to 14 interruptions" % n, ["success after faults"], cores=1) for q, n in enumerate(R10)],
  *[J("h_c10_read", [q, F("READ_ERR"), 12, 2, 1, 1], "%s: up to 12 hard errors" % n, ["success", "failure"], cores=1) for q, n in enumerate(R10)],
  *[J("h_c10_write", [w, F("OPEN"), 9, 2, 2, 0], "%s: up to 9 open failures" % n, ["success", "failure"], cores=1, harness="C10") for w, n in enumerate(W10[:0])],
  *[J("h_c10_write", [w, 0, 0, 3, 6, 0, 70], "%s: at most n bytes per call, for every n up to 70" % n, ["success"], cores=1) for w, n in enumerate(W10)],
  *[J("h_c10_read", [q, 0, 0, 6, 1, 0, 70], "%s: at most n bytes per call, for every n up to 70" % n, ["success"], cores=1) for q, n in enumerate(R10)],
  *[J("h_c10_write", [w, ALLW, 1, 3, 2, 0, 9], "%s: at most n bytes per call, for every n up to 9, and 1 fault" % n, ["success", "failure"], cores=1) for w, n in enumerate(W10)],
  *[J("h_c10_read", [q, ALLR, 1, 2, 1, 0, 9], "%s: at most n bytes per call, for every n up to 9, and 1 fault" % n, ["success", "failure"], cores=1) for q, n in enumerate(R10)],
  *[J("h_c10_gather", [2, 1, 0, 0, d, 70], "%s: at most n bytes per call, for every n up to 70" % n, ["success"], cores=1) for d, n in ((0, "write_to_gather"), (1, "read_scatter_single"))],
  J("h_c10_missing", [], "missing files and directories, no permission", ["done"], cores=1),
  *[J("h_c10_gather", [2, 1, ALLW, b, 0], "write_to_gather: up to %d faults" % b, ["success", "failure"], cores=4, tiers=t) for b, t in ((1, Q + TH), (2, TH))],
  *[J("h_c10_gather", [2, 1, ALLR | F("OPENDIR"), b, 1], "read_scatter_single: up to %d faults" % b, ["success", "failure"], cores=4, tiers=t) for b, t in ((1, Q + TH), (2, TH))],
  *[J("h_c10_write", [w, ALLW, 3, 3, 5, 0], "%s: up to 3 faults" % n, ["success", "success after faults", "failure"], cores=4, tiers=TH) for w, n in enumerate(W10)],
  *[J("h_c10_read", [q, ALLR, 3, 5, 1, 0], "%s: up to 3 faults" % n, ["success", "success after faults", "failure"], cores=4, tiers=TH) for q, n in enumerate(R10)],
])
W11 = ["write_file", "write_with_lock", "lock_open_read + write_close_unlock"]
P("C11", [
  *[J("h_c11_fixed", [w, t, o, 0, 0], "%s, previous content %s: crash before every call and after every number of bytes; 4 readers" % (n, "none" if o == -1 else "empty" if o == -2 else "tree"), ["crash", "no crash", "new tree"] + (["read fails"] if t != o else []), cores=2)
    for w, n in enumerate(W11) for t, o in ((2, -1), (5, -2), (2, 6), (2, 7), (7, 2), (3, 4), (0, 4), (4, 0), (5, 5))],
  *[J("h_c11_fixed", [w, t, o, SOFTW | F("CLOSE", "FSYNC", "WRITE_ERR_P", "TRUNC", "SEEK"), 1], "%s: as above with 1 fault" % n, ["crash", "no crash", "new tree", "read fails"], cores=2)
    for w, n in enumerate(W11) for t, o in ((2, 3),)],
  *[J("h_c11_fixed", [w, t, o, ALLW, 2], "%s: as above with 2 faults" % n, ["crash", "no crash", "new tree", "read fails"], cores=4, tiers=TH)
    for w, n in enumerate(W11) for t, o in ((2, 5), (5, 2), (7, 3))],
  *[J("h_c11_two", [w, a, b], "%s twice, crash anywhere" % n, ["crash", "no crash"], cores=2) for w, n in enumerate(W11) for a, b in ((2, 5), (5, 2))],
  *[J("h_c11_sym", [w, k], "%s: keys of %d arbitrary bytes in the old and the new tree" % (n, k), ["crash", "no crash", "new tree", "previous tree"], cores=2) for w, n in enumerate(W11) for k in (1, 3, 4)],
  J("h_c11_trunc", [2, 2, 1], "write_file: arbitrary trees of up to 2 nodes", ["crash", "no crash", "new tree"], cores=4),
  J("h_c11_trunc", [3, 3, 1], "write_file: arbitrary trees of up to 3 nodes", ["crash", "no crash", "new tree"], cores=8, tiers=TH),
  *[J("h_c11_gather", [3, n, SOFTW | F("CLOSE", "FSYNC", "WRITE_ERR_P")], "3 ranks, %d entries per file, 1 fault: flushed on success" % n, ["done"], cores=2) for n in (1, 2)],
  *[J("h_c11_mpi", [n, z, SOFTW & ~F("WRITE_SHORT") | F("CLOSE", "FSYNC", "WRITE_ERR_P", "WRITE_ERR")], "collective gather write, %d ranks, %s, 1 fault: flushed on success" % (n, t), ["done"], cores=1) for n, z, t in ((2, 0, "one data file"), (3, 100, "several files"), (5, 90, "several map levels"))],
  *[J("h_c11_mpi", [n], "collective gather write, %d ranks: flushed on success" % n, ["done"], cores=1) for n in (1, 3)],
])
P("C12", [
  *[J("h_c12_mix", [2, 1, 3, 0, 0], "2 processes with 1 operation each, 4 previous contents, schedules with up to 3 preemptions at system calls", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=2) for v in ("flock", "fcntl")],
  *[J("h_c12_mix", [2, 2, 2, 0, 0], "2 processes with 2 operations each, up to 2 preemptions", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=4) for v in ("flock", "fcntl")],
  *[J("h_c12_mix", [3, 1, 2, 0, 0], "3 processes with 1 operation each, up to 2 preemptions", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=4) for v in ("flock", "fcntl")],
  *[J("h_c12_mix", [2, 1, 2, F("WRITE_SHORT", "READ_SHORT"), 1], "2 processes, up to 2 preemptions, 1 short read or write of every length", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=4) for v in ("flock", "fcntl")],
  *[J("h_c12_mix", [3, 1, 3, 0, 0], "3 processes with 1 operation each, up to 3 preemptions", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=8, tiers=TH) for v in ("flock", "fcntl")],
  *[J("h_c12_mix", [2, 2, 3, 0, 0], "2 processes with 2 operations each, up to 3 preemptions", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=8, tiers=TH) for v in ("flock", "fcntl")],
  *[J("h_c12_mix", [4, 1, 2, 0, 0], "4 processes with 1 operation each, up to 2 preemptions", ["nothing before", "tree before", "all preemptions used"], variant=v, cores=8, tiers=TH) for v in ("flock",)],
  *[J("h_c12_readers", [], "two readers", ["done"], variant=v, cores=1) for v in ("flock", "fcntl")],
  *[J("h_c12_lock", [1, 3], "3 processes, shared or exclusive", ["done"], variant=v, cores=1) for v in ("flock", "fcntl")],
  *[J("h_c12_release", [op, (ALLW | ALLR) & ~F("WRITE_SHORT", "READ_SHORT"), 3, 0], "%s, up to 3 faults of any error code" % n, ["success", "failure"], variant=v, cores=1) for v in ("flock", "fcntl") for op, n in enumerate(["read_with_lock", "write_with_lock", "lock_open_read + write_close_unlock", "lock_open_read + close_with_unlock"])],
  *[J("h_c12_release", [op, (ALLW | ALLR) & ~F("WRITE_SHORT", "READ_SHORT"), 2, 1], "%s, up to 2 faults, a process started at any system call inherits the descriptors" % n, ["success", "failure"], variant=v, cores=1) for v in ("flock",) for op, n in enumerate(["read_with_lock", "write_with_lock", "lock_open_read + write_close_unlock", "lock_open_read + close_with_unlock"])],
])
P("C13", [
  J("h_c13_p2p", [2, 2, 2, 1], "2 ranks, any sender and receiver, arbitrary trees of up to 2 nodes, keys of 0..1 bytes, NULL, 3 previous contents of the receiver", ["NULL", "tree"], cores=2),
  J("h_c13_p2p", [3, 1, 1, 3], "3 ranks, keys of 0..3 bytes", ["NULL", "tree"], cores=2),
  J("h_c13_noone", [], "MPI_PROC_NULL as partner", ["done"], cores=1),
  *[J("h_c13_pair", [2, 2, w, 2, 2, 1], "2 ranks, every pattern of partners including none and itself, arbitrary trees of up to 2 nodes on one rank, 2 rounds", ["nobody", "to itself", "others"], cores=2) for w in (0, 1)],
  *[J("h_c13_pair", [3, 1, w, 1, 1, 1], "3 ranks, every pattern of partners, one arbitrary key", ["nobody", "to itself", "others"], cores=2) for w in (0, 1, 2)],
  J("h_c13_pair", [4, 1, -1, 0, 0, 0], "4 ranks, every pattern of partners", ["nobody", "to itself", "others"], cores=4),
  J("h_c13_bcast", [3, 2, 2, 1], "3 ranks, any root, arbitrary trees of up to 2 nodes", ["NULL", "tree"], cores=2),
  *[J("h_c13_bcast", [n, 1, 1, 1], "%d ranks, any root, one arbitrary key" % n, ["NULL", "tree"], cores=1) for n in (1, 2, 4, 5)],
  *[J("h_c13_mixed", [n], "%d ranks, transfers of all kinds one after another" % n, ["done"], cores=1) for n in (2, 3, 4)],
  *[J("h_c13_split", [n, nodes, 2, 1], "%d ranks, every division into communicators, both numberings, arbitrary tree of up to %d nodes at any rank" % (n, nodes), ["one group", "several groups"], cores=1) for n, nodes in ((2, 2), (3, 1), (4, 0))],
  *[J("h_c13_exact", [a, b], "packed sizes next to every power of two from 2^%d to 2^%d" % (a, b), ["done"], cores=1, max_steps=2000000000) for a, b in ((5, 14), (15, 20))],
  *[J("h_c13_large", [n, l, m], "trees of %d elements with keys of %d bytes" % (n, l), ["done"], cores=1) for n, l in ((300, 20), (20, 3000)) for m in range(3)],
  *[J("h_c13_oversize", [m, n], "%s of a tree of %d GB" % (w, 1 << (n - 10)), ["refused"], cores=1, samples=1) for m, w in enumerate(("kvtree_send", "kvtree_sendrecv", "kvtree_bcast")) for n in (11, 12)],
  J("h_c13_p2p", [2, 3, 3, 1], "2 ranks, arbitrary trees of up to 3 nodes, 3 levels", ["NULL", "tree"], cores=4, tiers=TH),
  J("h_c13_pair", [3, 2, 1, 2, 2, 1], "3 ranks, every pattern of partners, 2 rounds, arbitrary trees of up to 2 nodes", ["nobody", "to itself", "others"], cores=8, tiers=TH),
  J("h_c13_pair", [5, 1, -1, 0, 0, 0], "5 ranks, every pattern of partners", ["nobody", "to itself", "others"], cores=8, tiers=TH),
  J("h_c13_bcast", [4, 3, 3, 1], "4 ranks, arbitrary trees of up to 3 nodes", ["NULL", "tree"], cores=8, tiers=TH),
])
X14 = ["automatic", "left", "right"]
P("C14", [
  *[J("h_c14_all", [n, 1, 0, 0, 0], "%d ranks, every pattern of destinations, messages with an arbitrary key of 2 bytes, three kinds of exchange" % n, X14, cores=2) for n in (1, 2)],
  *[J("h_c14_all", [3, 0, 0, o, 0], "3 ranks, every pattern of destinations", X14, cores=4) for o in (0, 1)],
  *[J("h_c14_all", [3, 0, 1, 0, z], "3 ranks, every pattern of destinations, %s messages" % ("NULL" if z else "empty"), X14, cores=4) for z in (0, 1)],
  *[J("h_c14_few", [n, 0, 0, 0, 0, 1], "%d ranks, one message with any sender and receiver" % n, X14, cores=2) for n in (4, 5, 6, 7, 8, 9, 16, 17)],
  *[J("h_c14_few", [n, 0, 0, 0, 0, 2], "%d ranks, two messages with any senders and receivers" % n, X14, cores=4) for n in (4, 5, 6)],
  *[J("h_c14_dense", [n, 0, 0, 0, 0], "%d ranks, dense patterns" % n, X14, cores=4) for n in (4, 5, 7, 8)],
  J("h_c14_all", [4, 0, 0, 0, 0], "4 ranks, every pattern of destinations", X14, cores=8, tiers=TH),
  J("h_c14_few", [3, 1, 0, 0, 0, 2], "3 ranks, two messages with an arbitrary key of 2 bytes", X14, cores=2),
  *[J("h_c14_few", [n, 0, 0, 0, 0, 2], "%d ranks, two messages with any senders and receivers" % n, X14, cores=8) for n in (7, 8)],
  J("h_c14_merge", [2, 2, 1, 0, 2, 0], "2 ranks, two messages of 9 shapes for one destination, with an arbitrary key of 2 bytes", X14, cores=2),
  J("h_c14_merge", [2, 3, 1, 0, 0, 0], "2 ranks, three messages of 8 shapes for one destination", X14, cores=2),
  J("h_c14_merge", [3, 2, 3, 0, 0, 1], "3 ranks, two messages of 8 shapes with any senders and receivers, three exchanges one after the other", X14, cores=4),
  J("h_c14_merge", [3, 3, 1, 0, 1, 0], "3 ranks, three messages of 9 shapes for one destination, with an arbitrary key of 1 byte", X14, cores=4),
  J("h_c14_merge", [3, 2, 2, 1, 1, 0], "3 ranks, each alone in its communicator, two messages of 9 shapes, two exchanges", X14, cores=2),
  *[J("h_c14_many", [n, 0, 0, 0, 0], "%d ranks, one message or one per rank, all distances next to a power of two" % n, X14, cores=2, **t) for n, t in ((33, {}), (67, {}), (130, dict(tiers=TH)))],
  J("h_c14_far", [300, 0, 0, 0, 0], "300 ranks, one message over a distance of 255, 256, 257 or 299 ranks", ["automatic"], cores=2, max_steps=2000000000),
  *[J("h_c14_long", [n, b - o, b + 2, e], "messages of %d..%d bytes, %d ranks, from %s" % (b - o, b + 2, n, "every rank" if e else "one rank"), ["done"], cores=1, max_steps=2000000000) for n, b, o, e in ((3, 256, 255, 1), (3, 1024, 80, 0), (2, 4096, 80, 1), (4, 65536, 60, 0), (2, 1 << 20, 1, 1))],
  J("h_c14_queue", [], "messages queued for any one or two ranks", ["one", "two"], cores=2),
  *[J("h_c14_split", [n, k], "%d ranks, every division into communicators, both numberings%s" % (n, ", an arbitrary key of %d bytes" % k if k else ""), ["one group", "several groups"], cores=1) for n, k in ((2, 2), (3, 1), (4, 0))],
  J("h_c14_few", [9, 0, 0, 0, 0, 2], "9 ranks, two messages with any senders and receivers", X14, cores=8, tiers=TH),
  *[J("h_c14_few", [n, 0, 0, 0, 0, m], "%d ranks, %d messages with any senders and receivers" % (n, m), X14, cores=8, tiers=TH) for n, m in ((4, 3), (12, 2), (13, 2), (5, 3), (4, 4))],
  *[J("h_c14_dense", [n, 0, 0, 0, 0], "%d ranks, dense patterns" % n, X14, cores=4, tiers=TH) for n in (6, 9, 11, 16)],
])

P("C15", [
  *[J("h_c15_round", [n, 7, 2, 0], "%d ranks, trees NULL, empty or small, one with an arbitrary key of 2 bytes" % n, ["one data file"], cores=1) for n in (1, 2, 3, 4)],
  *[J("h_c15_round", [n, 0b0111100, 0, 0], "%d ranks, trees small, 0.35 MB, 0.7 MB or 1.3 MB" % n, ["one data file"] + (["several files"] if n > 1 else []), cores=2) for n in (1, 2, 3)],
  J("h_c15_round", [4, 0b0010001, 0, 0], "4 ranks, trees NULL or 0.7 MB", ["one data file", "several files"], cores=2),
  J("h_c15_round", [3, 0b1100100, 0, 0], "3 ranks, trees small, 1.3 MB or of exactly the bytes that fill 1 MB", ["one data file", "several files"], cores=2),
  J("h_c15_round", [5, 0b0100010, 0, 0], "5 ranks, trees empty or 1.3 MB", ["one data file", "several files"], cores=2),
  J("h_c15_round", [2, 0b0000111, 1, 1], "2 ranks, read into trees that already hold data", ["one data file"], cores=1),
  *[J("h_c15_other", [n, 0b0100100, m], "written by %d ranks (trees small or 1.3 MB), read by %d" % (n, m), ["done"], cores=1) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4, 5) if m != n],
  *[J("h_c15_again", [n, 0b0100100, 0b0100101], "%d ranks write twice below one prefix, trees NULL, small or 1.3 MB" % n, ["done"], cores=2) for n in (2, 3)],
  *[J("h_c15_round", [n, m, 0, 0, z], "%d ranks, segments of %d bytes (several map levels), %s" % (n, z, t), [], cores=1) for n, m, z, t in
    ((3, 0b1111111, 100, "trees of every size class"), (4, 0b0100101, 100, "trees NULL, small or larger than a segment"), (4, 0b1010100, 200, "trees small, 0.7 segments or filling a segment"), (6, 0b0100001, 100, "trees NULL or larger than a segment"), (8, 0b0100000, 80, "trees larger than a segment"), (12, 0b0100000, 100, "trees larger than a segment"), (8, 0b0000110, 150, "trees empty or small"), (5, 0b0100110, 120, "trees empty, small or larger than a segment"))],
  *[J("h_c15_other", [n, 0b0100000, m, 100], "written by %d ranks with several map levels, read by %d" % (n, m), ["done"], cores=1) for n in (4, 6) for m in (1, 3, 5, 7)],
  J("h_c15_again", [4, 0b0100000, 0b0000101, 100], "4 ranks write twice below one prefix, first with several map levels", ["done"], cores=1),
  J("h_c15_again", [4, 0b0000100, 0b0100101, 100], "4 ranks write twice below one prefix, then with several map levels", ["done"], cores=1),
  J("h_c15_many", [33, 0, 5, 100, 1], "33 ranks, trees NULL or, at one rank or two, larger than a segment", ["done"], cores=1, harness="C15m", max_steps=2000000000),
  *[J("h_c15_many", [n, a, b, z], "%d ranks, %s" % (n, t), ["done"], cores=1, harness="C15m", max_steps=2000000000, **k) for n, a, b, z, t, k in
    ((17, 2, 1, 0, "trees small or empty", {}), (33, 2, 0, 0, "trees small or NULL", {}), (66, 1, 2, 0, "trees empty or small", {}), (20, 1, 5, 100, "trees empty or larger than a segment", {}), (34, 2, 5, 2000, "trees small or larger than a segment", {}), (33, 5, 1, 120, "trees larger than a segment or empty", {}), (130, 1, 2, 0, "trees empty or small", {}))],
  *[J("h_c15_self", [n], "%d ranks, each alone in its communicator" % n, ["done"], cores=1) for n in (1, 3)],
  *[J("h_c15_split", [n, m, k, s], "%d ranks, every division into communicators, both numberings%s" % (n, ", an arbitrary key of %d bytes" % k if k else ", several map levels" if s else ""), ["one group", "several groups"], cores=1) for n, m, k, s in ((2, 7, 2, 0), (3, 6, 0, 0), (4, 4, 0, 0), (3, 0b0100100, 0, 90), (5, 0b0100000, 0, 90))],
  *[J("h_c15_prefix", [a, b], "prefixes of every length from %d to %d characters" % (a, b), ["done"], cores=1) for a, b in ((2, 400), (401, 700), (701, 1000))],
  *[J("h_c15_levels", [n, l, s], "%d ranks, hand-made file sets of %d map levels, every contiguous grouping%s" % (n, l, ", level 0 in one file at offsets" if s else ""), ["done"], cores=1) for n in (1, 2, 3, 4) for l in (1, 2, 3) for s in (0, 1) if n * l <= 9],
  J("h_c15_round", [4, 0b0110100, 0, 0], "4 ranks, trees small, 0.7 MB or 1.3 MB", ["one data file", "several files"], cores=4, tiers=TH),
  J("h_c15_round", [3, 0b1111111, 0, 0], "3 ranks, trees of every size class", ["one data file", "several files"], cores=4, tiers=TH),
  J("h_c15_round", [7, 0b0100010, 0, 0], "7 ranks, trees empty or 1.3 MB", ["one data file", "several files"], cores=4, tiers=TH),
  J("h_c15_levels", [5, 2, 0], "5 ranks, hand-made file sets of 2 map levels", ["done"], cores=2, tiers=TH),
  J("h_c15_levels", [4, 3, 0], "4 ranks, hand-made file sets of 3 map levels", ["done"], cores=2, tiers=TH),
])
WC, RC = (SOFTW | F("WRITE_ERR", "CLOSE", "FSYNC", "SEEK", "WRITE_ZERO", "WRITE_ERR_P", "OPEN_P")), (SOFTR | F("READ_ERR", "CLOSE", "FSYNC", "SEEK", "READ_ERR_P", "OPEN_P"))
SF = ["success", "success after faults", "failure"]
P("C16", [
  *[J("h_c16_write", [n, 0b100, WC, 1, 0], "%d ranks, small trees: 1 fault of any kind at any call of any rank" % n, SF, cores=1) for n in (1, 2, 3)],
  *[J("h_c16_write", [n, 0b0100010, WC & ~F("WRITE_SHORT"), 1, 0], "%d ranks, trees empty or 1.3 MB: 1 fault of any kind but short writes" % n, SF, cores=2) for n in (2, 3)],
  J("h_c16_write", [2, 0b0100000, WC & ~F("WRITE_SHORT"), 2, 0], "2 ranks, trees of 1.3 MB: 2 faults of any kind but short writes", SF, cores=2),
  J("h_c16_write", [2, 0b100, WC & ~F("WRITE_SHORT"), 2, 1], "2 ranks, small trees over an earlier set: 2 faults", SF, cores=2),
  *[J("h_c16_read", [n, 0b100, RC, 1], "%d ranks, small trees: 1 fault of any kind at any call of any rank" % n, SF, cores=1) for n in (1, 2, 3)],
  *[J("h_c16_read", [n, 0b0100010, RC & ~F("READ_SHORT"), 1], "%d ranks, trees empty or 1.3 MB: 1 fault of any kind but short reads" % n, SF, cores=2) for n in (2, 3)],
  J("h_c16_read", [2, 0b0100000, RC & ~F("READ_SHORT"), 2], "2 ranks, trees of 1.3 MB: 2 faults", SF, cores=2),
  *[J("h_c16_damage", [n, 0b0100010], "%d ranks, trees empty or 1.3 MB: any file missing, unreadable, empty or replaced" % n, ["detected"], cores=1) for n in (1, 2, 3)],
  *[J("h_c16_mismatch", [n, 0b0100010], "%d ranks, trees empty or 1.3 MB: fields of any file do not fit" % n, ["detected"], cores=1) for n in (1, 2, 3)],
  *[J("h_c16_write", [n, 0b0100000, WC & ~F("WRITE_SHORT"), 1, o, 90], "%d ranks, several map levels%s: 1 fault of any kind but short writes at any call of any rank" % (n, ", over an earlier set" if o else ""), SF, cores=1) for n, o in ((4, 0), (6, 0), (4, 1))],
  *[J("h_c16_read", [n, 0b0100000, RC & ~F("READ_SHORT"), 1, 90], "%d ranks, several map levels: 1 fault of any kind but short reads at any call of any rank" % n, SF, cores=1) for n in (4, 6)],
  J("h_c16_damage", [6, 0b0100000, 90], "6 ranks, several map levels: any file missing, unreadable, empty or replaced", ["detected"], cores=1),
  J("h_c16_cut", [4, 0b0100000, 90], "4 ranks, several map levels: any file cut to any length", ["detected"], cores=1),
  J("h_c16_burst", [3, 0b0100000, 90], "3 ranks, several map levels: any four consecutive bytes of any file altered in any way", ["detected"], cores=2),
  J("h_c16_mismatch", [5, 0b0100000, 90], "5 ranks, several map levels: fields of any file do not fit", ["detected"], cores=1),
  J("h_c16_cut", [3, 0b100], "3 ranks, small trees: any file cut to any length", ["detected"], cores=1),
  J("h_c16_cut", [2, 0b0100000], "2 ranks, trees of 1.3 MB: any file cut to 40 lengths", ["detected"], cores=1),
  J("h_c16_burst", [2, 0b100], "2 ranks, small trees: any four consecutive bytes of any file altered in any way", ["detected"], cores=2),
  *[J("h_c16_levels", [n], "%d ranks, hand-made sets with two map levels: any lower file missing, empty, cut, altered or of another number of ranks" % n, ["detected"], cores=1) for n in (2, 3)],
  J("h_c16_offset", [3, RC, 1], "3 ranks, level 0 at offsets of one file: 1 fault", SF, cores=1),
  *[J("h_c16_split", [n, m, f, 1, rd, s], "%d ranks, every division into communicators, %s: 1 fault of any kind at one rank%s" % (n, "reading" if rd else "writing", ", several map levels" if s else ""), SF, cores=1) for rd, f in ((0, WC & ~F("WRITE_SHORT")), (1, RC & ~F("READ_SHORT"))) for n, m, s in ((2, 4, 0), (3, 4, 0), (3, 0b0100000, 90))],
])
P("C17", [
  *[J("h_c17_serial", [n, p, 7, 0], "%d ranks, %s entries per file, trees NULL, empty or small, every order of the input" % (n, p or "default"), ["several files" if p and p < n else "one data file"], cores=1) for n in (0, 1, 2, 3) for p in (0, 1, 2, 3) if p <= n],
  *[J("h_c17_serial", [4, p, 4, 0], "4 ranks, %d entries per file, every order of the input" % p, ["several files"], cores=1) for p in (1, 2, 3)],
  *[J("h_c17_serial", [n, p, 4, 0], "%d ranks, %d entries per file, 4 orders of the input" % (n, p), ["several files"], cores=1) for n in (10, 11, 12) for p in (1, 4, 5, 10) if p < n],
  *[J("h_c17_serial", [2, p, 6, 2], "2 ranks, %d entries per file, an arbitrary key of 2 bytes" % p, ["several files" if p < 2 else "one data file"], cores=1) for p in (1, 2)],
  *[J("h_c17_prefix", [3, 2, c], "%d prefix names, %s writer" % (27, "collective" if c else "serial"), ["done"], cores=1) for c in (0, 1)],
  *[J("h_c17_prefix_long", [a, b, c], "prefixes of every length from %d to %d characters, %s writer" % (a, b, "collective" if c else "serial"), ["done"], cores=1) for a, b in ((2, 400), (401, 700), (701, 1000)) for c in (0, 1)],
  J("h_c17_prefix_char", [], "any character at the beginning, inside and at the end of the prefix", ["done"], cores=2),
  *[J("h_c17_many", [n, p], "%d ranks, %d entries per file, one tree with an arbitrary value, two orders of the input" % (n, p), ["done"], cores=1) for n, p in ((1201, 600), (130, 13))],
  J("h_c17_others", [], "33 kinds of other files in the directory", ["done"], cores=1),
  *[J("h_c17_near", [h, p], "another file whose name is that of a part file with any one character %s, %d entries per file" % (w, p), ["done"], cores=2) for h, w in enumerate(("replaced", "added", "left out")) for p in (1, 2)],
  J("h_c17_entries", [], "17 values of KVTREE_ENTRIES_PER_FILE around every integer width", ["done"], cores=1),
  J("h_c17_collective", [3, 7, 2, 0], "collective writer, 3 ranks, trees NULL, empty or small, an arbitrary key of 2 bytes", ["one data file"], cores=1),
  J("h_c17_collective", [3, 0b0100001, 0, 0], "collective writer, 3 ranks, trees NULL or 1.3 MB", ["one data file", "several files"], cores=1),
  J("h_c17_collective", [2, 7, 0, 1], "collective writer, 2 ranks, target tree holds data", ["one data file"], cores=1),
  J("h_c17_collective", [3, 0b0111000, 0, 0], "collective writer, 3 ranks, trees of 0.35, 0.7 or 1.3 MB", ["one data file", "several files"], cores=2),
  *[J("h_c17_collective", [n, m, 0, p, 90], "collective writer, %d ranks, several map levels%s" % (n, ", target tree holds data" if p else ""), [], cores=1) for n, m, p in ((4, 0b0100101, 0), (6, 0b0100000, 0), (10, 0b0100000, 1), (5, 0b0100010, 0))],
  *[J("h_c17_again", list(a), "%d ranks (%d entries per file) over %d ranks (%d)%s" % (a[2], a[3], a[0], a[1], ", collective first" if a[4] & 1 else ", collective second" if a[4] & 2 else ""), ["done"], cores=1)
    for a in ((4, 1, 4, 2, 0), (4, 2, 4, 1, 0), (4, 1, 2, 1, 0), (2, 1, 4, 2, 0), (3, 1, 3, 0, 2), (3, 0, 3, 1, 1), (3, 0, 2, 0, 3), (4, 1, 1, 1, 0), (3, 2, 3, 2, 0))],
  J("h_c17_damage", [3, 1, 0, 0], "3 ranks, serial writer: any file missing, unreadable, empty, cut to any length, replaced or with four bytes altered", ["detected"], cores=2),
  J("h_c17_damage", [2, 0, 1, 0], "2 ranks, collective writer: any file missing, unreadable, empty, cut or replaced", ["detected"], cores=1),
  *[J("h_c17_damage", [n, 0, 1, 0, 90], "%d ranks, collective writer, several map levels: the root or any data file missing, unreadable, empty, cut to any length, replaced or with four bytes altered" % n, ["detected"], cores=1) for n in (3,)],
  J("h_c17_damage", [6, 0, 1, 0, 90], "6 ranks, collective writer, several map levels: the root or any data file missing or damaged", ["detected"], cores=2, tiers=TH),
  J("h_c17_damage", [4, 2, 0, 1], "4 ranks, serial writer over an earlier set with other part files: any file missing or damaged", ["detected"], cores=2),
  *[J("h_c17_split", [n, m, sg], "%d ranks, every division into communicators, whose sets lie in one directory%s" % (n, ", several map levels" if sg else ""), ["one group", "several groups"], cores=1) for n, m, sg in ((2, 7, 0), (3, 6, 0), (4, 4, 0), (4, 0b0100000, 90))],
  *[J("h_c17_levels", [n, l], "%d ranks, sets of %d map levels, every contiguous grouping" % (n, l), ["done"], cores=1) for n in (2, 3, 4) for l in (1, 2)],
])
W18 = ["kvtree_write_file", "kvtree_write_with_lock", "kvtree_read_file", "kvtree_read_with_lock", "kvtree_lock_open_read and kvtree_write_close_unlock", "kvtree_lock_open_read", "kvtree_read_fd", "kvtree_write_fd"]
ANY18 = ALLW | ALLR | F("ACCESS")
P("C18", [
  *[J("h_c18_map", [1, 2, op], "operation %d of 18 on trees of up to 2 elements and NULL, NULL keys and values, keys of one arbitrary character" % op, ["done"], cores=1) for op in range(18)],
  *[J("h_c18_map", [2, 1, op], "any operation after operation %d, trees of up to 1 element" % op, ["done"], cores=1) for op in range(18)],
  *[J("h_c18_map", [3, 1, op], "any two operations after operation %d, trees of up to 1 element" % op, ["done"], cores=2, tiers=TH) for op in range(18)],
  J("h_c18_util", [2], "sorting, listing, packing, persisting, printing, fields on trees of up to 2 elements and NULL", ["done"], cores=2),
  *[J("h_c18_file", [o, ANY18, 1, 5], "%s: 1 fault of any kind at any call" % n, ["success", "failure"], cores=1) for o, n in enumerate(W18)],
  *[J("h_c18_file", [o, ANY18 & ~F("READ_SHORT", "WRITE_SHORT"), 2, 3], "%s: 2 faults of any kind but short counts" % n, ["success", "failure"], cores=1) for o, n in enumerate(W18)],
  *[J("h_c18_damaged", [o], "%s: missing, unreadable, empty, cut, any byte altered with or without fitting checksum" % n, ["success", "failure"] if o not in (0,) else ["success"], cores=1) for o, n in enumerate(W18)],
  *[J("h_c18_size", [o], "%s: any size field" % n, ["done"], cores=1) for o, n in enumerate(W18) if o >= 2],
  *[J("h_c18_set", [o, 2, ANY18 | F("OPENDIR"), 1, 2], "%s: 1 fault of any kind at any call" % n, ["success", "failure"], cores=1) for o, n in ((0, "kvtree_write_to_gather"), (1, "kvtree_write_to_gather, one file"), (2, "kvtree_read_scatter_single"), (3, "kvtree_write_gather, 2 ranks"), (4, "kvtree_read_scatter, 2 ranks"))],
  *[J("h_c18_set", [o, 2, WC & ~F("WRITE_SHORT") | RC & ~F("READ_SHORT"), 1, 5], "%s: 1 fault, several data files" % n, ["success", "failure"], cores=1) for o, n in ((3, "kvtree_write_gather, 2 ranks"), (4, "kvtree_read_scatter, 2 ranks"))],
  *[J("h_c18_set", [o, 5, WC & ~F("WRITE_SHORT") | RC & ~F("READ_SHORT"), 1, 5, 90], "%s: 1 fault, several map levels" % n, ["success", "failure"], cores=1) for o, n in ((3, "kvtree_write_gather, 5 ranks"), (4, "kvtree_read_scatter, 5 ranks"))],
  *[J("h_c18_levels", [o, n, l], "%s, %d ranks, %d map levels: any file missing, cut, without or with wrong fields" % ("kvtree_read_scatter_single" if o == 2 else "kvtree_read_scatter", n, l), ["failure", "success"], cores=1) for o in (2, 4) for n in (1, 2, 3) for l in (1, 2)],
  *[J("h_c18_mpi", [n, z, d], "%d ranks: all transfers%s" % (n, ", NULL trees" if z else ""), ["done"], cores=1) for n in (1, 2, 3, 5) for z in (0, 1) for d in (0, 1)],
])
P("C19", [
  J("h_c19_shape", [3, 2, 1], "trees of up to 3 elements on 2 levels, NULL subtrees, keys of 0..1 arbitrary bytes, both modes, 3 indents", ["done", "key = value"], cores=4),
  J("h_c19_shape", [4, 4, 0], "trees of up to 4 elements on 4 levels with empty keys", ["done", "key = value"], cores=2),
  J("h_c19_shape", [2, 2, 3], "trees of up to 2 elements, keys of 0..3 arbitrary bytes", ["done", "key = value"], cores=2),
  J("h_c19_shape", [5, 4, 1], "trees of up to 5 elements on 4 levels", ["done", "key = value"], cores=8, tiers=TH),
  J("h_c19_null", [], "NULL tree", ["done"], cores=1),
  *[J("h_c19_indent", [a, b], "indents %d to %d" % (a, b), ["done"], cores=1) for a, b in ((0, 70), (1010, 1030), (4090, 4100))],
  *[J("h_c19_deep", [n, s], "chains of %d levels%s" % (n, ", two elements each" if s else ""), ["done"], cores=1, max_steps=2000000000) for n in (5, 510, 520, 1100) for s in (0, 1)],
  J("h_c19_long", [2, 1100], "keys of every length from 2 to 1101, percent signs", ["done"], cores=4),
  *[J("h_c19_long", [n], "keys of %d characters, percent signs" % n, ["done"], cores=1) for n in (2, 30, 1023, 1024, 5000)],
  *[J("h_c19_log", [n, i], "log of %s, indent %d" % ("a chain of %d levels" % n if n else "small trees", i), ["done"], cores=1) for n, i in ((0, 0), (0, 6), (520, 0), (3, 1021))],
  J("h_c19_main", [], "printer: 37 argument lists, 5 trees", ["printed", "invalid"], cores=2),
  *[J("h_c19_mode", [n, f], "printer: any mode of %d characters" % n, ["unknown mode"] + (["valid mode"] if n in (4, 6) else []), cores=1) for n in (3, 4, 5, 6, 7) for f in (0, 1, 2)],
  J("h_c19_unreadable", [], "printer: missing, unreadable, cut or altered files, failing reads", ["done"], cores=2),
], printer=True)

P("C21", [
  *[J("h_c21_map", [op, 3], "map operation %d of 19: NULL tree with any key of up to 2 bytes and any integer; any tree of up to 3 elements with NULL keys" % op, ["NULL tree", "NULL key"], cores=1) for op in range(19)],
  J("h_c21_walk", [3], "iteration, sorting, listing, merging, packing, printing of NULL; any tree of up to 3 elements", ["NULL tree", "tree"], cores=2),
  J("h_c21_field", [3], "all fields: NULL tree with any key of up to 2 bytes; any tree of up to 3 elements with a NULL key", ["NULL tree", "NULL key"], cores=2),
  *[J("h_c21_file", [op, e], "file operation %d of 20, the file %s" % (op, "exists" if e else "is missing"), ["NULL tree", "tree"], cores=1) for op in range(20) for e in (0, 1)],
  J("h_c21_closed", [], "descriptors that are not open", ["tree"], cores=1),
  *[J("h_c21_prefix", [n], "collective file operations with a NULL prefix, %d ranks" % n, ["read", "write"], cores=1) for n in (1, 2, 3)],
  *[J("h_c21_ranks", [n, m], "%s, %d ranks, any of them" % (w, n), ["done"], cores=1) for n in (1, 2, 3, 4) for m, w in enumerate(("broadcast with a NULL tree", "NULL tree sent", "NULL receiving tree", "NULL receiver, queue and message", "NULL queue and NULL messages exchanged"))],
])
_EXP = ((0, 982, "below 2^-40"), (983, 1022, "2^-40 to 1"), (1023, 1040, "1 to 2^18"), (1041, 1060, "2^18 to 2^38"), (1061, 1085, "2^38 to 2^63"), (1086, 2046, "2^63 to the largest double"), (2047, 2047, "infinities and NaNs"))
P("C22", [
  *[J("h_c22", [a, b, w], "every double of magnitude %s; the key held %s before; any errno" % (t, ("nothing", "a double", "two keys")[w]), ["done"], tiers=("quick", "thorough") if w == 0 or a in (0, 1023, 2047) else TH) for a, b, t in _EXP for w in (0, 1, 2)],
  J("h_c22_given", [], "15 values", ["done"], cores=1),
  J("h_c22_missing", [], "five ways to be missing", ["done"], cores=1),
  J("h_c22_two", [], "three values of six binades each", ["done"], cores=4, tiers=TH),
  *[J("h_c22_via", [a, b, w], "every double of magnitude %s, then %s" % (t, ("merged", "packed and unpacked")[w]), ["done"], tiers=("quick", "thorough") if a in (0, 1041, 2047) else TH) for a, b, t in _EXP for w in (0, 1)],
  *[J("h_c22_text", [n, k, s], "texts of %d digits%s%s" % (n, ", point and %d digits" % k if k >= 0 else "", ("", " after a minus", " after a plus")[s]), ["done"]) for n, k, s in ((1, -1, 0), (3, -1, 1), (9, -1, 0), (1, 1, 0), (2, 3, 1), (0, 3, 0), (4, 6, 0), (9, 6, 1))],
  *[J("h_c22_text", [n, k, s], "texts of %d digits%s%s" % (n, ", point and %d digits" % k if k >= 0 else "", ("", " after a minus", " after a plus")[s]), ["done"], tiers=TH) for n, k, s in ((18, -1, 2), (12, 6, 1), (3, 9, 0))],
], ["printf %f and strtod are modelled in integers (models/softfp.c, models/libc.c), compared with glibc on every replay"], note="every bit pattern of a double")

_OPS23 = ["kvtree_new", "kvtree_set", "kvtree_set_kv", "kvtree_set_kv_int", "kvtree_setf", "kvtree_getf", "set_bytecount", "set_crc32", "set_int", "set_unsigned_long", "set_str", "set_int64", "set_double", "set_ptr", "kvtree_merge", "kvtree_unpack", "kvtree_sort", "kvtree_sort_int", "kvtree_list_int", "kvtree_write_file", "kvtree_read_file", "kvtree_write_with_lock", "kvtree_read_with_lock", "kvtree_lock_open_read and kvtree_write_close_unlock", "kvtree_write_persist", "kvtree_write_to_gather", "kvtree_read_scatter_single", "printing and logging", "kvtree_exchange_sendq", "get_int", "get_int64", "get_bytecount", "get_crc32", "get_unsigned_long", "get_double", "get_str", "get_ptr", "unset operations", "lookups", "extraction", "kvtree_pack"]
P("C23", [
  *[J("h_c23", [o, m, 0, 1], "%s: %s allocation fails" % (n, ("any one", "from any point on every")[m - 1]), ["enough memory"], cores=1) for o, n in enumerate(_OPS23) for m in (1, 2)],
  *[J("h_c23_ranks", [o, n, m, c], "%s, %d ranks: %s allocation of any rank fails" % (w, n, ("any one", "from any point on every")[m - 1]), ["enough memory"], cores=1)
    for o, w in enumerate(("send and receive", "kvtree_sendrecv", "kvtree_bcast", "kvtree_exchange", "kvtree_exchange_direction", "kvtree_write_gather", "kvtree_read_scatter")) for n in (1, 2, 3) for m in (1, 2) for c in ((2,) if o < 5 else (2, 3)) if n > 1 or o > 0],
  *[J("h_c23_ranks", [o, 4, m, 5, 90], "%s, 4 ranks, several map levels: %s allocation of any rank fails" % (w, ("any one", "from any point on every")[m - 1]), ["enough memory"], cores=1) for o, w in ((5, "kvtree_write_gather"), (6, "kvtree_read_scatter")) for m in (1, 2)],
])

_OPS24 = ["kvtree_get", "kvtree_getf, 1 level", "kvtree_getf, 2 levels", "kvtree_getf, 3 levels", "kvtree_get_kv", "kvtree_get_kv_int", "kvtree_get_val", "kvtree_size", "kvtree_elem_get", "kvtree_elem_get_first_val", "iteration", "kvtree_list_int", "kvtree_pack", "kvtree_write_persist", "kvtree_print", "kvtree_print_mode", "kvtree_log", "get_bytecount", "get_crc32", "get_int", "get_unsigned_long", "get_str", "get_int64", "get_double", "get_ptr", "kvtree_merge", "kvtree_write_file", "kvtree_write_fd", "kvtree_write_close_unlock", "kvtree_exchange_sendq"]
P("C24", [
  *[J("h_c24", [o, n, l, WC if o >= 26 else 0], "%s: every tree of up to %d elements on 3 levels, NULL subtrees, keys of up to %d arbitrary bytes%s" % (w, n, l, ", 1 fault" if o >= 26 else ""), ["done"], cores=1, tiers=t)
    for n, l, t in ((3, 1, Q + TH), (2, 2, Q + TH), (4, 1, TH)) for o, w in enumerate(_OPS24)],
  *[J("h_c24_fields", [o, n], "%s: fields whose values are %d arbitrary characters" % (w, n), ["done"], cores=1) for n in (1, 2) for o, w in enumerate(["get_bytecount", "get_crc32", "get_int", "get_unsigned_long", "get_str", "get_int64", "get_double", "get_ptr", "kvtree_list_int", "first values"])],
  *[J("h_c24_ranks", [o, n, ALLW if o == 6 else 0], "%s, %d ranks" % (w, n), ["done"], cores=1) for n in (1, 2, 3, 4) for o, w in enumerate(("send and receive", "kvtree_sendrecv", "kvtree_bcast", "kvtree_exchange", "kvtree_exchange_direction left", "kvtree_exchange_direction right", "kvtree_write_gather, 1 fault")) if n > 1 or o > 0],
  J("h_c24_ranks", [6, 5, ALLW & ~F("WRITE_SHORT"), 90], "kvtree_write_gather, 5 ranks, several map levels, 1 fault", ["done"], cores=1),
  *[J("h_c24_gather", [n, e, ALLW], "kvtree_write_to_gather, %d ranks in any order, %d per file, 1 fault" % (n, e), ["done"], cores=1) for n, e in ((2, 1), (3, 1), (3, 2), (4, 2))],
])
# the same jobs where memory given back by free is given out again: what the code remembers by address may then be something else
REUSE = {
  "C02": [("h_c02_merge", [2, 2, 1]), ("h_c02_algebra", [2])],
  "C03": [("h_c03_%s" % f, [2, 2]) for f in ("set", "get", "unset", "setf")] + [("h_c03_inttree", [2, 2])],
  "C04": [("h_c04_roundtrip", [t, 1]) for t in range(7)] + [("h_c04_two", [t, t]) for t in range(7)],
  "C05": [("h_c05_str", [3, 1]), ("h_c05_int", [3, 0]), ("h_c05_list", [2, 1])],
  "C06": [("h_c06_round", [3, 2, 2, 1]), ("h_c06_fromref", [3])],
  "C07": [("h_c07_turns", [3]), ("h_c07_merge", [0, 0, 2, 2, 1]), ("h_c07_merge", [2, 2, 2, 2, 1]), ("h_c07_persist", [3, 2, 2])],
  "C13": [("h_c13_p2p", [2, 2, 2, 1]), ("h_c13_bcast", [3, 2, 2, 1]), ("h_c13_mixed", [3]), ("h_c13_pair", [2, 2, 0, 2, 2, 1])],
  "C14": [("h_c14_all", [2, 1, 0, 0, 0]), ("h_c14_merge", [2, 2, 1, 0, 2, 0]), ("h_c14_few", [4, 0, 0, 0, 0, 1]), ("h_c14_split", [3, 1])],
  "C15": [("h_c15_round", [3, 7, 2, 0]), ("h_c15_again", [2, 36, 37]), ("h_c15_split", [3, 6, 0, 0]), ("h_c15_round", [6, 33, 0, 0, 100])],
  "C16": [("h_c16_damage", [2, 34]), ("h_c16_read", [2, 4, SOFTR, 1])],
  "C17": [("h_c17_serial", [3, 1, 7, 0]), ("h_c17_serial", [3, 2, 7, 0])] + [("h_c17_again", a) for a in ([4, 1, 4, 2, 0], [3, 1, 3, 0, 2])] + [("h_c17_split", [3, 6, 0])],
  "C18": [("h_c18_map", [2, 1, op]) for op in range(18)] + [("h_c18_mpi", [3, 0, 1]), ("h_c18_util", [2])],
  "C19": [("h_c19_shape", [2, 2, 3])],
}
for _p, _l in REUSE.items():
    for _e, _a in _l:
        _n = [j for j in PROPS[_p]["jobs"] if j["entry"] == _e and (j["params"] == _a or _e == "h_c16_read" and j["params"][:2] == _a[:2])]
        if not _n: raise KeyError((_p, _e, _a))
        PROPS[_p]["jobs"].append(dict(_n[0], reuse=True, tiers=Q + TH, bound=_n[0]["bound"] + ", freed memory given out again"))
# the same jobs in a program that runs without standard input: the first file opened gets descriptor 0
FD0 = {
  "C07": [("h_c07_turns", [3])],
  "C10": [("h_c10_write", [w, ALLW, 1, 2, -1, 0]) for w in range(5)] + [("h_c10_read", [q, ALLR, 1, -1, 1, 0]) for q in range(5)],
  "C11": [("h_c11_fixed", [w, 2, 6, 0, 0]) for w in range(3)],
  "C12": [("h_c12_mix", [2, 1, 3, 0, 0])],
  "C15": [("h_c15_round", [3, 7, 2, 0])],
  "C16": [("h_c16_damage", [2, 34])],
  "C17": [("h_c17_serial", [3, 2, 7, 0])],
  "C18": [("h_c18_file", [o, ANY18, 1, 5]) for o in range(8)],
  "C20": [("h_c20_file", [o, 0]) for o in range(6)],
}
for _p, _l in FD0.items():
    for _e, _a in _l:
        for _n in [j for j in PROPS[_p]["jobs"] if j["entry"] == _e and j["params"] == _a and not j.get("reuse")]:
            PROPS[_p]["jobs"].append(dict(_n, fd0=True, bound=_n["bound"] + ", descriptor 0 free"))
