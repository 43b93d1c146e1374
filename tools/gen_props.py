#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

K="src/kvtree.c"; U="src/kvtree_util.c"; IO="src/kvtree_io.c"; H="src/kvtree_helpers.c"; M="src/kvtree_mpi.c"; G="src/kvtree_mpi_io.c"; PR="src/kvtree_print.c"

prop("C01","A kvtree is a map from unique string keys to subtrees",
 "After any sequence of insert/overwrite, lookup, unset, unset-all, extract and element-extract operations, a kvtree holds exactly the key->subtree bindings that an ordinary map would hold: one element per key, lookups return the value most recently bound to exactly that key or NULL, size counts the keys, and iteration visits each element exactly once. Overwriting or unsetting a key frees the old subtree and nothing else; extract detaches the subtree intact and hands it to the caller.",
 ["inputs","histories"],
 "every history of the mutating and reading operations, over every assignment of keys (equal, different, prefix of one another, empty)",
 "Unit tests do a handful of set/get/unset calls with fixed distinct keys; they never cover colliding/prefix keys mixed with removal from head, middle and tail.",
 [K,"src/queue.h","src/kvtree.h"],
 [("kvtree_elem_get linear search by strcmp",K),("LIST_REMOVE / LIST_INSERT_HEAD relinking","src/queue.h"),("kvtree_set extract-then-reinsert",K)],
 [("lh_first/le_next/le_prev","intrusive list of elements","src/kvtree.h")],["kvtree_get","kvtree_size","kvtree_elem_first/next"])

prop("C02","Merge is a deep recursive union",
 "Merging tree B into tree A leaves A containing exactly the recursive union of both trees (a key path exists in the result iff it exists in A or in B) and returns success. B is unchanged, A shares no memory with B, and later changes to or deletion of either tree never affect the other.",
 ["inputs"],"every pair of trees, including overlapping keys at several levels, empty trees and keys with a NULL subtree",
 "No test compares a merged tree with the union; merge is only run indirectly on trees with one or two keys.",
 [K],[("kvtree_merge recursion",K),("kvtree_elem_init strdup of keys",K)],None,["tree contents after kvtree_merge"])

prop("C03","Key/value and format accessors equal nested map operations",
 "The key/value accessors (set, get and unset of a key plus sub-key, with string or integer sub-key) and the printf-style accessors behave exactly as the corresponding nested single-key operations on the decimal (or requested) rendering of each argument. Setting creates missing levels and preserves existing siblings and existing subtrees, getting never modifies the tree, and unsetting removes the sub-key and then the key only if it became empty. A printf-style access with a key that does not fit the library's limit, or with a token it does not support, ends the program with an error status; it never truncates the key and never touches another one.",
 ["inputs","histories"],"every tree, every key/sub-key string, every integer value and every supported format token",
 "Tests set and get one fixed pair per function; they do not try siblings, existing subtrees or the whole integer range.",
 [K],[("kvtree_set_kv / kvtree_get_kv / kvtree_unset_kv",K),("kvtree_setf / kvtree_getf token loop",K)],None,["kvtree_get_kv*","kvtree_getf"])

prop("C04","Typed scalar fields read back the value that was last set",
 "For the int, int64, unsigned long, byte-count, crc32, string and pointer fields, getting a key returns success and exactly the last value set for it, for every value of the type, and the key then holds that single value only. Setting one key leaves all other keys untouched. If the tree or key is NULL, or the key is absent or has no value, the getter returns failure and does not modify the output.",
 ["inputs","histories"],"every value of each field type, every prior content of the tree",
 "Each type is tested with one or two constants; extreme values and the replaced/absent/valueless cases are not.",
 [U,K],[("kvtree_util_set_* unset-then-set",U),("kvtree_util_get_* conversion",U),("kvtree_get_val exactly-one check",K)],None,["kvtree_util_get_*"])

prop("C05","Sorting permutes into order; integer listing is the sorted key list",
 "String sort and integer sort reorder the elements so that iteration sees keys in ascending or descending order (byte-wise string order, respectively numeric order over the whole int range) while keeping exactly the same elements with the same subtrees, and the tree remains fully usable afterwards. The integer listing returns exactly the keys' integer values in ascending order and their number, or zero and a NULL list for an empty or NULL tree.",
 ["inputs"],"every tree and every set of keys, including keys at the extremes of the int range",
 "No test sorts anything except through the gather writer; ordering near INT_MIN/INT_MAX is never exercised.",
 [K],[("kvtree_sort / kvtree_sort_int with qsort comparators",K),("kvtree_list_int",K)],None,["kvtree_elem_first/next after sort","kvtree_list_int outputs"])

prop("C06","Pack/unpack is an exact, size-exact round trip in the documented format",
 "Packing a tree writes exactly the number of bytes announced by the size computation, never outside that range, in the documented format (big-endian 32-bit element count, then NUL-terminated key and packed subtree per element). Unpacking those bytes into an empty tree consumes exactly the same number of bytes and reproduces an equal tree, and the fixed-width integer encoders and decoders round-trip every value big-endian, refuse to cross the buffer end, and advance the position only on success.",
 ["inputs"],"every tree (any shape, any key bytes, NULL and empty subtrees) and every integer value/buffer position",
 "Packing is only exercised indirectly with a few ASCII keys; buffer exactness and format are never compared.",
 [K,H,"src/kvtree_io.h"],[("kvtree_pack_size/kvtree_pack/kvtree_unpack",K),("kvtree_pack_uintNN_t/kvtree_unpack_uintNN_t",H),("byte swapping macros","src/kvtree_io.h")],None,["packed bytes","return values"])

prop("C07","Writing a tree to a file and reading it back yields an equal tree",
 "A tree written with any of the file writers (plain, locked, or read-modify-write close) and read with any of the readers yields an equal tree, merged into whatever the target already held, also when the file previously held other content of any length (a tree, for the read-modify-write pair). The file written by the plain writer is exactly the documented header, packed data and CRC32 with all integers big-endian and the size field equal to the file length.",
 ["inputs","histories"],"every tree, every writer/reader pair, every previous file content written by this library",
 "One fixed file is printed and a few scalars round-trip; shrinking rewrites and merging into existing targets are not tested.",
 [K,IO],[("kvtree_write_persist header and crc",K),("kvtree_read_fd",K),("O_TRUNC / lseek+ftruncate",K)],None,["bytes on disk","tree read back"])

prop("C08","Reading any byte sequence is memory safe and all-or-nothing",
 "Reading a file with arbitrary content never reads or writes outside the buffers, never terminates the calling process and never hangs: it returns either success or failure. On failure the caller's tree is exactly what it was before; a wrong magic number, type, version, impossible size field, or data that is cut short is always a failure, and an empty file adds nothing.",
 ["inputs"],"every file content (valid header or not, CRC flag set or not, any counts and sizes)",
 "Tests read only well-formed files written by the library itself.",
 [K,H,IO],[("kvtree_read_fd header validation",K),("kvtree_unpack",K)],None,["return value of kvtree_read_file","target tree"])

prop("C09","Damaged files are detected by the CRC",
 "If bytes of a file written by the library are altered (any burst of up to four consecutive bytes) or the file is cut to a shorter non-zero length, reading it returns failure and adds nothing to the caller's tree, no matter which bytes are hit.",
 ["inputs","fault_sequences"],"every altered position, every replacement value, every truncation length",
 "No test damages a file deliberately.",
 [K],[("crc32 over header and data, compare on read",K),("short-read check",K)],None,["return value of the readers","target tree"])

prop("C10","A file operation reports success only if all bytes were transferred",
 "Under any sequence of short reads, short writes, interrupted (EINTR/EAGAIN) calls and transient open failures, the file writers and readers still transfer exactly the right bytes and report success; if a transfer ultimately cannot be completed (persistent error, no space, premature end of file, failed open or failed lock) the operation returns failure rather than success. No error path loses, duplicates or reorders bytes of the file or corrupts the caller's tree.",
 ["fault_sequences","inputs"],"every sequence of results of open, lock, read, write, truncate and close allowed by POSIX",
 "Tests run on a healthy file system where every call completes in full the first time.",
 [IO,K],[("kvtree_read_attempt / kvtree_write_attempt retry loops",IO),("kvtree_open retries",IO),("kvtree_open_with_lock",IO),("return code propagation in kvtree_write_file, kvtree_write_with_lock, kvtree_write_close_unlock",K)],None,["return codes","bytes on disk"])

prop("C11","A crash during a write never yields a partial or mixed tree",
 "If the process dies at any point while writing a tree to a file, a later read of that file either returns the complete new tree, the complete previous tree, no entries at all (empty file), or fails; it never returns a partial or mixed tree. Once a write has returned success its bytes have been flushed to stable storage (synced after the last write and before close), so a later system crash does not lose them. If the flush fails, so does the write.",
 ["crash_points","inputs"],"every crash point between and inside the writes, every pair of old and new trees",
 "No test interrupts a write.",
 [K,IO],[("size field and crc in header",K),("kvtree_close fsync",IO),("write then ftruncate order",K)],None,["tree read after crash"])

prop("C12","File locks make reads atomic and read-modify-write updates exclusive",
 "When several processes use the locking readers, writers and read-modify-write pair on one file, every interleaving is equivalent to running the operations one after another: a reader sees only a complete tree, no update is lost, and two readers may proceed together. Every locking call that returns (on success or failure) leaves no lock held, except the read-modify-write open, which keeps an exclusive lock until the matching close; no file content is touched without holding the proper lock.",
 ["schedules","histories","fault_sequences"],"every interleaving of the system calls of concurrent processes, and lock failures",
 "The locking test runs one timing-dependent stress loop with identical data; it samples a few schedules and never checks lost updates.",
 [K,IO],[("kvtree_open_with_lock / kvtree_close_with_unlock",IO),("kvtree_file_lock_read_write",IO),("kvtree_lock_open_read / kvtree_write_close_unlock",K)],None,["trees read","lock table at return"])

prop("C13","Point-to-point and broadcast transfers deliver an exact copy",
 "A tree sent, exchanged pairwise or broadcast to another process arrives as an equal tree that replaces whatever the receiving tree held, for every tree including empty and NULL ones, for every root and partner choice including no partner on either side, and the sender's tree is unchanged. Sizes announced and messages exchanged always match, so matched calls complete without deadlock even if sends block until received. A tree too large for one message ends the job with an error status instead of being sent in part.",
 ["inputs","schedules"],"every tree, every pair of ranks / root, every send buffering behaviour",
 "Tests send two integers among exactly three ranks.",
 [M],[("kvtree_send/kvtree_recv size-then-data protocol",M),("kvtree_sendrecv Irecv/Isend/Waitall",M),("kvtree_bcast",M)],None,["received tree"])

prop("C14","Global exchange delivers every message once, to the right rank",
 "After a global exchange (automatic or with a fixed direction), each rank's receive tree has, for every rank that addressed data to it (itself included), one entry keyed by the source rank holding exactly the tree that source sent, and nothing else. This holds for every communicator size, every sparse or dense pattern of destinations, and completes without deadlock; messages queued for one destination are merged and the send tree is not modified.",
 ["inputs","schedules"],"every communicator size and every assignment of destinations to ranks",
 "The test uses three ranks in a single ring pattern.",
 [M],[("Bruck hop algorithm in kvtree_exchange_direction",M),("hop counting and early cut-off in kvtree_exchange",M),("kvtree_exchange_sendq",M)],None,["receive trees on all ranks"])

prop("C15","Collective gather-write then scatter-read returns each rank its own tree",
 "After all ranks collectively write their trees under a prefix, a collective read by the same number of ranks returns to every rank exactly its own tree, whatever the sizes of the individual trees and however many files the data is spread over. Every written file carries the documented LEVEL and RANKS fields, and a read with a different number of ranks fails on every rank.",
 ["inputs","histories"],"every number of ranks, every combination of per-rank tree contents and sizes (below, at and above the 1 MB segment)",
 "The test writes a few integers from three ranks, always into a single part file.",
 [G,M],[("pick_writer segmented scan",G),("kvtree_write_gather / kvtree_write_gather_map",G),("kvtree_read_scatter / kvtree_read_scatter_map",G)],None,["tree returned on each rank","files written"])

prop("C16","Collective file operations agree on the outcome when I/O fails",
 "If opening, reading or writing a file fails on any rank during a collective gather-write or scatter-read, the call still returns on every rank (no deadlock, no abort), and all ranks return the same result; success is returned only if every rank's files were completely written, respectively read. A missing, damaged or mismatching file makes the collective read fail on all ranks.",
 ["fault_sequences","inputs"],"every placement of an I/O fault on any rank and any call",
 "Tests run without any I/O failure except reading one missing file.",
 [G],[("kvtree_alltrue agreement",G),("rc propagation through kvtree_write_gather_map / kvtree_read_scatter_map",G)],None,["return codes on all ranks"])

prop("C17","Serial gather writer and single-process scatter reader round-trip",
 "A tree with one subtree per rank 0..n-1, written in gather format by one process, is read back equal by the single-process reader and, rank by rank, by the collective reader; files produced by the collective writer are likewise read completely by the single-process reader. This holds for every number of ranks, entries per file, order of the input entries and prefix name; if any part file is missing or unreadable the single-process reader fails.",
 ["inputs","configurations"],"every rank count, entries-per-file setting, input order and prefix path",
 "The test uses one fixed prefix and one setting.",
 [K,G],[("kvtree_write_to_gather file splitting",K),("kvtree_read_scatter_single directory scan and rank count check",K)],None,["tree read back","return code"])

prop("C18","Every memory block and file descriptor is released exactly once",
 "Whenever a public call returns, successfully or not, it has released every temporary allocation and closed every descriptor it opened (except the descriptor handed to the caller of the read-modify-write open), and deleting the caller's trees releases everything that remains. No call ever uses memory after freeing it or frees it twice.",
 ["inputs","fault_sequences"],"every public operation, every success and failure path under I/O faults",
 "Tests never count allocations or descriptors and never take the failure paths.",
 [K,IO,H,M,G],[("kvtree_delete / kvtree_elem_delete",K),("cleanup on error paths of kvtree_read_fd, kvtree_read_scatter_map",K+", "+G)],None,["live allocations and open descriptors at return"])

prop("C19","Printing renders exactly the documented tree and key=value forms",
 "Printing a tree in tree mode emits one line per element in iteration order, indented two spaces per level beyond the requested indent, and in key/value mode condenses an element whose only sub-element is a leaf to 'key = value'; an element bound to no tree (NULL) is followed by the line 'NULL LIST' at the indent of the element; nothing else is printed, whatever the depth of the tree and the length of the keys. Logging emits the lines of tree mode. The command line printer prints the file's tree in the chosen mode and exits zero, or exits non-zero if the arguments are invalid or the file cannot be read.",
 ["inputs"],"every tree shape, depth, key and indent",
 "One fixed file is printed in tree mode and compared with a stored text.",
 [K,PR],[("kvtree_print_mode / kvtree_elem_print",K),("main of kvtree_print",PR)],None,["bytes written to stdout","exit status"])

prop("C20","Created files get the permissions allowed by the umask, which is preserved",
 "Every file created by the library is created readable and writable for exactly the users that the process umask allows (0666 without the masked bits), and computing the mode leaves the process umask as it was.",
 ["inputs","configurations"],"every umask value, every file-creating call",
 "No test looks at modes or the umask.",
 [IO,K,G],[("kvtree_getmode",IO)],None,["mode argument of open","umask after the call"])

prop("C21","NULL trees and keys are accepted as empty",
 "Every map, element, iteration, size, merge-source, sort, listing, packing and accessor function accepts a NULL tree as an empty one and a NULL key or element as absent: it returns NULL, zero, or the documented status and neither crashes nor modifies anything (the value passed to a set without effect stays with the caller). NULL trees are sent as empty ones. File functions called with a NULL tree, NULL name or invalid descriptor, and gather and scatter functions called with a NULL prefix, return failure without touching any file.",
 ["inputs"],"every public function and every combination of NULL arguments the documentation allows",
 "Only one collective read with NULL arguments is tested.",
 [K,U,H],[("NULL checks at function entry",K)],None,["return values"])

prop("C22","Double fields round-trip to six decimal places",
 "Setting a double field and reading it back yields the double nearest to the original rounded to six decimal places: at most half a unit of the sixth decimal is lost, and where doubles are spaced wider than that, the very value comes back; infinities and NaN come back as they are. This holds whatever the key held before, whatever errno an earlier call left, and after the tree was merged, packed and unpacked; and a field holding a decimal number as text reads as the double nearest to it. A failing get leaves the output as it was.",
 ["inputs"],"every double",
 "The test uses one constant.",
 [U,H],[("%f formatting in kvtree_setf, strtod in kvtree_atod",U)],None,["kvtree_util_get_double"])

prop("C23","Running out of memory fails the call or ends the program, never corrupts",
 "When an allocation fails, at any point of any call and on any rank, the call still does exactly what it does with enough memory, or it reports failure and leaves sound trees (no element without a key, no leaked descriptor, lock or memory), or the program ends through the library's abort with a message and an error status. It never crashes, never returns success with something missing, and never ends the program with a success status.",
 ["inputs","fault_sequences"],"every call of the library and every one of its allocations, one failing or all from some point on",
 "Tests never run out of memory.",
 [K,H,M,G],[("kvtree_malloc aborts",H),("checks after strdup and malloc",K),("kvtree_abort","src/kvtree_err.c")],None,["return values","exit status"])

prop("C24","Operations that only read a tree leave it and pointers into it unchanged",
 "Looking up, iterating, listing, sizing, reading fields, packing, printing, logging, writing to a file, sending, broadcasting, exchanging or gathering a tree, and merging it into another, leaves that tree as it was: the same elements in the same order, the same keys and subtrees at the same addresses (so pointers returned earlier stay valid), whether the operation succeeds or fails. Only kvtree_write_to_gather may sort the ranks of its tree.",
 ["inputs","fault_sequences"],"every tree and every operation that takes a tree to read",
 "Tests do not look at a tree again after reading it.",
 [K,U,M,G],[("const kvtree* parameters",K),("send side of exchange and broadcast",M)],None,["tree contents, iteration order, addresses"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
