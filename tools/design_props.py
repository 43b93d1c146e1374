TXT = {
"C01": ("Symbolic sequences of operations on one tree against the reference map: after each step lookups by every key used, size, iteration, and identity (addresses) of elements and subtrees are compared; leaks and use after free are engine checks.", "equality, prefix and emptiness relations of keys are decided by the solver, for all key bytes and all sequences"),
"C02": ("Two symbolic trees, `kvtree_merge`, recursive union in the reference; source compared before/after; then both trees are modified and freed in either order. `h_c02_algebra` adds idempotence and the neutral element.", "every overlap pattern of symbolic keys on several levels"),
"C03": ("`set_kv/get_kv/unset_kv[_int]`, `setf/getf` against nested reference operations, conversions against a decimal/hex printer of the harness; the limits (`KVTREE_MAX_LINE`) and unsupported tokens must end the program with an error status.", "all 2^64 values per conversion, all shapes of the prior tree, every token up to 4 characters"),
"C04": ("set then get for every value of each type, over every kind of earlier content, other keys compared; getters of missing fields must fail and leave the output.", "all values of each type"),
"C05": ("Result is checked to be a sorted permutation of the same elements (addresses), links in both directions, usable afterwards; listing equals the reference's sorted integers.", "whole int range incl. differences above INT_MAX; all key bytes; up to 150 keys with one arbitrary, 2500 in fixed orders"),
"C06": ("Packed bytes equal those of the harness's own packer, size equal, guard bytes around untouched; unpack consumes the same number; also images made by the harness's packer; encoders at all positions up to 2^63.", "all key bytes, all shapes in the bound, all integers and positions"),
"C07": ("Four writers times four readers over earlier contents; file bytes compared with the harness's own header/CRC; tree read = reference merge.", "arbitrary trees and targets"),
"C08": ("Symbolic file content; memory accesses checked by the engine; result compared with the harness's own parser (accept iff well formed), target tree unchanged on failure.", "every byte string up to the bound rather than a corpus"),
"C09": ("Every burst of up to four bytes with arbitrary masks at every position, every truncation: the solver shows that the CRC check fails.", "2^32 masks times positions, in files of up to 1.5 MB; no sampling can"),
"C10": ("Symbolic fault schedules over every system call; on success content/tree must be exact, on failure the tree unchanged; calls that can be completed must be.", "every schedule within the fault budget, every short count"),
"C11": ("Crash before any call and inside each write, then a fresh read: new tree, old tree, nothing or failure. On success all bytes must be durable (a successful fsync between last write and close).", "every crash point and contents symbolic"),
"C12": ("Processes interleaved at every system call with a preemption bound; results must equal those of some serial order (checked against reference executions); every touch of content requires the proper lock; locks counted after every call, faults included; flock and fcntl builds.", "every interleaving within the preemption bound, every file state"),
"C13": ("Ranks as processes over the MPI model with blocking sends; received tree equals the sender's reference, sender's unchanged.", "every partner pattern/root, arbitrary trees"),
"C14": ("For each pattern of destinations (symbolic) the receive trees must equal the reference exchange; deadlock detection; rounds repeated; split communicators.", "all 2^(n^2) patterns up to 3 (4) ranks, sparse and dense ones up to 17, single and neighbour messages over the distances next to powers of two up to 300 ranks, every division of up to 4 ranks into communicators"),
"C15": ("Collective write, file set inspected with the harness's own reader (LEVEL, RANKS), collective read compared per rank; other numbers of ranks must fail everywhere; hand-made sets of 1 to 3 map levels; every division of up to 5 ranks into communicators.", "all combinations of size classes around the 1 MB segment, all prefix lengths, up to 130 ranks with any one of them different"),
"C16": ("As C15 with symbolic faults at any call of any rank, damaged/missing/mismatching files: same result on all ranks, success only if complete.", "every placement of a fault"),
"C17": ("Serial writer / single reader / collective reader and writer cross-checked, every order of the input; stale files, other files, any prefix character and length, damage.", "all permutations, all settings in the bound, every character"),
"C18": ("After each call: descriptors, locks and live allocations counted; after the trees are deleted nothing may be left; all of C01, C10, C15, C13-style operations under faults.", "every failure path within the fault bound"),
"C19": ("Captured output compared byte for byte with a renderer of the harness; the printer's `main` with symbolic modes, argument lists and files.", "every shape/mode/indent in the bound, deep and long ones"),
"C20": ("umask symbolic (all 512), every file-creating call with faults; mode of each created file and final umask compared.", "all masks"),
"C21": ("All public functions with NULL combinations, other arguments symbolic; documented status and unchanged trees.", "all other arguments arbitrary"),
"C22": ("Set and get of a double with symbolic bits through soft-float, decimal conversion and back; error bound decided over the integers mantissa/exponent; text fields against exact rational rounding.", "all 2^64 bit patterns, split by exponent ranges"),
"C23": ("The n-th allocation (n symbolic), or all from the n-th on, fails; outcome compared with the run with enough memory; failing runs must leave sound trees and no resources; ends only with an error status.", "every allocation of every call"),
"C24": ("Snapshot of addresses, order and text of the whole tree before and after each reading operation, with faults, on any rank.", "every tree in the bound, every operation"),
}
