#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/specs.py: every property with jobs is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import specs
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    if i in specs.PROPS and i not in NA:
        p = specs.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
          "technique": "bounded symbolic execution of the LLVM IR of the real code; Z3 decides every branch and assertion; counterexamples replayed natively",
          "level": "model_checking",
          "level_note": "Exhaustive within the stated bounds (evidence: coverage.bounds): " + p.get("note", "every value of the symbolic inputs of each job") + ". Trusted: the clang front end (-O0 IR after mem2reg), the symbolic executor (validated per run by native replay of sample paths), Z3, and the libc/file system/MPI models in models/ (also run natively in the replays)."})
    else: na.append({"property": i, "reason": NA.get(i, "the check is not finished yet")})
m = {"version": 1, "setup_cmd": "make -s -C engine", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "KVTREE_VERIF_SEGSIZE", "enable": "check.py compiles /repo/src with -DKVTREE_VERIF_SEGSIZE set to a variable of the harness: the segment size of the collective writer, so that maps of several levels arise with a few ranks", "source_commits": ["7e5ec0a1d6f1459e7e8cd99d2eaf4104e2d99cec"]},
     "notes": "The only hook makes a constant settable; apart from it the checks compile /repo/src as it is. fix: commits are listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
