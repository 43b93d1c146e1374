#!/usr/bin/env python3
import json, glob, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "tools")]
sys.dont_write_bytecode = True
from specs import PROPS
from design_props import TXT
out = [open(os.path.join(V, "tools", "design_text.md")).read().rstrip() + "\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); p = d["id"]; jobs = PROPS[p]["jobs"]
    q = [j for j in jobs if "quick" in j.get("tiers", ("quick", "thorough"))]
    t = [j for j in jobs if "thorough" in j.get("tiers", ("quick", "thorough"))]
    out.append("### %s %s\n" % (p, d["title"]))
    out.append("%s\n\nBeyond tests: %s.\n" % TXT[p])
    seen, b = set(), []
    for j in jobs:
        s = j["bound"] + (" (thorough)" if "quick" not in j.get("tiers", ("quick",)) else "")
        if s not in seen: seen.add(s); b.append(s)
    if len(b) > 14: b = b[:12] + ["... %d more (harness/specs.py, evidence file)" % (len(b) - 12)]
    out.append("Jobs %d/%d. Bounds: %s.\n" % (len(q), len(t), "; ".join(b)))
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
out.append("\n## 6. Findings on the original tree (all repaired)\n")
for e in json.load(open(os.path.join(V, "known_findings.json"))):
    out.append("* %s (%s, %s)" % (e["what"].split(" ", 3)[3] if e["what"].startswith("fixed:") else e["what"], e["property"], e.get("commit", e["status"])))
out.append("\nNo open findings.\n\n## 7. Planted changes and the checks that catch them\n")
out.append("Each was confirmed in a scratch copy: it builds, passes the 21 stable tests, its demo exits 0 without and\nnonzero with it. All are caught by the check of their property (exit 1).\n")
out.append("| id | what it breaks | needs |\n|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "/").replace("\n", " "), str(d["needs"]).replace("|", "/").replace("\n", " ")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
