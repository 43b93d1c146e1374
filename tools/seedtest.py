#!/usr/bin/env python3
"""seedtest.py [-j N] [id-prefix ...]: for each planted bug: in a private mount
namespace over a scratch copy of /repo: build, 21 tests, demo on clean and patched
tree, quick check. The real /repo is not touched."""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
extra = []
nocheck = "--nocheck" in args
if nocheck: args.remove("--nocheck")
tier = "quick"
if "--thorough" in args: tier = "thorough"; args.remove("--thorough")
ids = sorted(i for i in os.listdir(S) if not args or any(i.startswith(a) for a in args))
SCRIPT = r'''
mount --bind "$1" /repo; cd /repo
D=/verif/seeded/$2
if [ "$5" = clean ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $D/demo.sh > $3/demo_clean.txt 2>&1; echo "clean=$?"
fi
git apply $D/patch.diff || { echo APPLYFAIL; exit; }
bash /opt/vp/build.sh > $3/build.txt 2>&1; echo "build=$?"
bash /opt/vp/test.sh $3/tests.json > $3/test.txt 2>&1; echo "test=$?"
bash $D/demo.sh > $3/demo.txt 2>&1; echo "demo=$?"
[ "$4" = none ] && exit
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 2000 python3 check.py ${2%%-*} $4 > $3/check.txt 2>&1; echo "check=$?"
grep -m3 VIOLATION $3/check.txt
'''
base = json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    if isinstance(x, dict):
        for k in ("stable", "pass", "passed", "tests"):
            if k in x: return x[k]
    return x
for i in ids:
    tmp = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(tmp, "repo"); o = os.path.join(tmp, "out"); os.mkdir(o)
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT, "x", r, i, o, "none" if nocheck else tier, "clean"],
                       capture_output=True, text=True)
    out = p.stdout.strip().replace("\n", " ")
    try:
        t = json.load(open(o + "/tests.json"))
        bad = None
        if isinstance(t, dict):
            bad = [k for k, v in t.items() if v in ("fail", "failed", False)] or t.get("failed")
        out += " testfail=%s" % bad
    except Exception as e:
        out += " tests:%s" % e
    print(i, out, flush=True)
    if "demo=0" in out or "clean=0" not in out or (not nocheck and "check=1" not in out):
        for f in ("demo_clean.txt", "demo.txt", "check.txt"):
            if os.path.exists(o + "/" + f):
                print("   ", f, "::", open(o + "/" + f).read()[-300:].replace("\n", " | "), flush=True)
    shutil.rmtree(tmp)
