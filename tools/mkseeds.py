#!/usr/bin/env python3
"""Writes seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} from the table in
seeds_table.py (planted bugs to test the checks; no check reads them)."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds_table import SEEDS
OUT = os.path.join(os.path.dirname(HERE), "seeded")

SH = {
'plain': '''gcc -g -O0 -w -I src -I _build -I _build/src "$D/demo.c" _build/src/libkvtree_base.a -lz -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo
''',
'asan': '''gcc -g -O0 -w -fsanitize=address,undefined -I src -I _build -I _build/src "$D/demo.c" src/kvtree.c src/kvtree_util.c src/kvtree_io.c src/kvtree_helpers.c src/kvtree_err.c -lz -o "$W/demo" || exit 3
cd "$W" && ASAN_OPTIONS=detect_leaks=%(leaks)d timeout 120 ./demo
''',
'mpi': '''export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
mpicc -g -O0 -w -I src -I _build -I _build/src "$D/demo.c" _build/src/libkvtree.a -lz -o "$W/demo" || exit 3
cd "$W" && timeout 100 mpirun -np %(np)d ./demo
''',
'print': '''gcc -g -O0 -w -I src -I _build -I _build/src "$D/demo.c" _build/src/libkvtree_base.a -lz -o "$W/demo" || exit 3
P=$(find "$PWD/_build" -type f -name kvtree_print -perm -u+x | head -1)
cd "$W" && timeout 120 ./demo "$P"
''',
}
HEAD = '''#include "kvtree.h"
#include "kvtree_util.h"
#include "kvtree_io.h"
#include "kvtree_helpers.h"
%s#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/wait.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED line %%d: %%s\\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
'''

def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if s.get("skip"): continue
        if only and not any(s['id'].startswith(o) for o in only): continue
        d = os.path.join(OUT, s['id'])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="mkseed_")
        subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
        for f, old, new in s['edits']:
            p = os.path.join(tmp, "src", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], "edit matches", t.count(old), "times:", repr(old)[:80]); break
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True).stdout
        shutil.rmtree(tmp)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        kind = s.get('kind', 'plain')
        mpi = '#include <mpi.h>\n#include "kvtree_mpi.h"\n' if kind == 'mpi' else ''
        open(os.path.join(d, "demo.c"), "w").write(HEAD % mpi + s['demo'].lstrip("\n"))
        sh = '#!/bin/bash\n# run with cwd = /repo after the build\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\n'
        sh += SH[kind] % dict(np=s.get('np', 2), leaks=s.get('leaks', 0)) if kind in ('mpi', 'asan') else SH[kind]
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s['id'].split('-')[0], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
main()
