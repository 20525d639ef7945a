#!/usr/bin/env python3
"""mkseed.py ID PROPERTY ORACLE RUNS SCN.json COPY 'needs' 'what it breaks': stores the difference of COPY to /repo as seeded/ID.
ORACLE '-' RUNS '-' SCN '-' : the demonstration is written by hand."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, prop, oracle, runs, scn, copy, needs, breaks = sys.argv[1:9]
d = os.path.join(ROOT, "seeded", ID)
os.makedirs(d, exist_ok=True)
p = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
assert p.strip(), "no difference"
open(os.path.join(d, "patch.diff"), "w").write(p)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
if oracle != "-":
    for f in ("demo.py", "oracles.py"):
        shutil.copy(os.path.join(ROOT, "tools/demo", f), d)
    h = os.path.join(d, "h")
    shutil.rmtree(h, ignore_errors=True)
    os.makedirs(h + "/sim")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(ROOT, "harness", f), h)
    shutil.copytree(os.path.join(ROOT, "harness/broker"), h + "/broker")
    for f in os.listdir(os.path.join(ROOT, "harness/sim")):
        shutil.copy(os.path.join(ROOT, "harness/sim", f), h + "/sim")
    shutil.copy(scn, d + "/scn.json")
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# cwd: the repository\nd="$(cd "$(dirname "$0")" && pwd)"\nexec python3 "$d/demo.py" %s %s\n' % (oracle, runs))
    os.chmod(d + "/demo.sh", 0o755)
