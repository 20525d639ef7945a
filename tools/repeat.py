#!/usr/bin/env python3
"""Runs one scenario many times: repeat.py REPLAY|SCENARIO [n] [module]. Prints the whole of the first bad history to /tmp/bad.ndjson."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
d = json.load(open(sys.argv[1])); s = d.get("scenario", d)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 50
ctx = core.Ctx(os.environ.get("PROP", "ALL"), "quick", 1)
try:
    tr, v = core.conformance(ctx, sys.argv[3] if len(sys.argv) > 3 else "EosTrace", ctx.build(), [s] * n, par=int(os.environ.get("PAR","8")))
    print(len(v), "of", n)
    import collections
    for w, k in collections.Counter(x[0] for x in ctx.viol).most_common(): print(k, w)
    if v:
        open("/tmp/bad.ndjson", "w").write("\n".join(tr[v[0][0]][1]) + "\n")
        open("/tmp/bad.err", "w").write(tr[v[0][0]][2])
finally:
    ctx.close()
