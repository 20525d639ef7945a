#!/usr/bin/env python3
"""Demonstration: runs a scenario on the code in the working directory and looks for what must not happen.
usage: demo.py ORACLE RUNS    (scn.json beside this file; exit 1 if the oracle finds something)"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import oracles
HERE = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
oracle = getattr(oracles, sys.argv[1])
runs = int(sys.argv[2])

def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=readonly", GOPROXY="off")
    for k in ("GODEBUG", "GOMAXPROCS"):
        e.pop(k, None)
    return e

def main():
    tmp = tempfile.mkdtemp(prefix="demo-")
    try:
        h = os.path.join(tmp, "h")
        shutil.copytree(os.path.join(HERE, "h"), h)
        m = open(os.path.join(h, "go.mod")).read().replace("=> /repo/", "=> %s/" % repo)
        open(os.path.join(h, "go.mod"), "w").write(m)
        # goroutines that wait for a mutex count as idle, so that virtual time can go on
        root = subprocess.run(["go", "env", "GOROOT"], env=env(), capture_output=True, text=True).stdout.strip()
        src = os.path.join(root, "src/runtime/runtime2.go")
        a = "\twaitReasonSynctestWaitGroupWait: true,\n"
        s = open(src).read()
        assert s.count(a) == 1
        s = s.replace(a, a + "\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n")
        open(os.path.join(tmp, "runtime2.go"), "w").write(s)
        json.dump({"Replace": {src: os.path.join(tmp, "runtime2.go")}}, open(os.path.join(tmp, "overlay.json"), "w"))
        b = os.path.join(tmp, "sim")
        subprocess.run(["go", "test", "-c", "-overlay", os.path.join(tmp, "overlay.json"), "-o", b, "./sim"], cwd=h, env=env(), check=True)
        scn = json.load(open(os.path.join(HERE, "scn.json")))
        scns = scn if isinstance(scn, list) else [scn]

        rec = {}

        def one(i):
            s = dict(scns[i % len(scns)])
            s["Seed"] = s.get("Seed", 1) + i // len(scns)
            sp, op = os.path.join(tmp, "%d.scn" % i), os.path.join(tmp, "%d.out" % i)
            json.dump(s, open(sp, "w"))
            verdict = "ok"
            with open(os.path.join(tmp, "%d.err" % i), "w") as ef:
                p = subprocess.Popen([b, "-test.run", "^TestScenario$"], env=dict(env(), VERIF_SCN=sp, VERIF_OUT=op), cwd=tmp, stdout=ef, stderr=ef)
                try:
                    p.wait(timeout=60)
                except subprocess.TimeoutExpired:
                    verdict = "hang"
                    p.kill()
                    p.wait()
            if p.returncode != 0 and verdict == "ok":
                verdict = "exit %d" % p.returncode
            ev = [json.loads(x) for x in open(op).read().split("\n") if x.endswith("}")] if os.path.exists(op) else []
            if os.environ.get("DEMO_RECORD"):
                rec[s["ID"]] = [{k: v for k, v in e.items() if k not in ("t", "l")} for e in ev]
            return oracle(ev, s, verdict)
        with ThreadPoolExecutor(8) as ex:
            bad = [x for x in ex.map(one, range(runs)) if x]
        if rec:
            json.dump(rec, open(os.path.join(HERE, "expect.json"), "w"))
        print("%d of %d runs are wrong" % (len(bad), runs))
        for x in bad[:3]:
            print("  " + x)
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

sys.exit(main())
