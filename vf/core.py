"""Common machinery: builds the drivers from /repo's working tree, runs scenarios, runs TLC, reports."""
import glob, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # another tree only while developing the checks
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class Machinery(Exception):
    """The check itself failed: says nothing about the property."""

def log(*a):
    print(*a, flush=True)

def goenv():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME") or "/root"
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=readonly", GOPROXY="off")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("GODEBUG", "GOMAXPROCS", "GOMEMLIMIT", "GOGC"):
        env.pop(k, None)
    return env

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.viol = []      # (what, replay path)
        self.known_seen = []
        self.known = load_known(prop)
        for f in glob.glob(os.path.join(ROOT, "evidence", "replay", prop + "-*.json")):
            os.unlink(f)
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- building
    def overlay(self):
        """The Go runtime with one change: a goroutine waiting for a mutex counts as blocked, so that virtual time
        advances when the holder of the mutex waits for time to pass (testing/synctest alone would freeze)."""
        path = os.path.join(self.tmp, "overlay.json")
        if not os.path.exists(path):
            root = subprocess.run(["go", "env", "GOROOT"], env=goenv(), capture_output=True, text=True).stdout.strip()
            src = os.path.join(root, "src/runtime/runtime2.go")
            s = open(src).read()
            a = "\twaitReasonSyncCondWait:          true,\n\twaitReasonSynctestWaitGroupWait: true,\n"
            if s.count(a) != 1:
                raise Machinery("unexpected Go runtime source")
            s = s.replace(a, a + "\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n")
            with open(os.path.join(self.tmp, "runtime2.go"), "w") as f:
                f.write(s)
            with open(path, "w") as f:
                json.dump({"Replace": {src: os.path.join(self.tmp, "runtime2.go")}}, f)
        return path

    def build(self, name="sim", pkg="./sim", mod="harness", race=False):
        out = os.path.join(self.tmp, name)
        if os.path.exists(out):
            return out
        d = os.path.join(ROOT, mod)
        extra = []
        if REPO != "/repo":
            with open(os.path.join(self.tmp, mod + ".mod"), "w") as f:
                f.write(open(os.path.join(d, "go.mod")).read().replace("=> /repo/", "=> %s/" % REPO))
            shutil.copy(os.path.join(d, "go.sum"), os.path.join(self.tmp, mod + ".sum"))
            extra = ["-modfile", os.path.join(self.tmp, mod + ".mod")]
        cmd = ["go", "test", "-c", "-overlay", self.overlay(), "-o", out] + extra + (["-race"] if race else []) + [pkg]
        r = subprocess.run(cmd, cwd=d, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise Machinery("build failed:\n" + r.stderr[-4000:])
        return out

    # -- violations
    def violation(self, what, payload):
        sig = what
        for k in self.known:
            if all(s in what + json.dumps(payload) for s in k["match"]):
                if k["text"] not in self.known_seen:
                    self.known_seen.append(k["text"])
                    log("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
                return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        if len(self.viol) < 40:
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, what=what, **payload), f, indent=1)
        self.viol.append((what, path))

def load_known(prop):
    r = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop:
                r.append(k)
    return r

# ---------------------------------------------------------------- scenarios
CPU_LIMIT = 60
HZ = os.sysconf("SC_CLK_TCK")

def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (200, 210))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def _cpu(pid):
    """CPU ticks of the process and whether any of its threads is running."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return int(s[11]) + int(s[12])
    except OSError:
        return None

def head(err):
    """The part of a long output that tells what happened."""
    m = re.search(r"^(panic|fatal error|DRIVER|SIG)", err, re.M)
    at = m.start() if m else 0
    return err[max(0, at - 500):at + 2500] + "\n...\n" + err[-500:]

def crashed(err):
    """Whether a crash is the code's own: the goroutine that failed was in the library or in the client it drives."""
    m = re.search(r"^(panic|fatal error)", err, re.M)
    if not m:
        return False
    g = re.search(r"^goroutine \d+[^\n]*\[running[^\n]*\n(.*?)(\n\n|\Z)", err[m.start():], re.M | re.S)
    frames = g.group(1) if g else err
    return "aws/go-kafka-event-source" in frames or "twmb/franz-go" in frames

def run_one(binary, scn, d, idx, idle=20, wall=400, env=None, test="TestScenario"):
    """Runs one scenario in its own process. Returns (trace lines, verdict): ok, panic, hang, overflow."""
    sp, op, ep = (os.path.join(d, "%d.%s" % (idx, x)) for x in ("scn", "out", "err"))
    with open(sp, "w") as f:
        json.dump(scn, f)
    e = goenv()
    e.update(VERIF_SCN=sp, VERIF_OUT=op, GOTRACEBACK="all")
    e.update(env or {})
    with open(ep, "wb") as ef:
        p = subprocess.Popen([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], stdout=ef, stderr=subprocess.STDOUT, env=e,
                             cwd=d, preexec_fn=_limits)
        t0, last, lastchange, verdict = time.time(), None, time.time(), None
        step = 0.005
        while True:
            try:
                rc = p.wait(timeout=step)
                break
            except subprocess.TimeoutExpired:
                pass
            step = min(step * 2, 0.5)
            now, c = time.time(), _cpu(p.pid)
            if c != last:
                last, lastchange = c, now
            if now - lastchange > idle:
                verdict = "hang"
            elif now - t0 > wall:
                verdict = "wall"
            elif c is not None and c > CPU_LIMIT * HZ:
                verdict = "hang"
            if verdict:
                p.send_signal(signal.SIGQUIT)
                time.sleep(0.5)
                p.kill()
                rc = p.wait()
                break
    err = open(ep, "rb").read().decode("utf-8", "replace")
    lines = []
    if os.path.exists(op):
        with open(op) as f:
            lines = [x for x in f.read().split("\n") if x.endswith("}")]
    for x in (sp, op, ep):
        if os.path.exists(x):
            os.unlink(x)
    if verdict == "wall":
        raise Machinery("scenario %s exceeded %d s of wall time\n%s" % (scn.get("ID"), wall, head(err)))
    if verdict is None:
        if rc == 0:
            verdict = "ok"
        elif rc == 3 and "DRIVER: trace exceeds" in err:
            verdict = "overflow"
        elif rc == 3 or "DRIVER:" in err or "stand-in broker:" in err:
            raise Machinery("driver failed in scenario %s (rc %s):\n%s" % (scn.get("ID"), rc, head(err)))
        elif rc == 2 and (crashed(err) or "panic: malformed request" in err):
            verdict = "panic"
        else:
            raise Machinery("scenario %s ended with rc %s:\n%s" % (scn.get("ID"), rc, head(err)))
    return lines, verdict, err

def run_scenarios(ctx, binary, scns, par=None, **kw):
    d = os.path.join(ctx.tmp, "scn")
    os.makedirs(d, exist_ok=True)
    with ThreadPoolExecutor(par or NCPU) as ex:
        res = list(ex.map(lambda a: run_one(binary, a[1], d, a[0], **kw), enumerate(scns)))
    if len(ctx.cov["samples"]) < 6 and scns:
        ctx.cov["samples"].append(dict(scenario=scns[0], history=[json.loads(x) for x in res[0][0][:25]]))
    return res

# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg=None, env=None, workers=1, mem="3g", timeout=800, args=(), spec_dir=None):
    spec_dir = spec_dir or os.path.join(ROOT, "spec")
    md = tempfile.mkdtemp(prefix="tlc", dir=ctx.tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)), "-Xmx" + mem, "-Xss16m", "-cp", TLA, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", (cfg if cfg and os.path.isabs(cfg) else os.path.join(spec_dir, cfg or module)) + ".cfg"] + list(args) + [os.path.join(spec_dir, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=md, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC exceeded %d s on %s" % (timeout, module))
    out = r.stdout + r.stderr
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, out

def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def model_check(ctx, module, consts, inv=("NoGuardBroken",), props=(), deadlock=True, workers=None, mem="6g", timeout=800, broken=False):
    """An exhaustive run of a design model. A failure of the model is a failure of the machinery: the model does not
    depend on /repo (what binds it to the code are the recorded histories). broken: a defect is built into the model,
    which has to be found."""
    q = lambda v: {True: "TRUE", False: "FALSE"}[v] if isinstance(v, bool) else '"%s"' % v if isinstance(v, str) else str(v)
    path = os.path.join(ctx.tmp, "model%d" % len(os.listdir(ctx.tmp)))
    with open(path + ".cfg", "w") as f:
        f.write("SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in inv) + "".join("PROPERTY %s\n" % i for i in props) +
                "CHECK_DEADLOCK %s\nCONSTANTS\n" % q(deadlock) + "".join(" %s = %s\n" % (k, q(v)) for k, v in consts.items()))
    t = time.time()
    try:
        rc, out = tlc(ctx, module, path, workers=workers or NCPU, mem=mem, timeout=timeout)
    except Machinery:     # a busy machine: what was explored without an error is not nothing, but not counted
        log("model %s %s: not finished in %d s" % (module, consts, timeout))
        ctx.extra.setdefault("models", []).append(dict(module=module, constants=consts, unfinished_after=timeout))
        return None
    gen, dist = tlc_counts(out)
    name = "%s(%s)" % (module, ", ".join("%s=%s" % x for x in consts.items()))
    if broken:
        if "is violated" not in out and "Deadlock reached" not in out and "were violated" not in out:
            raise Machinery("the defect in the model %s is not found: rc %d\n%s" % (name, rc, out[-2000:]))
    elif rc != 0 or "No error has been found" not in out:
        raise Machinery("model %s fails: rc %d\n%s" % (name, rc, out[-3000:]))
    if not broken:
        ctx.cov["states"] += dist
        ctx.cov["transitions"] += gen
    ctx.extra.setdefault("models", []).append(dict(module=module, constants=consts, distinct=dist, generated=gen, seconds=round(time.time() - t, 1),
                                                   **(dict(defect_found=True) if broken else {})))
    return out

def prints(out, tag):
    """JSON payloads printed as "TAG {...}" by the specification."""
    r = []
    for line in out.split("\n"):
        line = line.strip()
        if line.startswith('"%s ' % tag):
            r.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return r

def check_traces(ctx, module, traces, chunk=None, mem="3g", env=None, timeout=800):
    """traces: list of (scenario, lines). Runs the trace specification over all of them.
    Returns the list of (index, line, names) of violations."""
    n = len(traces)
    k = min(NCPU, max(1, n))
    total = sum(len(t[1]) for t in traces)
    if total < 3000:
        k = min(k, 2)
    order = sorted(range(n), key=lambda i: -len(traces[i][1]))
    bins = [[] for _ in range(k)]
    load = [0] * k
    for i in order:
        j = load.index(min(load))
        bins[j].append(i)
        load[j] += len(traces[i][1]) + 1
    bins = [b for b in bins if b]

    def go(b):
        path = tempfile.mktemp(prefix="tr", suffix=".ndjson", dir=ctx.tmp)
        lines = 0
        start = {}
        with open(path, "w") as f:
            for i in sorted(b):
                f.write(json.dumps({"ev": "trace", "id": i}) + "\n")
                lines += 1
                start[i] = lines
                for x in traces[i][1]:
                    f.write(x + "\n")
                    lines += 1
        e = dict(VERIF_TRACE=path, VERIF_PROP=ctx.prop)
        e.update(env or {})
        rc, out = tlc(ctx, module, env=e, mem=mem, timeout=timeout)
        os.unlink(path)
        done = prints(out, "DONE")
        gen, dist = tlc_counts(out)
        v = [(x["id"], x["l"] - start[x["id"]], x["what"]) for x in prints(out, "VIOL")]
        if rc != 0 or not done or done[-1] != lines:
            if len(b) == 1:
                if "OutOfMemory" in out or "StackOverflow" in out:
                    raise Machinery("TLC: " + out[-2000:])
                m = re.findall(r"^/?\\?\s*l = (\d+)", out, re.M)
                at = int(m[-1]) - 1 if m else 1
                log(out[-3000:])
                return [(b[0], at, ["the history has no meaning in the specification"])], 0, 0
            r, d1, g1 = [], 0, 0
            for i in b:   # find the history that cannot be evaluated
                rr, dd, gg = go([i])
                r, d1, g1 = r + rr, d1 + dd, g1 + gg
            return r, d1, g1
        return v, dist, gen

    res = []
    with ThreadPoolExecutor(len(bins)) as ex:
        for v, d, g in ex.map(go, bins):
            res += v
            ctx.cov["states"] += d
            ctx.cov["transitions"] += g
    ctx.cov["traces_validated_against_impl"] += n
    return sorted(res)

OVERFLOW = 6000

def conformance(ctx, module, binary, scns, env=None, runenv=None, par=None, keep=None, confirm=False):
    """Runs scenarios on the real code and checks the recorded histories against a trace specification."""
    res = run_scenarios(ctx, binary, scns, par=par, env=runenv)
    traces, over = [], []
    for scn, (lines, verdict, err) in zip(scns, res):
        if not lines:
            raise Machinery("scenario %s left no trace:\n%s" % (scn.get("ID"), err[-2000:]))
        if verdict == "overflow":     # it goes on and on: the beginning has to tell why
            lines = lines[:OVERFLOW]
            over.append(scn.get("ID"))
        elif verdict != "ok":
            lines = lines + [json.dumps({"ev": verdict, "t": 0})]
        traces.append((scn, lines, err if verdict != "ok" or os.environ.get("VERIF_DUMP") else ""))
    if keep:
        keep(traces)
    v = check_traces(ctx, module, [(a, b) for a, b, _ in traces], env=env)
    ctx.extra["events"] = ctx.extra.get("events", 0) + sum(len(t[1]) for t in traces)
    bad = sorted({i for i, _, _ in v})
    if confirm and 0 < len(bad) <= 3:
        # Schedules differ from run to run. A history which cannot be had again in many runs of the same scenario is not
        # reported as a violation but recorded.
        for i in bad:
            scn = traces[i][0]
            again = []
            for m in (16, 48):
                if not again:
                    rs = run_scenarios(ctx, binary, [scn] * m, par=par, env=runenv)
                    again = check_traces(ctx, module, [(scn, ls[:OVERFLOW] + ([json.dumps({"ev": vd, "t": 0})] if vd in ("panic", "hang") else [])) for ls, vd, _ in rs], env=env)
            if not again:
                w = [(at, names) for j, at, names in v if j == i][0]
                log("not reproducible in 64 runs: %s [%s]" % ("; ".join(sorted(w[1])), scn.get("ID")))
                ctx.extra.setdefault("not_reproducible", []).append(dict(what=sorted(w[1]), scenario=scn.get("ID")))
                d = os.path.join(ROOT, "evidence", "unconfirmed")
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "%s-%d-%d.json" % (ctx.prop, ctx.seed, i)), "w") as f:
                    json.dump(dict(what="; ".join(w[1]), scenario=scn, at=traces[i][1][w[0] - 1] if w[0] > 0 else None, history=traces[i][1],
                                   output=traces[i][2]), f)
                v = [x for x in v if x[0] != i]
    if over and not v:
        log("scenario %s does not come to an end, but what it did was allowed so far" % over[0])
        ctx.extra["unfinished"] = over
    for i, at, names in v:
        scn, lines, err = traces[i]
        ctx.violation("; ".join(sorted(names)) + " [%s]" % scn.get("ID"),
                      dict(scenario=scn, at=lines[at - 1] if 0 < at <= len(lines) else None,
                           history=lines[:at], output=head(err), how="VERIF_SCN=<scenario as file> VERIF_OUT=<file> go test -run TestScenario ./sim in /verif/harness"))
    return traces, v
