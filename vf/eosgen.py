"""Scenario generators for event sources (kind "eos")."""

APIS = ["Produce", "AddPartitionsToTxn", "EndTxn", "Fetch", "JoinGroup", "SyncGroup", "Heartbeat"]

def eoscfg(rng):
    if rng.random() < .03:    # unset: the defaults
        return dict(Pool=0, Pending=0, Target=0, Max=0, DelayMs=0)
    pool = rng.choice([1, 2, 2, 3, 3, 4])
    mx = rng.choice([1, 2, 3, 5, 10, 100])
    return dict(Pool=pool, Pending=rng.choice([1, 1, 2, pool]), Target=rng.randint(1, mx), Max=mx,
                DelayMs=rng.choice([1, 5, 10, 10, 50]))

class Gen:
    def __init__(self, rng, **kw):
        self.rng = rng
        self.uniq = 0
        self.s = dict(Kind="eos", Seed=rng.randrange(1 << 30), Parts=rng.choice([1, 2, 2, 3]), CommitParts=rng.choice([1, 2, 5]),
                      Brokers=rng.choice([1, 2]), Keys=4, OutParts=rng.choice([1, 2]), Complete=1, Ops=[],
                      LatMin=0, LatMax=rng.choice([0, 0, 2, 5, 20]), **eoscfg(rng))
        if "Strategies" not in kw and rng.random() < .2:
            self.s["Strategies"] = rng.choice([[2], [2], [0], [1], [3, 2], [2, 3]])
        self.s.update(kw)
        self.ops = self.s["Ops"]
        self.live = []
        self.n = 0
        self.inputs = 0

    def op(self, name, **kw):
        self.ops.append(dict(Op=name, **kw))

    def start(self, **kw):
        self.n += 1
        m = "m%d" % self.n
        self.live.append(m)
        self.op("start", M=m, **kw)
        return m

    def sleep(self, ms):
        self.op("sleep", Ms=ms)

    def key(self, shared):
        if shared:
            return "k%d" % self.rng.randrange(3)
        self.uniq += 1
        return "u%d" % self.uniq

    def value(self, mode=None, outs=True, modes=None):
        r = self.rng
        mode = mode or r.choice(modes or ["sync", "sync", "sync", "async", "async", "multi", "sched", "batch", "hold"])
        v = dict(m=mode, k=self.key(mode in ("sync", "sched", "batch")))
        if outs:
            v["o"] = r.choice([0, 1, 1, 2])
            v["c"] = [r.choice([0, 1, 2, 3, -1, -2]) for _ in range(r.choice([0, 1, 1, 2]))]
            if mode != "sync":
                v["o2"] = r.choice([0, 1, 1])
                v["c2"] = [r.choice([0, 1, 2, 3, -1]) for _ in range(r.choice([0, 1]))]
        if mode in ("async", "multi", "sched", "batch"):
            v["d"] = r.choice([0, 1, 5, 30, 200])
        if mode in ("multi", "batch", "bp"):
            v["j"] = r.choice([1, 2, 3])
        if r.random() < .15:
            v["w"] = r.choice([1, 10, 50])
        if mode not in ("sync",) and r.random() < .1:
            v["w2"] = r.choice([1, 10])
        if r.random() < .3:
            v["dp"] = r.randrange(self.s["OutParts"]) + 1
        return v

    def produce(self, p=None, n=None, v=None, ms=None, Type=None, **kw):
        r = self.rng
        tk = dict(Type=Type) if Type else {}
        p = r.randrange(self.s["Parts"]) if p is None else p
        n = r.choice([1, 1, 2, 3, 5]) if n is None else n
        ms = r.choice([0, 0, 0, 1, 5, 40]) if ms is None else ms
        v = v or self.value(**kw)
        self.inputs += n
        if v["k"].startswith("u"):     # asynchronous processing: no shared keys
            for _ in range(n):
                v = dict(v, k=self.key(False))
                self.op("produce", P=p, N=1, V=v, Ms=ms, **tk)
        else:
            self.op("produce", P=p, N=n, V=v, Ms=ms, **tk)

    def interject(self, m):
        r = self.rng
        kw = dict(M=m, Async=r.choice([0, 0, 5, 50]), Ms=r.choice([0, 0, 0, 5, 100]), Outs=r.choice([0, 1, 2]), Chg=[r.randrange(3) for _ in range(r.choice([0, 1]))])
        y = r.random()
        if y < .7:
            self.op("interject", P=r.randrange(self.s["Parts"] + (1 if r.random() < .1 else 0)), **kw)
        else:
            self.op(r.choice(["interjectall", "interjectallsync"]), **kw)

    def release(self):
        self.op("release", N=self.rng.choice([0, 0, 1, 2]), Order=self.rng.choice(["fifo", "lifo", "rand"]), Ms=self.rng.choice([0, 1]))

    def finish(self, ID, quick=False):
        self.op("clear")
        self.sleep(100)
        if quick:    # nothing has to be released
            if not self.live:
                self.start()
            self.s["ID"] = ID
            return self.s
        for _ in range(3):
            self.op("release", Order=self.rng.choice(["fifo", "lifo", "rand"]))
            self.sleep(2000)
        if not self.live:
            self.start()
        self.op("release", Order="fifo")
        # what is processed anew is released by the second pass
        for _ in range(4):
            self.sleep(12000)
            self.op("release", Order="rand")
        self.s["ID"] = ID
        return self.s

def mixed(rng, ID, crash=.25, move=.35, steps=None, modes=None, faults=0.0, cap=45, start2=.4, interject=0.0, hook=None, pre=None, types=None,
          sleeps=(0, 1, 3, 7, 15, 60, 500, 1500, 3000, 9000), compact=.15, burst=(1, 1, 2, 3), chan=0.0, again=0.0, stops=("stop", "stop", "stopnow"), quick=False, **kw):
    """Any mixture of input, processing modes, rebalances and crashes."""
    g = Gen(rng, **kw)
    def start():
        if rng.random() < chan:
            return g.start(Wait="chan")
        return g.start()
    def produce():
        if g.inputs >= cap:
            return
        if types:
            g.produce(modes=modes, Type=rng.choice(types))
        else:
            g.produce(modes=modes)
    if pre:
        pre(g)
    for p in range(g.s["Parts"]):
        if rng.random() < .2:
            g.op("gap", P=p, N=rng.choice([1, 5]))
    start()
    if rng.random() < start2:
        g.sleep(rng.choice([0, 50, 3000]))
        start()
    if rng.random() < .3:
        produce()
    g.sleep(rng.choice([200, 3000, 8000]))
    for _ in range(steps or rng.randint(4, 9)):
        x = rng.random()
        if x < crash and g.live:
            m = rng.choice(g.live)
            g.live.remove(m)
            if rng.random() < .6:
                api = rng.choice(["Produce", "Produce", "AddPartitionsToTxn", "EndTxn", "EndTxn"])
                g.op("crashat", M=m, API=api, Nth=rng.randint(1, 4), Count=1, Drop=rng.choice(["pre", "post"]),
                     Topic=rng.choice(["", "", "out", "gkes_commit_log_grp", "gkes_change_log_src_grp"]) if api == "Produce" else "")
                for _ in range(rng.randint(1, 3)):
                    produce()
                g.sleep(rng.choice([20, 200]))
                g.op("crash", M=m)
            else:
                g.op("crash", M=m)
            if not g.live or rng.random() < .3:
                start()
        elif x < crash + move:
            y = rng.random()
            if y < .5 and len(g.live) < 3:
                start()
            elif len(g.live) > 1:
                m = rng.choice(g.live)
                g.live.remove(m)
                if rng.random() < .4:     # arrives while something is on its way
                    produce()
                    g.sleep(rng.choice([0, 0, 1, 2, 5, 12]))
                g.op(rng.choice(stops), M=m, N=rng.choice([1, 1, 2]))
                if rng.random() < again:
                    g.sleep(rng.choice([0, 0, 1, 100, 3000]))
                    g.op(rng.choice(stops), M=m)
            else:
                start()
        elif x < crash + move + faults:
            g.op("fault", API=rng.choice(["Produce", "EndTxn", "AddPartitionsToTxn"]), Nth=rng.randint(1, 3), Count=1, Drop=rng.choice(["pre", "post"]))
        elif rng.random() < compact:
            g.op("compact", N=rng.choice([0, 1]))
        for _ in range(rng.choice(burst)):
            produce()
        if rng.random() < interject and g.live:
            g.interject(rng.choice(g.live))
        if rng.random() < .4:
            g.release()
        if hook:
            hook(g)
        g.sleep(rng.choice(sleeps))
    return g.finish(ID, quick)

# ---------------------------------------------------------------- per property
def c02(rng, ID):
    """Events with several records in every class, shared transactions, aborts."""
    return mixed(rng, ID, crash=.4, move=.15, cap=60, burst=(2, 3, 4), Parts=rng.choice([2, 3, 4]),
                 modes=["sync", "sync", "async", "multi", "multi", "hold", "sched"], interject=.2)

def c03(rng, ID):
    """A steady stream of records through few and many producers, with slow and uneven commits."""
    def pre(g):
        g.op("lat", P=0, N=rng.choice([1, 5, 30]))
    return mixed(rng, ID, pre=pre, crash=.04, move=.12, cap=90, steps=rng.randint(8, 14), burst=(2, 3, 4, 5), sleeps=(0, 0, 1, 2, 4, 7, 15, 40),
                 Parts=rng.choice([1, 1, 2, 3]), OutParts=1, modes=rng.choice([["sync"], ["sync"], ["sync", "sched"], ["sync", "async", "multi", "batch"]]))

def c04(rng, ID):
    """Asynchronous completion in every order."""
    return mixed(rng, ID, crash=.08, move=.12, cap=60, steps=rng.randint(6, 12), burst=(2, 3, 4), modes=["hold", "hold", "async", "multi", "sync", "batch", "sched"],
                 sleeps=(0, 1, 3, 7, 15, 60, 500))

def c05(rng, ID):
    """Partitions move again and again while events are on their way."""
    return mixed(rng, ID, crash=.06, move=.7, start2=.8, cap=70, steps=rng.randint(6, 11), burst=(1, 2, 3), Parts=rng.choice([2, 3, 4, 6]),
                 modes=["sync", "async", "async", "multi", "sched", "batch", "hold"], chan=.3)

def c06(rng, ID):
    """Many changes of few keys, takeovers, cancelled preparations, compaction, aborted changes."""
    modes = ["sync", "sync", "async", "multi"]
    def slow(g):    # one member reads what is written with a delay, or not at all for a while
        if rng.random() < .3:
            for _ in range(rng.choice([1, 2])):
                g.op("fault", API="Fetch", Nth=rng.randint(1, 20), Count=rng.choice([1, 3, 10, 30]), Err=rng.choice([29, -1, 6, 56]),
                     Part=rng.choice([0, rng.randint(1, g.s["Parts"])]), Topic=rng.choice(["gkes_change_log_src_grp"] * 3 + ["src", "gkes_commit_log_grp"]))
            return
        g.op("fault", M=rng.choice(["m2", "m2", "m3", "m1"]), API="Fetch", Nth=1, Count=0, Ms=rng.choice([100, 300, 1000, 2500]))
    return mixed(rng, ID, pre=slow if rng.random() < .5 else None, RecvErr=rng.choice([0, 0, 0, 1, 2, 5]), crash=.3, move=.45, start2=.6, cap=70, steps=rng.randint(6, 11), compact=.5, modes=modes, Keys=3,
                 FetchBytes=rng.choice([0, 0, 1, 200]), Brokers=rng.choice([1, 2]), sleeps=(0, 0, 20, 100, 500, 1200, 2500, 6000))

def c06race(rng, ID):
    """A partition is assigned while its store is still being prepared for it."""
    g = Gen(rng, Parts=rng.choice([1, 2, 3]), Brokers=rng.choice([1, 2]), FetchBytes=rng.choice([0, 1, 200]), Keys=4)
    def fill(k):
        for p in range(g.s["Parts"]):
            for _ in range(rng.randint(1, k)):
                g.produce(p=p, n=rng.choice([1, 2]), v=dict(m="sync", k="k%d" % rng.randrange(3), o=0, c=[rng.choice([0, 1, 2, 3, -1, -2]), rng.randrange(4)]), ms=0)
    g.start()
    g.sleep(9000)
    fill(3)
    g.sleep(1000)
    for i in range(rng.randint(1, 3)):
        m = "m%d" % (g.n + 1)
        g.op("fault", M=m, API="Fetch", Nth=1, Count=0, Ms=rng.choice([300, 1000, 2500]), Topic="gkes_change_log_src_grp")
        g.start()
        if rng.random() < .3:
            fill(1)
        g.sleep(rng.choice([150, 300, 500, 800, 1200, 2000, 3000, 4000]))
        if rng.random() < .3 and len(g.live) < 3:
            continue
        g.op(rng.choice(["stopnow", "stopnow", "stop", "crash"]), M=g.live.pop(0))
        if rng.random() < .3:
            fill(1)
        g.sleep(rng.choice([3000, 9000, 15000]))
        fill(2)
        if rng.random() < .5:
            g.op("compact", N=rng.choice([0, 1]))
        g.sleep(1000)
    return g.finish(ID)

def c06back(rng, ID):
    """Partitions come back to a member that had them before, and what was deleted meanwhile has left no trace in the log."""
    g = Gen(rng, Parts=rng.choice([2, 3, 4]), Brokers=1, Keys=4)
    def fill(cs):
        for p in range(g.s["Parts"]):
            g.produce(p=p, n=1, v=dict(m="sync", k="k%d" % rng.randrange(3), o=0, c=[rng.choice(cs) for _ in range(rng.choice([1, 2, 4]))]), ms=0)
    g.start()
    g.sleep(9000)
    fill([0, 1, 2, 3])
    g.sleep(1000)
    for _ in range(rng.randint(1, 2)):
        for _ in range(rng.choice([1, 1, 2])):
            g.start()
        g.sleep(rng.choice([12000, 20000]))
        if rng.random() < .3:
            g.op("kick", M="m1")
            g.sleep(12000)
        fill([-1, -2, -3, -4])
        fill([-1, -2, -3, -4, 0, 3])
        g.sleep(1500)
        g.op("compact", N=1)
        g.sleep(100)
        while len(g.live) > 1:
            g.op(rng.choice(["stop", "stopnow", "crash"]), M=g.live.pop())
            g.sleep(rng.choice([0, 3000]))
        g.sleep(20000)
        fill([0, 1, 2, 3, -1])
        g.sleep(1500)
    return g.finish(ID)

def many(rng, ID):
    """More partitions than usual."""
    g = Gen(rng, Parts=70, Brokers=2, Keys=2, OutParts=1, CommitParts=5, LatMax=2)
    g.start()
    g.sleep(9000)
    for p in range(0, 70, 1):
        if p < 8 or p > 60 or rng.random() < .2:
            g.produce(p=p, n=rng.choice([1, 2]), v=dict(m="sync", k="k", o=1, c=[0]), ms=0)
    g.sleep(2000)
    g.op("crash", M="m1")
    g.live = []
    g.start()
    g.sleep(9000)
    for p in range(0, 70, 1):
        if rng.random() < .15:
            g.produce(p=p, n=1, v=dict(m="sync", k="k", o=1), ms=0)
    return g.finish(ID, quick=True)

def fetcherr(rng, ID):
    """Fetches in which one partition has an error and others have records: input, progress or changes that are restored."""
    g = Gen(rng, Parts=rng.choice([2, 3, 4]), Brokers=1, LatMin=rng.choice([0, 5]), LatMax=rng.choice([5, 30]), FetchBytes=rng.choice([0, 1, 150]))
    def bad(topic):
        for _ in range(rng.choice([1, 2])):
            g.op("fault", API="Fetch", Nth=rng.randint(1, 4), Count=rng.choice([1, 3, 10, 30, 30]), Err=rng.choice([29, 29, -1, 6]),
                 Part=rng.randint(1, g.s["CommitParts"] if "commit" in topic else g.s["Parts"]), Topic=topic)
    def burst():
        for p in range(g.s["Parts"]):
            if kind == "src":
                g.produce(p=p, modes=["sync", "sync", "async"], n=rng.choice([1, 2, 3]), ms=0)
            else:
                g.produce(p=p, n=rng.choice([2, 4, 6]), v=dict(m="sync", k="k%d" % rng.randrange(3), o=1, c=[rng.choice([0, 1, 2, 3, -1]), rng.randrange(4)]), ms=0)
    kind = rng.choice(["src", "gkes_change_log_src_grp", "gkes_change_log_src_grp", "gkes_commit_log_grp"])
    g.start()
    if kind == "src" and rng.random() < .5:
        burst()
        bad(kind)
    g.sleep(6000)
    for _ in range(rng.randint(1, 3) if kind == "src" else rng.randint(2, 4)):
        if kind == "src":
            bad(kind)
        burst()
        g.sleep(rng.choice([5, 30, 500]))
        g.op("release", Order="rand")
    g.sleep(1000)
    if kind != "src":
        bad(kind)
        if rng.random() < .8:
            m = g.live.pop()
            g.op(rng.choice(["crash", "stopnow"]), M=m)
        g.start()
        g.sleep(rng.choice([0, 20, 4000]))
        burst()
        g.sleep(9000)
        if rng.random() < .5:
            g.start()
            bad(kind)
            burst()
            g.sleep(3000)
    return g.finish(ID)

def c07(rng, ID):
    """Something fails for good: the consumer has to stop, another one takes over once the cause is gone."""
    h = rng.choice(["", "", "", "none"])
    g = Gen(rng, TxnHandler=h, Complete=1)
    g.start()
    if rng.random() < .6:
        g.start()
    g.sleep(rng.choice([3000, 9000]))
    for _ in range(rng.randint(0, 3)):
        g.produce()
    g.sleep(rng.choice([0, 20, 500]))
    kind = rng.choice(["fault", "fault", "fault", "stuck", "stuck", "record", "record", "never"])
    fails = 0
    if kind == "stuck":
        # a transaction cannot be ended (or a record not be stored) within its deadline, while events keep arriving
        api = rng.choice(["EndTxn", "EndTxn", "EndTxn", "AddPartitionsToTxn", "Produce"])
        g.op("fault", M="m1", API=api, Nth=rng.randint(1, 4), Count=0, Drop=rng.choice(["pre", "pre", "post"]), One=rng.choice([0, 1, 1]), Ms=rng.choice([0, 60000, 60000]))
        g.produce(modes=["sync", "sync", "async"])
        t, until = 0, rng.choice([10000, 36000, 36000, 36000, 60000])
        while t < until:
            d = rng.choice([1000, 5000, 9000])
            g.sleep(d)
            t += d
            g.produce(modes=["sync", "sync", "async"], n=1)
        g.op("clear")
        for _ in range(rng.randint(1, 3)):
            g.produce(modes=["sync", "sync", "async"])
            g.sleep(rng.choice([20, 500]))
        g.start()
        return g.finish(ID)
    if kind == "fault":
        # errors the client does not retry
        api, errs = rng.choice([("EndTxn", [47, 53, 48, 51]), ("Produce", [47, 10, 29, 53]), ("AddPartitionsToTxn", [53, 47, 29])])
        g.op("fault", M="m1", API=api, Nth=rng.randint(1, 4), Count=rng.choice([1, 1, 2, 0]), Err=rng.choice(errs))
    elif kind == "record":
        g.produce(n=1, v=dict(m=rng.choice(["notopic", "toolarge"]), k="x", o=1))
        fails = 1
    else:
        g.produce(n=1, v=dict(m="never", k="x"))
        fails = 1
    for _ in range(rng.randint(1, 5)):
        g.produce()
        g.sleep(rng.choice([0, 1, 5, 20]))
    if fails:
        # it can never be processed: every consumer that takes over fails as well
        g.s["Complete"] = 0
        g.s["Expect"] = dict(mustfail=1)
        g.sleep(60000 if kind == "never" else 20000)
        for _ in range(2):
            g.op("release")
            g.sleep(15000)
        g.s["ID"] = ID
        return g.s
    g.sleep(rng.choice([20, 500, 5000]))
    g.op("clear")
    g.sleep(1000)
    g.start()
    if rng.random() < .3:
        g.produce()
    return g.finish(ID)

def c07late(rng, ID):
    """A consumer fails while the transaction of another partition is on its way."""
    how = rng.choice(["deser", "deser", "txn"])
    g = Gen(rng, Parts=rng.choice([2, 3]), Complete=0, Expect=dict(mustfail=1), TypedA=True, TypedB=True, DeserHandler="fail" if how == "deser" else "",
            Pool=rng.choice([3, 4]), Pending=rng.choice([2, 3]), Target=rng.choice([1, 2, 100]), Max=100, DelayMs=rng.choice([1, 10]), LatMax=rng.choice([0, 5]))
    g.start()
    g.sleep(9000)
    for _ in range(rng.randint(0, 2)):
        g.produce(modes=["sync", "async"])
        g.sleep(500)
    g.sleep(1000)
    g.op("fault", M="m1", API=rng.choice(["Produce", "Produce", "AddPartitionsToTxn"]), Nth=1, Count=0, Ms=rng.choice([300, 1000, 3000]))
    for p in range(1, g.s["Parts"]):
        g.produce(p=p, modes=["sync", "async"], n=1)
        g.sleep(rng.choice([0, 5, 50]))
    g.sleep(rng.choice([20, 100, 250]))
    if how == "deser":
        g.produce(p=0, n=1, Type="badA", modes=["sync"])
    else:
        g.produce(p=0, n=1, v=dict(m="notopic", k="x", o=1))
    g.sleep(30000)
    g.s["ID"] = ID
    return g.s

def c07lost(rng, ID):
    """TxnErrorHandler answers Continue."""
    g = Gen(rng, TxnHandler="continue", Complete=0)
    g.start()
    g.sleep(3000)
    for _ in range(3):
        g.produce(modes=["sync"])
    g.produce(n=1, v=dict(m="notopic", k="x", o=1))
    g.produce(modes=["sync"])
    g.sleep(5000)
    g.s["ID"] = ID
    return g.s

def c08(rng, ID):
    """Bounds under load."""
    def pre(g):
        g.op("lat", P=0, N=rng.choice([0, 5, 30, 100]))
    return mixed(rng, ID, pre=pre, crash=.03, move=.1, cap=110, steps=rng.randint(6, 12), burst=(3, 4, 5), sleeps=(0, 0, 1, 2, 4, 7, 15, 40),
                 modes=["sync", "sync", "async", "hold"], interject=.1)

def c08lone(rng, ID):
    """Lone events are committed within the batch delay, full transactions at once."""
    full = rng.random() < .5
    trickle = not full and rng.random() < .5   # the next events arrive before the delay is over
    tgt = rng.choice([1, 2, 3, 5])
    delay = rng.choice([500, 2000]) if full else rng.choice([50, 100, 200]) if trickle else rng.choice([5, 10, 50, 200])
    g = Gen(rng, Parts=1, Pool=rng.choice([1, 2, 3]), Target=tgt, Max=tgt * rng.choice([1, 2, 10]), DelayMs=delay, LatMin=0, LatMax=0, Sync=1)
    g.s["Pending"] = rng.randint(1, g.s["Pool"])
    if trickle or (not full and tgt == 1):
        g.s["Target"], g.s["Max"] = 100, 100
    g.s["Expect"] = dict(lat=(60 if full else delay + 60))
    g.start()
    g.sleep(9000)
    if trickle:
        for _ in range(rng.randint(10, 30)):
            g.produce(p=0, n=1, v=dict(m="sync", k="k", o=rng.choice([0, 1, 1]), c=[0]), ms=0)
            g.sleep(rng.choice([delay // 5, delay // 2, delay * 9 // 10, delay * 9 // 10]))
        g.sleep(2000)
        g.s["ID"] = ID
        return g.s
    for _ in range(rng.randint(3, 8)):
        # a transaction is filled by so many events
        if full:
            g.produce(p=0, n=tgt, v=dict(m="sync", k="k", o=rng.choice([0, 1])), ms=0)
        else:
            g.produce(p=0, n=1, v=dict(m="sync", k="k", o=rng.choice([0, 1, 2]), c=[0]), ms=0)
        g.sleep(rng.choice([1000, 3000]) + delay)
    g.s["ID"] = ID
    return g.s

def c08tail(rng, ID):
    """Bursts fill the transactions while commits are slow; then nothing arrives any more, and what is left must be committed as well."""
    pool = rng.choice([3, 3, 4, 5])
    g = Gen(rng, Parts=rng.choice([1, 2]), LatMin=rng.choice([1, 10]), LatMax=rng.choice([10, 40]), Expect=dict(lat=15000), Pool=pool, Pending=rng.randint(1, pool - 2),
            Target=rng.choice([1, 2, 3]), Max=rng.choice([5, 20, 100]), DelayMs=rng.choice([1, 5, 10, 20]))
    g.start()
    g.sleep(9000)
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(1, 4)):
            g.produce(modes=["sync", "sync", "async"], n=rng.choice([1, 2, 4, 6]), ms=rng.choice([0, 1, 10]))
            g.sleep(rng.choice([0, 5, 20, 60]))
        g.sleep(75000)
    return g.finish(ID, quick=True)

def c13(rng, ID):
    """Stores of different sizes, the incremental rebalancer, members that come and go, and a long quiet time in the end."""
    return mixed(rng, ID, crash=.2, move=.7, start2=.9, cap=20, steps=rng.randint(4, 9), Parts=rng.choice([2, 3, 4, 5]), Expect=dict(bal=1),
                 modes=["sync", "async"], sleeps=(0, 1, 60, 500, 1500, 3000, 9000), stops=("stop", "stop", "stopnow"))

def c13leave(rng, ID):
    """A group that has come to rest, and then something happens to it: a member leaves, joins, or crashes while another joins or leaves."""
    g = Gen(rng, Parts=rng.choice([2, 3, 4, 6]), Keys=3, Expect=dict(bal=1), Strategies=[], LatMax=rng.choice([0, 0, 5]))
    for _ in range(rng.choice([2, 2, 3, 4])):
        g.start()
        g.sleep(rng.choice([0, 0, 300, 9000]))
    for _ in range(rng.randint(1, 3)):
        g.sleep(rng.choice([30000, 30000, 60000]))
        g.produce(modes=["sync", "async"])
        x = rng.random()
        if x < .4 and len(g.live) > 1:
            g.op("stop", M=g.live.pop(rng.randrange(len(g.live))))
        elif x < .55 and len(g.live) < 4:
            g.start()
        elif len(g.live) > 2 or x < .8:
            # a member crashes, and about when the group notices it, another event happens
            if len(g.live) > 1:
                g.op("crash", M=g.live.pop(rng.randrange(len(g.live))))
            g.sleep(rng.choice([0, 500, 5000, 8000, 9000, 9500, 10000, 11000]))
            if rng.random() < .5 and len(g.live) > 1:
                g.op("stop", M=g.live.pop(0))
            else:
                g.start()
    g.sleep(20000)
    g.produce(modes=["sync"])
    return g.finish(ID, quick=True)

def c14(rng, ID):
    ij = [dict(Every=rng.choice([100, 300, 1000]), Jitter=rng.choice([0, 0, 10, 40]), Async=rng.choice([0, 0, 5, 60]), Outs=rng.choice([0, 1]),
               Chg=rng.choice([[], [0]])) for _ in range(rng.choice([0, 1, 1, 2]))]
    calm = rng.random() < .5
    if calm:    # nothing that can delay an interjection for long
        return mixed(rng, ID, crash=.05, move=.25, cap=30, interject=.6, modes=["sync", "async"], Parts=rng.choice([1, 2, 3, 6]), Interj=ij, quick=True, LatMax=rng.choice([0, 2]), Expect=dict(tol=1500),
                     Pool=3, Pending=2, Max=20, Target=5, DelayMs=10)
    return mixed(rng, ID, crash=.1, move=.4, cap=40, interject=.8, Parts=rng.choice([1, 2, 2, 3, 6]), Interj=ij, start2=.7, quick=True, modes=["sync", "sync", "async", "multi", "sched", "batch"],
                 sleeps=(0, 0, 1, 7, 60, 500, 1500, 3000))

def c14clock(rng, ID):
    """Nothing can delay an interjection."""
    ij = [dict(Every=rng.choice([200, 500, 1000]), Jitter=rng.choice([0, 50, 100, 150]), Async=rng.choice([0, 0, 5, 250]), Outs=0, Chg=[]) for _ in range(rng.choice([1, 2]))]
    g = Gen(rng, Interj=ij, LatMin=0, LatMax=0, Sync=1, Pool=4, Pending=3, Target=rng.choice([1, 100]), Max=1000, DelayMs=10, Expect=dict(tol=12), Parts=rng.choice([1, 2]))
    g.start()
    for _ in range(rng.randint(1, 3)):
        g.sleep(rng.choice([3000, 10000]))
        g.produce(v=dict(m="sync", k="k", o=1), ms=0)
    g.sleep(5000)
    g.s["ID"] = ID
    return g.s

def c14few(rng, ID):
    """Transactions which hold little but interjections, most of which forward nothing."""
    ij = [dict(Every=rng.choice([50, 100, 200]), Jitter=0, Async=0, Outs=0, Chg=[])] if rng.random() < .7 else []
    g = Gen(rng, Interj=ij, Parts=rng.choice([2, 3, 4]), Pool=rng.choice([1, 2, 3]), Target=100, Max=1000, DelayMs=rng.choice([20, 100]))
    g.s["Pending"] = rng.randint(1, g.s["Pool"])
    g.start()
    g.sleep(9000)
    for _ in range(rng.randint(3, 8)):
        if rng.random() < .3:
            g.produce(n=1, v=dict(m="sync", k="k", o=rng.choice([0, 1])))
        for _ in range(rng.randint(1, 2)):
            if not ij and rng.random() < .5:
                g.op("interjectall", M="m1", Async=0, Outs=0, Chg=[])
            g.op("interject", M="m1", P=rng.randrange(g.s["Parts"]), Async=rng.choice([0, 0, 5]), Outs=rng.choice([0, 1, 1]), Chg=rng.choice([[], [0]]))
        g.sleep(rng.choice([150, 500, 3000]))
    return g.finish(ID, quick=True)

def c14move(rng, ID):
    """Partitions move away while one-off interjections wait for their turn."""
    g = Gen(rng, Parts=rng.choice([1, 2, 3]), **(dict(Pool=1, Pending=1, Target=1, Max=rng.choice([1, 2]), DelayMs=rng.choice([5, 50])) if rng.random() < .5 else {}))
    if rng.random() < .5:
        g.op("lat", P=0, N=rng.choice([5, 30]))
    g.start()
    g.sleep(9000)
    for _ in range(rng.randint(2, 4)):
        for p in range(g.s["Parts"]):
            v = dict(m=rng.choice(["sync", "sync", "async", "batch"]), k="k0", o=1, w=rng.choice([20, 100, 300]), d=rng.choice([10, 100]), j=1)
            if v["m"] == "async":
                v["k"] = g.key(False)
            g.produce(p=p, n=rng.choice([1, 2, 4]) if v["m"] != "async" else 1, v=v, ms=0)
        g.sleep(rng.choice([5, 15, 60]))
        for _ in range(rng.randint(1, 4)):
            g.interject(rng.choice(g.live))
        # the partitions of a member that stays, or of one that leaves
        g.sleep(rng.choice([0, 0, 1, 5, 30]))
        if len(g.live) > 1 and rng.random() < .6:
            g.op(rng.choice(["stop", "stopnow"]), M=g.live.pop(rng.randrange(len(g.live))))
        elif len(g.live) < 3:
            g.start()
        for _ in range(rng.randint(0, 3)):
            g.sleep(rng.choice([0, 3, 100, 1000, 3000]))
            if g.live:
                g.interject(rng.choice(g.live))
        g.sleep(rng.choice([1000, 9000]))
        if not g.live:
            g.start()
            g.sleep(9000)
    return g.finish(ID, quick=True)

def c15(rng, ID):
    ij = [dict(Every=rng.choice([50, 100, 300]), Jitter=0, Async=rng.choice([0, 5]), Outs=0, Chg=rng.choice([[], [], [0]]))] if rng.random() < .5 else []
    return mixed(rng, ID, crash=.08, move=.3, cap=60, interject=.4, Interj=ij, burst=(2, 3), quick=bool(ij), sleeps=(0, 0, 1, 3, 7, 15, 60, 500, 1500),
                 modes=["sync", "async", "multi", "sched", "batch"] + ([] if ij else ["hold"]))

def c16(rng, ID):
    deser = rng.choice(["", "", "continue", "continue", "fail", "exit"])
    ty = ["", "A", "B", "A", "B", "other"] + (["badA"] if deser in ("", "continue") else [])
    s = dict(TypedA=True, TypedB=rng.random() < .8, DeserHandler=deser)
    if not s["TypedB"]:
        ty = [t for t in ty if t != "B"]
    if deser in ("fail", "exit"):
        g = Gen(rng, Complete=0, Expect=dict(mustfail=1 if deser == "fail" else 0), **s)
        g.start()
        if deser == "fail" and rng.random() < .5:
            g.start()
        g.sleep(9000)
        for _ in range(rng.randint(1, 3)):
            g.produce(Type=rng.choice(ty), modes=["sync", "async"])
        g.sleep(rng.choice([0, 300]))
        g.produce(n=1, Type="badA", modes=["sync"])
        for _ in range(rng.randint(0, 2)):
            g.produce(Type=rng.choice(ty), modes=["sync", "async"])
        g.sleep(30000)
        g.s["ID"] = ID
        return g.s
    return mixed(rng, ID, crash=.12, move=.2, cap=60, burst=(2, 3), types=ty, **s)

def c17(rng, ID):
    kw = dict(CbMs=[rng.choice([0, 1, 30, 400, 2500]) for _ in range(rng.choice([2, 3, 5]))]) if rng.random() < .4 else {}
    return mixed(rng, ID, crash=.05, move=.75, start2=.8, cap=30, steps=rng.randint(5, 10), Parts=rng.choice([1, 2, 3, 4]), chan=.4, interject=.2, again=.3,
                 stops=("stop", "stop", "stopnow", "stopnow"), sleeps=(0, 0, 1, 7, 60, 110, 150, 500, 1500, 3000), **kw)

def c17prep(rng, ID):
    """Partitions are taken away while their stores are being prepared, and callbacks take their time."""
    kw = rng.choice([{}, dict(Strategies=[2]), dict(Strategies=[2]), dict(Strategies=[2]), dict(Strategies=[0]), dict(Strategies=[1])])
    g = Gen(rng, Parts=rng.choice([2, 3, 4]), Brokers=1, FetchBytes=rng.choice([0, 1]), **kw, CbMs=[rng.choice([0, 30, 400, 1000, 1500]) for _ in range(rng.choice([2, 3, 5]))])
    g.start()
    g.sleep(12000)
    for _ in range(rng.randint(1, 3)):
        for p in range(g.s["Parts"]):
            g.produce(p=p, n=rng.choice([1, 3]), v=dict(m="sync", k="k", o=0, c=[0, 1]), ms=0)
    g.sleep(3000)
    g.op("fault", API="Fetch", Nth=1, Count=0, Ms=rng.choice([200, 400, 700, 1500]), Topic="gkes_change_log_src_grp")
    for _ in range(rng.randint(5, 10)):
        if len(g.live) > 1 and rng.random() < .6:
            g.op(rng.choice(["stop", "stopnow", "crash"]), M=g.live.pop(rng.randrange(len(g.live))))
        elif len(g.live) < 4:
            g.start(**(dict(Wait="chan") if rng.random() < .3 else {}))
        g.sleep(rng.choice([300, 700, 1000, 1500, 2500, 4000]))
        if rng.random() < .4:
            g.produce(modes=["sync", "async"])
    return g.finish(ID)

def c24(rng, ID):
    m = rng.choice(["log", "log", "slow", "block"])
    def hook(g):
        if g.live and rng.random() < .4:
            g.op("emit", M=rng.choice(g.live), N=rng.choice([0, 5, 3000]) if m != "log" else 3)
    return mixed(rng, ID, Metrics=m, crash=.05, move=.35, cap=40, hook=hook, interject=.1, stops=("stop", "stopnow"))

def c26(rng, ID):
    x = rng.random()
    if x < .2:
        return mixed(rng, ID, CommitOffsets=False, crash=.1, move=.3, cap=40)
    if x < .45:
        return mixed(rng, ID, CommitOffsets=True, crash=.15, move=.35, cap=50, interject=.2)
    if x < .65:
        # transactions take longer to be committed than group offsets, and some are not committed at all
        g = Gen(rng, CommitOffsets=True)
        g.start()
        g.sleep(9000)
        for _ in range(rng.randint(2, 5)):
            g.op("fault", M="m1", API=rng.choice(["EndTxn", "EndTxn", "Produce"]), Nth=1, Count=rng.choice([1, 1, 2]),
                 **rng.choice([dict(Ms=rng.choice([3000, 7000, 12000])), dict(Ms=7000), dict(Ms=7000, Drop="post")]))
            for _ in range(rng.randint(1, 3)):
                g.produce(modes=["sync", "sync", "async"])
                g.sleep(rng.choice([0, 20, 1000]))
            g.sleep(rng.choice([1000, 6000, 14000]))
        if rng.random() < .5:
            g.op("crash", M="m1")
            g.live = []
        return g.finish(ID, quick=True)
    if x < .75:
        # partitions are lost and come back
        g = Gen(rng, CommitOffsets=True, Expect=dict(gend=1), Parts=rng.choice([1, 2, 2]))
        g.start()
        g.start()
        g.sleep(12000)
        for _ in range(rng.randint(1, 3)):
            for _ in range(2):
                g.produce(modes=["sync", "async"])
            g.op("progress", Ms=60000)
            g.sleep(rng.choice([6000, 8000]))     # what was marked has been committed by now
            g.op("kick", M=rng.choice(g.live))
            g.sleep(rng.choice([3000, 10000, 15000]))
            if rng.random() < .6:
                g.produce(modes=["sync", "async"])
        g.op("progress", Ms=60000)
        for m in rng.sample(g.live, 2):
            g.op("stop", M=m)
            g.sleep(rng.choice([0, 20000, 20000]))
        g.sleep(60000)
        g.s["Complete"] = 0
        g.s["ID"] = ID
        return g.s
    # stopped gracefully after everything has been committed
    ij = [dict(Every=rng.choice([200, 1000, 3000]), Jitter=0, Async=0, Outs=rng.choice([0, 1]), Chg=[])] if rng.random() < .4 else []
    g = Gen(rng, CommitOffsets=True, Expect=dict(gend=1), Interj=ij)
    g.start()
    if rng.random() < .5:
        g.start()
    g.sleep(9000)
    for _ in range(rng.randint(1, 6)):
        g.produce(**(dict(modes=["sync", "async"]) if ij else {}))
        if rng.random() < .3:
            g.interject(rng.choice(g.live))
        g.sleep(rng.choice([0, 10, 500, 6000]))
    for _ in range(3):
        g.op("release")
        g.sleep(rng.choice([500, 2000]))
    g.op("progress", Ms=60000)
    for m in list(g.live):
        g.op("stop", M=m)
        g.sleep(rng.choice([0, 20000]))
    g.sleep(60000)
    g.s["Complete"] = 0
    g.s["ID"] = ID
    return g.s

def kick(rng, ID):
    """The group forgets a member that lives (its session expired) while it has nothing to do; partitions come back to it later."""
    g = Gen(rng, Parts=rng.choice([2, 3, 4]), Keys=3)
    g.start()
    g.start()
    if rng.random() < .3:
        g.start()
    g.sleep(9000)
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 3)):
            g.produce(modes=["sync", "sync", "async", "multi"])
        g.sleep(2000)
        g.op("progress", Ms=60000)
        g.sleep(rng.choice([100, 1000]))
        g.op("kick", M=rng.choice(g.live))
        g.sleep(rng.choice([10000, 15000]))
    for _ in range(rng.randint(1, 3)):
        g.produce(modes=["sync", "async"])
    if len(g.live) > 1 and rng.random() < .6:
        g.op(rng.choice(["stop", "stopnow"]), M=g.live.pop(0))
        g.sleep(rng.choice([0, 5000]))
        g.produce(modes=["sync", "async"])
    return g.finish(ID, quick=True)
