"""Scenario generators for the parts that are driven on their own."""

def _threads(rng, n, per, mk):
    r = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(1, per)):
            if rng.random() < .25:
                ops.append(dict(Op="sleep", Ms=rng.choice([0, 1, 2, 5, 20, 100])))
            ops.append(mk())
        r.append(ops)
    return r

def sched(rng, ID):
    keys = rng.choice([1, 2, 3, 5, 12])
    durs = rng.choice([[0], [0, 0, 1], [0, 1, 2, 5], [1, 10, 50]])
    sp = rng.choice([0, 3, 30, 200])
    mk = lambda: dict(Op="sched", K=rng.randrange(keys), D=rng.choice(durs), Err=int(rng.random() < .3), Spin=sp)
    s = dict(Kind="sched", ID=ID, Seed=rng.randrange(1 << 30), Conc=rng.choice([1, 2, 3, 4, 8]), Depth=rng.choice([0, 1, 2, 3, 5, 20]),
             MaxKeys=rng.choice([0, 1, 2, 3, 5, 20]), CompCap=rng.choice([0, 0, 1, 5, 50]), CompMs=rng.choice([0, 0, 0, 1, 7]), Final=int(rng.random() < .85),
             FinIncomplete=int(rng.random() < .2), Threads=_threads(rng, rng.choice([1, 1, 2, 3, 4]), rng.choice([5, 15, 30]), mk), Ctl=[], TailMs=3600000)
    x = rng.random()
    if x < .3:
        for _ in range(rng.randint(1, 5)):
            s["Ctl"].append(dict(Op="sleep", Ms=rng.choice([0, 1, 3, 10, 40])))
            s["Ctl"].append(dict(Op=rng.choice(["depth", "max", "max"]), N=rng.choice([1, 1, 2, 3, 6, 30])))
    if rng.random() < .3:
        s["Ctl"].append(dict(Op="sleep", Ms=rng.choice([0, 1, 3, 10, 40, 200])))
        s["Ctl"].append(dict(Op="halt"))
    if rng.random() < .03:
        s.update(rng.choice([dict(Conc=0), dict(Depth=-1), dict(Conc=-3)]))
    return s

def schedgrow(rng, ID):
    """The number of keys is raised while many of them wait for a worker."""
    conc = rng.choice([1, 1, 2])
    mx = rng.choice([4, 6, 9])
    keys = rng.choice([mx, mx + 3, 20])
    mk = lambda: dict(Op="sched", K=rng.randrange(keys), D=rng.choice([1, 5, 20]), Err=0, Spin=0)
    threads = [[mk() for _ in range(rng.choice([5, 12, 20]))] for _ in range(rng.choice([1, 2, 4]))]
    ctl = []
    n = mx
    for _ in range(rng.randint(1, 4)):
        n += rng.choice([1, 2, 8])
        ctl += [dict(Op="sleep", Ms=rng.choice([1, 3, 10, 30])), dict(Op="max", N=n if rng.random() < .8 else rng.randint(1, n))]
    return dict(Kind="sched", ID=ID, Seed=rng.randrange(1 << 30), Conc=conc, Depth=rng.choice([0, 1, 3, 20]), MaxKeys=mx, CompCap=rng.choice([0, 5]), CompMs=rng.choice([0, 1]),
                Final=1, FinIncomplete=0, Threads=threads, Ctl=ctl, TailMs=3600000)

def batchbig(rng, ID):
    """More items than usual wait for an execution."""
    keys = rng.choice([3, 12, 40])
    if rng.random() < .5:    # of one key, while items of other keys arrive
        hot = [dict(Op="add", K=0, N=rng.choice([70, 100]), Keys=[], Spin=0)]
        cold = []
        for _ in range(8):
            cold += [dict(Op="sleep", Ms=rng.choice([5, 20, 60])), dict(Op="add", K=rng.randint(1, 8), N=rng.choice([0, 1, 2]), Keys=[], Spin=0)]
        return dict(Kind="batch", ID=ID, Seed=rng.randrange(1 << 30), Max=rng.choice([5, 10]), Conc=rng.choice([2, 3]), DelayMs=rng.choice([1, 5]), Neg=0,
                    ExecMs=[rng.choice([30, 100])], CompMs=0, NoCb=0, Threads=[hot, cold], TailMs=3600000)
    mk = lambda n: dict(Op="add", K=rng.randrange(keys), N=n, Keys=[rng.randrange(keys) for _ in range(n)] if rng.random() < .7 else [], Spin=0)
    return dict(Kind="batch", ID=ID, Seed=rng.randrange(1 << 30), Max=rng.choice([3, 10, 50]), Conc=rng.choice([1, 2, 3]), DelayMs=rng.choice([1, 5, 20]), Neg=0,
                ExecMs=rng.choice([[10], [1, 30], [3, 10]]), CompMs=0, NoCb=0,
                Threads=[[mk(rng.choice([20, 50, 80])) for _ in range(rng.choice([2, 3]))] for _ in range(rng.choice([1, 2]))], TailMs=3600000)

def batch(rng, ID):
    keys = rng.choice([1, 2, 3, 5, 12])
    multi = rng.choice([0, 0, .3])
    mx = rng.choice([1, 2, 3, 5, 10])
    def mk():
        n = rng.choice([0, 0, 1, 1, 2, 3, mx, mx + 1, 2 * mx + 1])
        return dict(Op="add", K=rng.randrange(keys), N=n, Keys=[rng.randrange(keys) for _ in range(n)] if rng.random() < multi else [], Spin=rng.choice([0, 0, 5, 50]))
    return dict(Kind="batch", ID=ID, Seed=rng.randrange(1 << 30), Max=mx, Conc=rng.choice([1, 1, 2, 3, 5]), DelayMs=rng.choice([0, 1, 5, 20, 100]),
                Neg=int(rng.random() < .1), ExecMs=rng.choice([[0], [0, 1], [0, 3, 10], [1, 30, 100], [7]]), CompMs=rng.choice([0, 0, 0, 1]),
                NoCb=int(rng.random() < .15), Threads=_threads(rng, rng.choice([1, 1, 2, 3, 4]), rng.choice([4, 12, 25]), mk), TailMs=3600000)

# ---------------------------------------------------------------- sequential data types
def o(op, A=0, B=0, C=0, L=None, S=""):
    d = dict(Op=op, A=A, B=B, C=C, S=S)
    if L is not None:
        d["L"] = L
    return d

def heap(rng, ID):
    ops = []
    for _ in range(6):
        pr = rng.choice([2, 3, 10, 1000])
        p = lambda: rng.randrange(pr)
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
        if rng.random() < .5:
            ops.append(o("new", L=[p() for _ in range(n)]))
        else:
            ops.append(o("new", L=[]))
            ops += [o("push", p()) for _ in range(n)]
        for _ in range(rng.randint(0, 40)):
            x = rng.choice(["push", "push", "repush", "popmin", "popmax", "remove", "remove", "update", "update", "len"])
            ops.append(o(x, p() if x in ("push", "repush") else rng.randrange(1000), p()))
            ops += [o("min"), o("max")]
        ops += [o("len"), o("drain", rng.randrange(3)), o("len")]
    return dict(Kind="heap", ID=ID, Ops=ops)

def heap_all(n, prs, chunk=200):
    """Every heap of n items with these priorities, every single change to it, and what comes out then."""
    import itertools
    ops = []
    for vals in itertools.product(range(prs), repeat=n):
        base = [o("new", L=[])] + [o("push", v) for v in vals]
        for i in range(n):
            ops.append(base + [o("remove", i), o("drain", i % 3)])
            for q in range(prs):
                ops.append(base + [o("update", i, q), o("drain", (i + q) % 3)])
    for k in range(0, len(ops), chunk):
        yield dict(Kind="heap", ID="heapall-%d-%d-%d" % (n, prs, k), Ops=[x for y in ops[k:k + chunk] for x in y])

def dlist(rng, ID):
    ops = []
    for _ in range(5):
        ops.append(o("new", rng.randrange(4)))
        for _ in range(rng.randint(1, 30)):
            x = rng.choice(["pushf", "pushb", "pushf", "pushb", "insb", "insa", "remove", "movef", "moveb", "movebef", "moveaft"] + ["pushbl", "pushfl"] * (rng.random() < .2))
            ops.append(o(x, rng.randrange(2), rng.randrange(2) if x in ("pushbl", "pushfl") else rng.randrange(1000), rng.randrange(1000)))
    return dict(Kind="list", ID=ID, Ops=ops)

def pool(rng, ID):
    nt = rng.choice([1, 1, 2, 4])
    thr = []
    for _ in range(nt):
        b = rng.choice([.3, .5, .7])
        thr.append([o("borrow" if rng.random() < b else "release", rng.randrange(100), rng.choice([0, 0, 0, 3])) for _ in range(rng.randint(1, 80))])
    return dict(Kind="pool", ID=ID, N=rng.choice([0, 1, 2, 3, 10]), Flag=rng.choice([0, 1, 1, 2]), Threads=thr, Burst=rng.choice([0, 0, 2000, 20000]))

def fork(rng, ID):
    ops = []
    for _ in range(6):
        ops.append(o("reset"))
        ops.append(o("root", rng.randrange(2), 7))
        for _ in range(rng.randint(1, 14)):
            x = rng.choice(["fork"] * 5 + ["with"] * 3 + ["halt"] * 2 + ["root", "cancel"])
            ops.append(o(x, rng.randrange(100) if x != "root" else rng.randrange(2), rng.randrange(3), rng.randrange(50)))
    return dict(Kind="fork", ID=ID, Ops=ops)

def funcs(rng, ID):
    num = lambda: rng.choice([0, 1, -1, 2, rng.randint(-30000, 30000), rng.randint(-5, 5), rng.randint(0, 9), 32767, -32767])
    nums = []
    for _ in range(rng.randint(3, 12)):
        x = [num() for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 5, 9]))]
        nums.append([abs(v) for v in x] if rng.random() < .4 else [-abs(v) for v in x] if rng.random() < .2 else x)
    maps = [[[rng.randint(0, 8), rng.randint(0, 5)] for _ in range(rng.choice([0, 1, 2, 5, 12]))] for _ in range(rng.randint(1, 6))]
    return dict(Kind="funcs", ID=ID, Nums=nums, Maps=maps)

def store(rng, ID):
    ops = []
    for _ in range(rng.randint(20, 150)):
        x = rng.choice(["put"] * 5 + ["del"] * 3 + ["recv"] * 3 + ["replay", "tocle"] + ["tput"] * 4 + ["tdel"] * 2 + ["tget"] * 2 + ["hash"] +
                       ["sins"] * 4 + ["srem"] * 2 + ["shas", "sitems"] + ["snew"] * (rng.random() < .1))
        A, B, C = rng.randrange(2), rng.randrange(8), rng.randrange(1000)
        S = ""
        if x == "recv":
            S = rng.choice(["", "", "del", "bad"])
        if x == "replay":
            B = rng.randrange(2)
        if x[0] == "t" and x != "tocle":
            B = rng.randrange(rng.choice([3, 10, 100]))
        if x[0] == "s":
            B, C = rng.randrange(9), rng.randrange(4)
        ops.append(o(x, A, B, C, S=S))
    return dict(Kind="store", ID=ID, N=rng.choice([0, 1, 2, 5]), Flag=rng.randrange(2), Ops=ops)

def i64(rng):
    x = rng.random()
    if x < .3:
        return rng.choice([0, 1, -1, 255, 256, -255, -256, -257, 127, 128, -128, -129, 2**15, -2**15, 2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**32, 2**63 - 1, -2**63, -2**63 + 1, 2**56, -2**56])
    if x < .7:
        b = rng.randrange(63)
        return rng.choice([1, -1]) * ((1 << b) + rng.randint(-2, 2)) if b > 2 else rng.randint(-9, 9)
    return rng.randint(-2**63, 2**63 - 1)

def codec(rng, ID):
    ops = []
    for _ in range(80):
        x = rng.choice(["lexo"] * 5 + ["lexobad", "int", "int64", "int32", "string", "byte", "json", "json", "jsonbad", "jsonrec", "jsoncle"])
        c = rng.randrange(12)
        if x == "int32":
            S = str(max(-2**31, min(2**31 - 1, i64(rng) if rng.random() < .7 else i64(rng) >> 32)))
        elif x in ("lexo", "int", "int64"):
            S = str(i64(rng))
        elif x == "jsonbad":
            S = rng.choice(["", "{", "{\"S\":", "[1", "{\"S\":1}", "nul", "{\"I\":\"x\"}", "\x01"])
        else:
            S = rng.choice(["", "a", "\"\\", "<b>&", "\u00e9\u4e2d\U0001f600", "\n\t\u0000\u2028", "x" * 300])
        ops.append(o(x, rng.choice([0, 1, 8, 9, 10, 18]) if x == "lexobad" else rng.randint(-2**31, 2**31 - 1) if x != "jsonbad" else 0, rng.randrange(100), c,
                     L=[rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 50]))], S=S))
    return dict(Kind="codec", ID=ID, Ops=ops)

def text(rng, big=True):
    x = rng.random()
    if x < .2:
        return ""
    if x < .7:
        return rng.choice("abcdefgh") * rng.randint(1, 4)
    if x < .97 or not big:
        return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789 ,;:_") for _ in range(rng.randint(1, 40)))
    return "".join(rng.choice("xyz") for _ in range(rng.choice([100, 1000, 3000, 9000])))

def rec_ops(rng, via):
    ops = []
    def ro(Op, A="", B="", N=0):
        ops.append(dict(Op=Op, A=A, B=B, N=N))
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6, 8])):
        x = rng.choice(["wk", "wks", "kw", "k", "ks", "wv", "wvs", "vw", "v", "none", "h", "h", "hnil", "type"])
        if x in ("h", "hnil"):
            ro(x, rng.choice(["a", "b", "zz", "", "long-header-name"]), text(rng, False) if x == "h" else "")
        elif x == "type":
            ro(x, rng.choice(["A", "B", "my.type", ""]))
        else:
            ro(x, text(rng), text(rng) if rng.random() < .3 else "")
    if via not in ("chg", "dropcle"):
        if via == "fwd" or rng.random() < .6:
            ro("topic", rng.choice(["t0", "t1", "t2"]))
        if rng.random() < .35:
            ro("part", N=rng.choice([-1, 0, 0, 1, 1]))
    rng.shuffle(ops)
    return ops

def record(rng, ID):
    parts = rng.choice([1, 1, 2, 3])
    vias = rng.sample(["fwd", "chg", "prod", "conv", "drop", "dropcle", "sync", "batch"], rng.randint(2, 8)) + ["fwd"]
    rounds = []
    for _ in range(rng.randint(1, 4)):
        rnd = []
        for _ in range(rng.randint(1, 12)):
            hs = [[rng.choice(["a", "b", "zz"]), text(rng, False)] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            if rng.random() < .1:
                hs.append(["a", "", 1])
            if rng.random() < .4:
                hs.insert(rng.randint(0, len(hs)), ["__grt__", rng.choice(["T", "", "some.type"])])
            recs = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                via = rng.choice(vias)
                recs.append(dict(Via=via, Ops=rec_ops(rng, via)))
            hs = [[str(x) for x in h] for h in hs]
            rnd.append(dict(P=rng.randrange(parts), Key=rng.choice([None, "", text(rng)]), Val=rng.choice([None, "", text(rng)]), Hdrs=hs, Recs=recs))
        rounds.append(rnd)
    return dict(Kind="record", ID=ID, Custom=rng.random() < .4, Parts=parts, Rounds=rounds)

def producer(rng, ID):
    bad = rng.random() < .35    # records that cannot be produced
    faults = []
    if rng.random() < .55:
        for _ in range(rng.randint(1, 4)):
            f = dict(Op="fault", API=rng.choice(["Produce"] * 5 + ["Metadata", "InitProducerID"]), Nth=rng.randint(1, 12), Count=rng.choice([1, 1, 2, 4]))
            x = rng.random()
            if x < .3:
                f["Drop"] = rng.choice(["pre", "post"])
            elif x < .6:
                f["Ms"] = rng.choice([50, 500, 3000])
            elif f["API"] == "Produce":
                f["Err"] = rng.choice([7, 6, 5, 10, 29, 87, 2, 56])
            else:
                f["Drop"] = "pre"
            faults.append(f)
    if any(f.get("Drop") == "post" for f in faults):
        # a broker that has stored a batch does not refuse it afterwards
        faults = [f for f in faults if "Err" not in f]
    def r(batch):
        return dict(Topic=rng.choice(["", "", "t0", "t1"] + ["nope"] * (bad and rng.random() < .4)), Part=rng.choice([-1, -1, -1, 0] + [7] * (bad and rng.random() < .4)),
                    Key=rng.choice(["", "a", "b", "c", "d"]), Size=rng.choice([0, 1, 10, 100] + [2000000] * (bad and rng.random() < .1)),
                    Cancel=0 if batch or not bad else rng.choice([0, 0, 0, -1, 1, 5, 20, 200]))
    thr = []
    only = rng.choice([None, None, "batch", "async"])
    for _ in range(rng.choice([1, 2, 4])):
        ops = []
        for _ in range(rng.randint(1, 12)):
            x = only or rng.choice(["sync", "async", "async", "nilcb", "batch", "batch", "sleep"])
            if x == "sleep":
                ops.append(dict(Op=x, Ms=rng.choice([1, 5, 6, 30, 1000])))
            else:
                k = rng.choice([0, 1, 2, 3, 10]) if x == "batch" else rng.randint(1, 4)
                ops.append(dict(Op=x, R=[r(x == "batch") for _ in range(k)], Nil=rng.random() < .2, Inc=rng.random() < .2))
        thr.append(ops)
    lat = rng.choice([(0, 0), (0, 0), (1, 30), (10, 100)])
    return dict(Kind="producer", ID=ID, Seed=rng.randrange(10**6), Brokers=rng.choice([1, 3]), LatMin=lat[0], LatMax=lat[1], Faults=faults, Threads=thr,
                Slow=rng.choice([0, 0, 2, 50]), Close=rng.choice([0, 0, 0, 1, 4, 8, 100]), Default=rng.choice(["t0", "t0", "t1"]))

# ---------------------------------------------------------------- the incremental rebalancer
def _plan_state(rng, n):
    k = rng.choice([1, 2, 2, 3, 4, 6])
    g = [dict(M="m%d" % i, St=rng.choice([0, 0, 0, 1, 2]), Left=rng.choice([0, 1, 2, 1000]), Own=[], Prep=[], Ready=[], UD="") for i in range(k)]
    odd = rng.random() < .15
    pr = rng.choice([0, .1, .1, .4])
    for p in range(n):
        for m in rng.sample(g, min(k, rng.choice([0, 1, 1, 1, 1, 1] + [2] * odd))):
            m["Own"].append(p)
        if rng.random() < pr:
            rng.choice(g)[rng.choice(["Prep", "Ready"])].append(p)
    for m in g:
        if rng.random() < .08:
            m.update(UD=rng.choice(["none", "garbage"]), Prep=[], Ready=[])
        rng.shuffle(m["Own"])
    rng.shuffle(g)
    return dict(Op="plan", G=g)

def balplan(rng, ID):
    n = rng.choice([1, 2, 3, 5, 8, 20])
    return dict(Kind="balance", ID=ID, Parts=n, Ops=[_plan_state(rng, n) for _ in range(25)])

def balance(rng, ID):
    n = rng.choice([1, 2, 3, 4, 5, 8, 13])
    ops, names, nxt = [], [], 0
    calm = rng.random() < .2      # few operations, so that the group gets far in between
    for _ in range(rng.randint(3, 25)):
        x = rng.random()
        if not names or x < .2 and nxt < 7:
            names.append("m%d" % nxt)
            nxt += 1
            ops.append(dict(Op="join", M=names[-1]))
        elif x < .26:
            ops.append(dict(Op="crash", M=rng.choice(names)))
        elif x < .36:
            ops.append(dict(Op="leave", M=rng.choice(names)))
        elif x < .5:
            ops.append(dict(Op="prepared", M=rng.choice(names)))
        elif x < .55:
            ops.append(dict(Op="failed", M=rng.choice(names)))
        elif x < .62:
            ops.append(dict(Op="sleep", Ms=rng.choice([1, 100, 1500])))
        elif x < .85:
            d = dict(Op="reb", N=rng.choice([0, 0, 1, 3]), Leader=rng.randrange(7))
            if rng.random() < .15:
                d["Miss"] = [rng.choice(names)]
            if rng.random() < .1:
                d["Crash"] = [rng.choice(names)]
            ops.append(d)
        else:
            ops.append(dict(Op="cycle", N=rng.randint(1, 30), Leader=rng.randrange(7)))
        if calm:
            ops.append(dict(Op="cycle", N=rng.randint(1, 15), Leader=rng.randrange(7)))
    return dict(Kind="balance", ID=ID, Parts=n, Ops=ops)

def balplan_all(k, n):
    """Every group state with k members and n partitions (at most one owner, at most one member preparing or ready)."""
    import itertools
    per = [(own, sch) for own in range(-1, k) for sch in [None] + [(m, f) for m in range(k) for f in ("Prep", "Ready")]]
    ops, i = [], 0
    for sts in itertools.product((0, 1), repeat=k):
        for st in itertools.product(per, repeat=n):
            g = [dict(M="m%d" % m, St=sts[m], Left=m, Own=[], Prep=[], Ready=[], UD="") for m in range(k)]
            for p, (own, sch) in enumerate(st):
                if own >= 0:
                    g[own]["Own"].append(p)
                if sch:
                    g[sch[0]][sch[1]].append(p)
            ops.append(dict(Op="plan", G=g))
            if len(ops) == 120:
                yield dict(Kind="balance", ID="balall-%d-%d-%d" % (k, n, i), Parts=n, Ops=ops)
                ops, i = [], i + 1
    if ops:
        yield dict(Kind="balance", ID="balall-%d-%d-%d" % (k, n, i), Parts=n, Ops=ops)

# ---------------------------------------------------------------- topics
def topics(rng, ID):
    brokers, split = rng.choice([1, 2, 3, 3]), rng.random() < .4
    ops = []
    for i in range(rng.randint(2, 6)):
        x = rng.random()
        topic, group, store = "t%d" % i, "g%d" % i, rng.choice(["", "", "store%d" % i])
        o = dict(Op="source", Group=group, Topic=topic, Store=store, N=rng.choice([0, 1, 1, 2, 3, 7, -1]), RF=rng.choice([0, 0, 1, 1, 2, 3, -1, 4]),
                 Min=rng.choice([0, 0, 1, 2, 3, 5, -1]), Commit=rng.choice([0, 0, 1, 3, 8, -2]), Pre=[], Race=[], Faults=[])
        if x < .25:
            o["Op"] = "dest"
        elif x < .33:
            o.update(Op="eoscfg", N=1, RF=1, Min=0, Commit=1, Pool=rng.choice([0, 1, 1, 2, -1]), Pending=rng.choice([0, 1, 1, 2, -1]), Target=rng.choice([0, 1, 1, 5, 6, -1]),
                     Max=rng.choice([0, 1, 5, 5, -1]), DelayUs=rng.choice([0, 999, 1000, 1000, 10000, -5]))
            if rng.random() < .3:
                o.update(Pool=2, Pending=1, Target=3, Max=3, DelayUs=1000)
                o.update(rng.choice([dict(Pool=0), dict(Pending=0), dict(Target=0), dict(Max=2), dict(DelayUs=999), dict(Pool=-1), dict(Max=0, Target=0), dict(Pool=0, Pending=0, Target=0, Max=0)]))
            ops.append(o)
            continue
        if rng.random() < .06 and o["Op"] == "source":
            o.update(rng.choice([dict(Group=""), dict(Topic=""), dict(NoCluster=True)]))
        elif rng.random() < .05:
            o["Topic"] = ""
        log, chg = "gkes_commit_log_" + o["Group"], store or "gkes_change_log_%s_%s" % (o["Topic"], o["Group"])
        sn = rng.choice([1, 2, 3, 7])
        def d(name, st, n=None):
            return dict(Topic=name, N=n or rng.choice([1, 2, 3, 7]), RF=rng.randint(1, brokers), State=st)
        for l in ("Pre", "Race"):
            pr = .35 if l == "Pre" else rng.choice([0, 0, 0, 0, .4])
            if o["Topic"] and rng.random() < pr:
                o[l].append(d(topic, False, sn))
            if o["Op"] == "source" and o["Group"]:
                if rng.random() < pr:
                    o[l].append(d(log, True))
                if rng.random() < pr:
                    o[l].append(d(chg, True, rng.choice([sn, sn, None])))
        if rng.random() < .2:
            o["Pre"].append(d("other%d" % i, rng.random() < .5))
        if rng.random() < .35:
            api = rng.choice(["CreateTopics", "CreateTopics", "Metadata"])
            f = dict(Op="fault", API=api, Nth=rng.randint(1, 3), Count=rng.choice([1, 1, 2, 100]))
            if rng.random() < .4:
                f.update(Drop=rng.choice(["pre", "post"]), Count=rng.choice([1, 2]))
            else:
                f["Err"] = rng.choice([44, 38, 29, 40]) if api == "CreateTopics" else rng.choice([29, 5, 17])
            o["Faults"].append(f)
        ops.append(o)
    return dict(Kind="topics", ID=ID, Brokers=brokers, Split=split, Ops=ops)

def eoscfgs(rng, ID):
    """Invalid configurations, valid ones and the unset one."""
    ops = []
    for i in range(8):
        o = dict(Op="eoscfg", Group="g%d" % i, Topic="t%d" % i, Store="", N=1, RF=1, Min=0, Commit=1, Pre=[], Race=[], Faults=[], Pool=2, Pending=1, Target=3, Max=5, DelayUs=1000)
        for f in rng.sample(["Pool", "Pending", "Target", "Max", "DelayUs"], rng.choice([0, 1, 1, 1, 2])):
            o[f] = rng.choice([0, -1, 1, 3, 5, 6, 999])
        if rng.random() < .15:
            o.update(Pool=0, Pending=0, Target=0, Max=0, DelayUs=0)
            if rng.random() < .5:
                o[rng.choice(["Pool", "Pending", "Target", "Max", "DelayUs"])] = rng.choice([1, 2000])
        ops.append(o)
    return dict(Kind="topics", ID=ID, Brokers=1, Split=False, Ops=ops)

# ---------------------------------------------------------------- global change logs
def gcl(rng, ID):
    parts = rng.choice([1, 1, 2, 3])
    ops, open_, started, stopped, paused = [], set(), False, False, set()
    o = lambda op, **kw: ops.append(dict(Op=op, **kw))
    wstop, wpause = rng.choice([0, 0, .02]), rng.choice([0, .1, .2])
    for _ in range(rng.randint(5, 45)):
        x, p = rng.random(), rng.randrange(parts)
        if not started and x < .3:
            o("start")
            started = True
        elif x < .25:
            o("produce", P=p, N=rng.choice([1, 1, 3, 10]))
        elif x < .4:
            t = rng.randrange(3)
            o("write", T=t, P=p, N=rng.choice([1, 2, 5]))
            open_.add(t)
        elif x < .55 and open_:
            t = rng.choice(sorted(open_))
            open_.discard(t)
            o(rng.choice(["commit", "commit", "abort"]), T=t)
        elif x < .58:
            o("gap", P=p, N=rng.choice([1, 3, 20]))
        elif x < .58 + wpause:
            if rng.random() < .25:
                o("pauseall")
                paused = set(range(parts))
            else:
                o("pause", P=p)
                paused.add(p)
        elif paused and x < .58 + 2 * wpause:
            p = rng.choice(sorted(paused))
            paused.discard(p)
            o("resume", P=p, F=rng.choice([0, 0, .3, .5, .8, 1, 1]))
        elif x > 1 - wstop:
            o("stop")
        else:
            o("sleep", Ms=rng.choice([1, 1, 5, 20, 100, 700, 2500, 6000]))
    if not started:
        o("start")
    for p in sorted(paused):
        if rng.random() < .5:
            o("resume", P=p, F=rng.choice([0, .5, 1]))
    faults = []
    if rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            f = dict(Op="fault", API=rng.choice(["Fetch", "Fetch", "Fetch", "Metadata", "ListOffsets"]), Nth=rng.randint(1, 8), Count=rng.choice([1, 2, 4]))
            y = rng.random()
            if y < .3:
                f["Drop"] = rng.choice(["pre", "post"])
            elif y < .4 or f["API"] != "Fetch":
                f["Ms"] = rng.choice([50, 500, 3000])
            else:
                f["Err"] = rng.choice([6, 5, 9, 56, 29, 29, -1])
                f["Part"] = rng.choice([0, rng.randint(1, parts)])
            faults.append(f)
    lat = rng.choice([(0, 0), (0, 0), (1, 30), (10, 100)])
    return dict(Kind="gcl", ID=ID, Seed=rng.randrange(10**6), Parts=parts, Brokers=rng.choice([1, 1, 3]), LatMin=lat[0], LatMax=lat[1], Faults=faults,
                Slow=rng.choice([0, 0, 2, 20, 300]), Err=rng.choice([0, 0, 1, 3]), FetchBytes=rng.choice([0, 0, 100, 500]), Ops=ops, TailMs=120000)

def gclpart(rng, ID):
    """Fetches in which one partition has an error and others have records."""
    parts = rng.choice([2, 3])
    ops, o = [], None
    if rng.random() < .5:
        ops.append(dict(Op="start"))
    for _ in range(rng.randint(3, 12)):
        for p in rng.sample(range(parts), rng.randint(1, parts)):
            ops.append(dict(Op="produce", P=p, N=rng.choice([1, 2, 4])))
        if rng.random() < .2 and not any(x["Op"] == "start" for x in ops):
            ops.append(dict(Op="start"))
        ops.append(dict(Op="sleep", Ms=rng.choice([1, 20, 100, 700])))
    if not any(x["Op"] == "start" for x in ops):
        ops.append(dict(Op="start"))
    faults = [dict(Op="fault", API="Fetch", Nth=rng.randint(1, 6), Count=rng.choice([1, 3, 10]), Err=rng.choice([29, 29, -1, 6]), Part=rng.randint(1, parts))
              for _ in range(rng.choice([1, 2]))]
    return dict(Kind="gcl", ID=ID, Seed=rng.randrange(10**6), Parts=parts, Brokers=rng.choice([1, 1, 2]), LatMin=rng.choice([0, 5]), LatMax=rng.choice([10, 60]),
                Faults=faults, Slow=rng.choice([0, 0, 20]), Err=0, FetchBytes=0, Ops=ops, TailMs=120000)

def msk(rng, ID):
    """An MSK cluster: what is asked of AWS, and the connections made with the options."""
    auth = rng.randrange(7)
    kinds = ["", "Tls", "SaslScram", "SaslIam", "PublicTls", "PublicSaslScram", "PublicSaslIam"]
    name = rng.choice(["orders", "a", "my-cluster-1", "Cluster.x"])
    others = [name + "-dev", name + "2", name[:-1] or "b", "zz", name.swapcase(), name + name]
    cl = [dict(Name=x, Arn="arn:aws:kafka:%s:1:cluster/%s/%d" % (rng.choice(["us-east-1", "eu-west-3"]), x, i)) for i, x in
          enumerate(rng.sample([x for x in others if x != name], rng.choice([0, 1, 2, 5])))]
    if rng.random() < .93:
        cl.insert(rng.randint(0, len(cl)), dict(Name=name, Arn="arn:aws:kafka:us-east-1:1:cluster/%s/x-%d" % (name, rng.randrange(99)), NoArn=rng.random() < .04))
    default = rng.random() < .2
    user = auth in (2, 5)
    ks = {k: rng.choice([1, 2, 3]) for k in kinds if rng.random() < .7}
    if rng.random() < .93:
        ks[kinds[auth]] = rng.choice([1, 2, 3])
    tls = auth in (1, 4) or rng.random() < (.2 if auth == 0 else .7)
    ops = []
    o = lambda op, **kw: ops.append(dict(Op=op, **kw))
    codes = ["ForbiddenException", "NotFoundException", "BadRequestException", "InternalServerErrorException", "ServiceUnavailableException", "TooManyRequestsException", "net"]
    retry, nopt = rng.random() < .04, rng.choice([0, 0, 1, 2])
    for _ in range(rng.choice([0, 0, 1, 2])):
        for _ in range(rng.choice([1, 1, 2])):
            if not default and rng.random() < .2:
                o("credfail")
            else:
                o("fault", What=rng.choice(["list", "boot"]), N=rng.choice([1, 1, 2]), Err=rng.choice(codes))
        o("config") if rng.random() < .7 else o("confign", N=rng.choice([2, 4]))
        if rng.random() < .7:
            o("clear")
            o("credok")
            if rng.random() < .5:
                o("connect", New=True)
    o("clear")
    o("credok")
    o("config") if rng.random() < .7 else o("confign", N=rng.choice([2, 4]))
    for _ in range(rng.choice([1, 2, 3, 5])):
        x = rng.random()
        if x < .3 and not default:
            o("rotate")
        elif x < .4 and not default:
            o("credfail")
        elif x < .5:
            o("credok")
        elif x < .6:
            o("config")
        o("connect", New=rng.random() < .4)
    return dict(Kind="msk", ID=ID, Name=name, Auth=auth, Region=rng.choice(["us-east-1", "eu-west-3", "ap-south-1"]), Default=default,
                EnvReg=rng.choice(["", "", "us-west-2"]) if default else "", Tls=tls, Cert=rng.choice(["app", "other", ""]) if tls and auth not in (1, 4) else ("app" if tls else ""),
                User=rng.choice(["super", "a,b=c", "u"]) if user else "", Pass=rng.choice(["secret", "p,=x", "0"]) if user else "", Token=rng.random() < .5,
                Cached=not default and rng.random() < .3, Clusters=cl, Page=rng.choice([1, 2, 10]), Kinds=ks, Retry=retry,
                Options=nopt, Over=nopt > 0 and rng.random() < .4, Ops=ops)

def schedhot(rng, ID):
    """Many callers add jobs without any work to a few keys whose queues are always full or empty."""
    keys = rng.choice([1, 1, 2])
    sp = rng.choice([0, 0, 2])
    # with pauses, every burst has an end which nobody else repairs
    pause = rng.choice([0, 2, 2, 3, 5])
    threads = [[dict(Op="sched", K=rng.randrange(keys), D=0, Err=0, Spin=sp) if not pause or i % pause else dict(Op="sleep", Ms=1) for i in range(60)] for _ in range(rng.choice([2, 4, 4, 6]))]
    return dict(Kind="sched", ID=ID, Seed=rng.randrange(1 << 30), Conc=rng.choice([2, 4, 8]), Depth=rng.choice([0, 1, 2]), MaxKeys=5, CompCap=rng.choice([0, 0, 5]), CompMs=0,
                Final=0, FinIncomplete=0, Threads=threads, Ctl=[], TailMs=3600000)
