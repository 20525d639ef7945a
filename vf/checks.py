"""What each property's check does."""
from . import core, eosgen, gens

ASSUME = ["The stand-in cluster (harness/broker) behaves like Kafka for the requests the code sends.",
          "A crashed consumer stops communicating with the cluster."]

CHECKS = {}

def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco

def n(ctx, quick, thorough=None):
    return (thorough or quick * 15) if ctx.thorough else quick

def eos(ctx, *gens):
    """gens: (number of scenarios, generator)"""
    scns = []
    for k, (num, gen) in enumerate(gens):
        r = ctx.rng("eos", k)
        scns += [gen(r, "%s-%d" % (gen.__name__, i)) for i in range(n(ctx, num))]
    core.conformance(ctx, "EosTrace", ctx.build(), scns, confirm=True)

def eos_check(prop, *gens):
    CHECKS[prop] = lambda ctx: (pipeline(ctx), eos(ctx, *gens))

# ---------------------------------------------------------------- the model of the mechanism, explored exhaustively
PIPE = dict(P=1, N=2, K=2, Q=1, Max=2, Async=True, Ms=1, Fate="", Move=False, Bug="none")
CRASH, FAIL, MOVE = dict(Ms=2, Fate="crash"), dict(Ms=2, Fate="fail"), dict(Ms=2, Move=True)
SIZES = {   # property: (quick, thorough)
    "C01": ([dict(CRASH, Async=False)], [CRASH, dict(CRASH, Move=True), dict(CRASH, N=3, Async=False), dict(CRASH, P=2, N=1, Async=False)]),
    "C02": ([dict(P=2, N=1), dict(CRASH, N=1)], [CRASH, dict(P=2), dict(CRASH, P=2, N=1)]),
    "C03": ([dict(N=3, K=3)], [dict(N=4, K=3), dict(P=2), dict(P=2, K=3, Max=3, Async=False), dict(N=4, K=4, Q=2, Max=1)]),
    "C04": ([dict(N=3)], [dict(N=4), dict(P=2), dict(N=4, Max=3)]),
    "C05": ([MOVE], [dict(MOVE, P=2, Async=False), dict(MOVE, N=3), dict(MOVE, N=4, K=3), dict(CRASH, Move=True)]),
    "C07": ([FAIL], [dict(FAIL, N=3), dict(FAIL, P=2, N=1), dict(FAIL, Move=True)]),
    "C08": ([dict(N=3, K=3, Max=1)], [dict(N=4, K=3, Max=2), dict(P=2, K=3, Max=3, Async=False), dict(N=5, K=3, Q=2, Max=2, Async=False)]),
}
DEFECTS = {
    "C01": [dict(CRASH, Bug="unread")], "C02": [dict(Bug="noflush"), dict(Bug="offset")], "C03": [dict(N=3, K=3, Bug="heir"), dict(N=3, K=3, Bug="clear")],
    "C04": [dict(Bug="early"), dict(Bug="newest")], "C05": [dict(MOVE, Bug="handoff")],
}
REST = dict(N=2, K=2, Ms=2, Moves=1, Preps=1, Crash=True, Compact="no", Bug="none")
SCHED = dict(Callers=2, Jobs=4, Keys=2, Conc=2, Depth=2, MaxKeys=1, Bug="none")
BATCH = dict(Callers=1, Batches=3, Keys=2, Execs=2, Max=2, Sizes=2, Mixed=False, Bug="none")
GROUP = dict(M=3, P=4, Start=1, Joins=1, Leaves=1, Crashes=1, Fails=1, Bug="none")
BALANCE = [("BalanceModel", GROUP, [dict(P=2), dict(Start=2, Leaves=0, Fails=0)],
            [dict(), dict(Joins=2), dict(P=3, Start=2), dict(P=5, Start=3), dict(M=4, P=5, Start=3, Crashes=0, Fails=0), dict(M=4, P=3, Start=3, Fails=0)],
            [dict(Bug=b) for b in ("unready", "many", "eager", "noforget", "second", "silent")] +
            [dict(Start=2, Leaves=0, Fails=0, Bug="passby"), dict(P=5, Joins=2, Leaves=0, Crashes=0, Fails=0, Bug="rest"),
             dict(Joins=2, Leaves=0, Fails=0, Bug="budget")])]
PROPERTIES = {"BalanceModel": ("Ends",)}    # of the models which have some beside the invariants
MODELS = {  # property: (model, constants, quick, thorough, defects) of further models
    "C06": [("EosRestore", REST, [dict(K=1, Moves=0, Compact="changes"), dict(Crash=False)],
             [dict(), dict(N=3, Compact="changes"), dict(N=3, Moves=0, Preps=2, Compact="changes"), dict(N=4, K=2, Compact="changes"),
              dict(Ms=3, Moves=0, Preps=2)],
             [dict(N=3, Bug=b) for b in ("dirty", "stale", "keep", "nomark", "unread", "resume", "late")] + [dict(Crash=False, Compact="marks")])],
    "C09": [("SchedModel", SCHED, [dict(), dict(Callers=3, Keys=3, MaxKeys=2)],
             [dict(Jobs=5), dict(Callers=3, Jobs=5, Conc=1), dict(Jobs=5, Keys=3, MaxKeys=2), dict(Callers=3, Jobs=5, Keys=3, MaxKeys=2)],
             [dict(Bug=b) for b in ("twice", "orphan", "drop", "early")] + [dict(Keys=3, Conc=1, Bug=b) for b in ("nolimit", "nosignal")])],
    "C10": [("BatcherModel", BATCH, [dict(Execs=1, Mixed=True), dict(Callers=2)],
             [dict(Batches=4), dict(Callers=2, Execs=1, Max=3, Sizes=3), dict(Callers=2, Mixed=True)],
             [dict(Bug=b) for b in ("split", "notimer", "count", "reals", "flush")])],
    "C12": BALANCE, "C13": BALANCE,
}
def models(ctx):
    for module, base, quick, deep, defects in MODELS.get(ctx.prop, []):
        for c in deep if ctx.thorough else quick:
            core.model_check(ctx, module, dict(base, **c), timeout=800 if ctx.thorough else 60, props=PROPERTIES.get(module, ()))
        for c in defects if ctx.thorough else []:
            core.model_check(ctx, module, dict(base, **c), broken=True, props=PROPERTIES.get(module, ()))

def pipeline(ctx):
    for c in SIZES.get(ctx.prop, ([], []))[1 if ctx.thorough else 0]:
        core.model_check(ctx, "EosPipeline", dict(PIPE, **c), timeout=800 if ctx.thorough else 60)
    if ctx.thorough:
        for c in DEFECTS.get(ctx.prop, []):
            core.model_check(ctx, "EosPipeline", dict(PIPE, **c), broken=True)
    models(ctx)

g, h = eosgen, gens
eos_check("ALL", (120, g.mixed))
eos_check("C01", (150, g.mixed), (40, g.c06), (30, g.fetcherr), (1, g.many))
eos_check("C02", (150, g.c02), (40, g.c07), (20, g.c14few))
eos_check("C03", (150, g.c03))
eos_check("C04", (150, g.c04))
eos_check("C05", (150, g.c05), (40, g.kick))
eos_check("C06", (140, g.c06), (20, g.kick), (40, g.fetcherr), (40, g.c06race), (24, g.c06back))
eos_check("C07", (150, g.c07), (10, g.c07lost), (24, g.c07late))
def c08(ctx):
    pipeline(ctx)
    eos(ctx, (100, g.c08), (60, g.c08lone), (40, g.c08tail))
    core.conformance(ctx, "TopicsTrace", ctx.build(), [h.eoscfgs(ctx.rng("eoscfgs", i), "eoscfgs-%d" % i) for i in range(n(ctx, 30))])
CHECKS["C08"] = c08
eos_check("C14", (90, g.c14), (20, g.c14clock), (50, g.c14move), (24, g.c14few))
eos_check("C15", (150, g.c15))
eos_check("C16", (150, g.c16))
eos_check("C17", (140, g.c17), (20, g.kick), (32, g.c17prep))
eos_check("C24", (120, g.c24))
eos_check("C26", (120, g.c26))

def simple(prop, module, *gens, crowded=None):
    """Scenarios of one kind against one trace specification. gens: (number, generator).
    crowded: (number, generator) of scenarios of which many run at once, so that threads are interrupted at odd places."""
    def f(ctx):
        scns = []
        for k, (num, gen) in enumerate(gens):
            r = ctx.rng(gen.__name__, k)
            scns += [gen(r, "%s-%d" % (gen.__name__, i)) for i in range(n(ctx, num))]
        core.conformance(ctx, module, ctx.build(), scns)
        if crowded:
            r = ctx.rng(crowded[1].__name__)
            core.conformance(ctx, module, ctx.build(), [crowded[1](r, "%s-%d" % (crowded[1].__name__, i)) for i in range(n(ctx, crowded[0]))], par=32)
    CHECKS[prop] = f

simple("C09", "SchedTrace", (440, h.sched), (80, h.schedgrow), crowded=(160, h.schedhot))
simple("C10", "BatcherTrace", (480, h.batch), (24, h.batchbig))
def with_models(prop):
    f = CHECKS[prop]
    CHECKS[prop] = lambda ctx: (models(ctx), f(ctx))
with_models("C09")
with_models("C10")
def c21(ctx):
    scns = [h.heap(ctx.rng("heap", i), "heap-%d" % i) for i in range(n(ctx, 250, 6000))]
    for k, p in ((1, 2), (2, 3), (3, 3), (4, 3)) + (((5, 3), (6, 3), (7, 2)) if ctx.thorough else ((5, 2), (6, 2))):
        scns += list(h.heap_all(k, p))
    core.conformance(ctx, "HeapTrace", ctx.build(), scns)
CHECKS["C21"] = c21
simple("C20", "StoreTrace", (400, h.store))
simple("C11", "ProducerTrace", (400, h.producer))
simple("C19", "RecordTrace", (300, h.record))
simple("C22", "CodecTrace", (300, h.codec))

def c27(ctx):
    for mod, gen, k in (("DListTrace", h.dlist, 250), ("PoolTrace", h.pool, 250), ("ForkTrace", h.fork, 200), ("FuncsTrace", h.funcs, 100)):
        core.conformance(ctx, mod, ctx.build(), [gen(ctx.rng(mod, i), "%s-%d" % (gen.__name__, i)) for i in range(n(ctx, k))])
CHECKS["C27"] = c27

def c12(ctx):
    models(ctx)
    scns = [h.balance(ctx.rng("balance", i), "balance-%d" % i) for i in range(n(ctx, 150, 4000))]
    scns += [h.balplan(ctx.rng("balplan", i), "balplan-%d" % i) for i in range(n(ctx, 60, 1500))]
    for k, p in ((1, 2), (2, 2), (3, 2)) + (((2, 3), (4, 2)) if ctx.thorough else ()):
        scns += list(h.balplan_all(k, p))
    core.conformance(ctx, "BalanceTrace", ctx.build(), scns)
CHECKS["C12"] = c12

def c13(ctx):
    models(ctx)
    core.conformance(ctx, "BalanceTrace", ctx.build(), [h.balance(ctx.rng("balance", i), "balance-%d" % i) for i in range(n(ctx, 300))])
    eos(ctx, (80, g.c13), (60, g.c13leave))
CHECKS["C13"] = c13

simple("C18", "TopicsTrace", (300, h.topics))
simple("C25", "GclTrace", (280, h.gcl), (60, h.gclpart))

def c23(ctx):
    core.conformance(ctx, "MskTrace", ctx.build("msk", mod="mskharness"), [h.msk(ctx.rng("msk", i), "msk-%d" % i) for i in range(n(ctx, 250))])
CHECKS["C23"] = c23
