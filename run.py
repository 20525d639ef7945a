#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [quick|thorough]
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, checks

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    rc = 2
    try:
        checks.CHECKS[prop](ctx)
        rc = 1 if ctx.viol else 0
    except core.Machinery as e:
        core.log("MACHINERY: %s" % e)
        os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(core.ROOT, "evidence", "machinery-%s.log" % prop), "a") as f:
            f.write("%s\n" % e)
        if ctx.viol:
            rc = 1
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            rc = 1
    finally:
        ctx.close()
    if rc == 2:
        return 2
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(ctx.cov, **ctx.extra), wall_s=round(time.time() - ctx.t0, 1),
              assumptions=ctx.assumptions or checks.ASSUME,
              violations=[dict(what=w, replay=p) for w, p in ctx.viol])
    d = os.path.join(core.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w, p in ctx.viol[:5]:
        core.log("VIOLATION property=%s replay=%s" % (prop, p))
        core.log("  " + w)
    c = ctx.cov
    core.log("%s %s seed=%d: %d states, %d transitions, %d histories of the real code, %d violations, %.1f s" % (
        prop, tier, seed, c["states"], c["transitions"], c["traces_validated_against_impl"], len(ctx.viol), time.time() - ctx.t0))
    return rc

sys.exit(main())
