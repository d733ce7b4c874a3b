#!/usr/bin/env python3
"""Runs the check of one property: run_check.py <property> [--replay FILE] | setup"""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "runner"))
sys.dont_write_bytecode = True
import common
import plans
from common import Inconclusive, Violation


class Ctx:
    pass


def write_evidence(ctx, cov, assumptions, violations):
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=violations)
    path = os.path.join(common.VERIF, "evidence", ctx.prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        plans.setup()
        return 0
    ctx = Ctx()
    ctx.t0 = time.time()
    ctx.prop = sys.argv[1]
    ctx.seed = int(os.environ.get("VERIF_SEED", "1") or "1") & (2 ** 63 - 1)
    ctx.tier = os.environ.get("VERIF_TIER", "quick")
    if ctx.tier not in ("quick", "thorough"):
        ctx.tier = "quick"
    ctx.replay = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as fh:
            ctx.replay = json.load(fh)
        ctx.seed = ctx.replay["seed"]
        ctx.tier = ctx.replay["tier"]
    ctx.reports = []
    ctx.extra = {}
    ctx.samples = []
    ctx.assumptions = []
    violation = None
    try:
        plans.run(ctx)
    except Violation as v:
        violation = v
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (ctx.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s error in the check itself" % ctx.prop)
        return 2

    distinct = set()
    counters = {}
    for rep in ctx.reports:
        distinct |= rep["distinct"]
        for k, v in rep["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for a in rep["assumptions"]:
            if a not in ctx.assumptions:
                ctx.assumptions.append(a)
    evals = sum(r["evaluations"] for r in ctx.reports) + ctx.extra.pop("evaluations", 0)
    nd = len(distinct) + ctx.extra.pop("distinct", 0)
    rule = "; ".join([r for r in {rep["rule"] for rep in ctx.reports} if r] + [ctx.extra.pop("rule", "")]).strip("; ")
    samples = [s for rep in ctx.reports for s in rep["samples"]][:20] + ctx.samples[:20]
    cov = dict(evaluations=evals, distinct_nontrivial=nd, rule=rule, samples=samples, counters=counters,
               shards=["%s %d/%d: %.1fs" % (r["profile"], r["shard"], r["nshards"], r["wall_s"]) for r in ctx.reports],
               truncated=any(r["truncated"] for r in ctx.reports))
    cov.update(ctx.extra)
    if violation is None and (evals == 0 or nd == 0):
        print("INCONCLUSIVE property=%s nothing was observed" % ctx.prop)
        return 2
    write_evidence(ctx, cov, ctx.assumptions, 0 if violation is None else 1)
    if violation is None:
        print("HELD property=%s evaluations=%d distinct=%d wall=%.1fs" % (ctx.prop, evals, nd, time.time() - ctx.t0))
        return 0
    for rx, what in common.known_findings(ctx.prop):
        if rx.search(violation.message):
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, what))
            return 0
    os.makedirs(os.path.join(common.VERIF, "replays"), exist_ok=True)
    replay = os.path.join(common.VERIF, "replays", "%s-%s-%d.json" % (ctx.prop, ctx.tier, ctx.seed))
    body = dict(property=ctx.prop, seed=ctx.seed, tier=ctx.tier, message=violation.message)
    body.update(violation.replay)
    body["command"] = "python3 run_check.py %s --replay %s" % (ctx.prop, replay)
    with open(replay, "w") as fh:
        json.dump(body, fh, indent=1)
    print(violation.message[:2000])
    print("VIOLATION property=%s replay=%s" % (ctx.prop, replay))
    return 1


if __name__ == "__main__":
    sys.exit(main())
