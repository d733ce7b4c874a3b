"""What each check runs."""
import os
import common
import estim
import lpn
import progs
import supmat
from common import Inconclusive, Violation

# Properties decided entirely by the harness binary.
HARNESS_PROPS = {f"C{i:02d}" for i in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 26)}

# Of these, the ones that also run the repository's programs.
NEED_BINS = {"C21"}


def harness_jobs(per_profile=4, profiles=("release", "checked"), env=None):
    jobs = []
    for prof in profiles:
        for s in range(per_profile):
            e = {"HARNESS_RAYON": "3" if s == per_profile - 1 else "1"}
            e.update(env or {})
            jobs.append((prof, common.harness_path(prof), s, per_profile, e))
    return jobs


def run_jobs(ctx, jobs):
    budget = 330 if ctx.tier == "quick" else 5400
    hard = 600 if ctx.tier == "quick" else 7000
    with common.Scratch(ctx.prop) as scratch:
        if ctx.replay:
            r = ctx.replay
            if "group" not in r:
                raise Inconclusive("this replay names no single case; rerun the check with its seed and tier")
            exe = common.harness_path(r["profile"])
            job = [j for j in jobs if j[0] == r["profile"]][0]
            only_job = (job[0], job[1], 0, 1, job[4])
            # One case only: reuse the crash path's command line.
            import subprocess
            out = os.path.join(scratch, "r.json")
            cmd = common.shard_cmd(exe, ctx, out, job[0], r.get("shard", 0), r.get("nshards", 1), scratch, 1e9,
                                   (r["group"], r["idx"]))
            e = dict(os.environ)
            e.update(only_job[4])
            rc = subprocess.call(cmd, env=e)
            if rc != 0:
                raise Violation("the process died (%d) while running this case" % rc, r)
            import json
            with open(out) as fh:
                rep = json.load(fh)
            rep["distinct"] = {b"replayed"}
            rep["profile"], rep["shard"], rep["nshards"] = job[0], 0, 1
            reports, problems = [rep], []
        else:
            reports, problems = common.run_shards(ctx, scratch, jobs, budget, hard)
    ctx.reports += reports
    for rep in reports:
        v = rep["violation"]
        if v:
            raise Violation(v["message"] + " [case %s %d, %s build]" % (v["group"], v["idx"], rep["profile"]),
                            dict(group=v["group"], idx=v["idx"], profile=rep["profile"], shard=rep["shard"],
                                 nshards=rep["nshards"]))
    if not ctx.replay:
        num, worst = common.z_tests(reports)
        if num:
            ctx.extra["statistics"] = dict(tests=num, largest_deviation=round(worst[0], 2), of=worst[1])
    for rep in reports:
        if rep["harness_error"]:
            raise Inconclusive(rep["harness_error"])
    if problems:
        raise Inconclusive("; ".join(problems))


def run(ctx):
    if ctx.prop in HARNESS_PROPS:
        common.build_harness()
        env = {"HARNESS_BINS": common.build_bins()} if ctx.prop in NEED_BINS else None
        run_jobs(ctx, harness_jobs(env=env))
    elif ctx.prop == "C02":
        import sanit
        sanit.run(ctx)
    elif ctx.prop == "C24":
        progs.run(ctx)
    elif ctx.prop == "C27":
        lpn.run(ctx)
    elif ctx.prop == "C28":
        estim.run(ctx)
    elif ctx.prop == "C29":
        supmat.run(ctx)
    else:
        raise Inconclusive("no check for property %s" % ctx.prop)


def setup():
    import sanit
    sanit.build()
    common.build_bins()
