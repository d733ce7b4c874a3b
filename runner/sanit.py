"""C02: the range and memory workload in ordinary and sanitized builds, and a part of the other checks' workloads in
the sanitized ones."""
import concurrent.futures, copy, os
import common
import plans
from common import Inconclusive, Violation

KINDS = {
    # The C code is compiled with UBSan as well; its findings trap.
    "asan": dict(rust="address", c="-fsanitize=address,undefined -fsanitize-trap=undefined"),
    "tsan": dict(rust="thread", c="-fsanitize=thread"),
    "msan": dict(rust="memory", c="-fsanitize=memory"),
}

OPTIONS = {
    "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0",
    "TSAN_OPTIONS": "halt_on_error=1:suppressions=" + os.path.join(common.VERIF, "runner", "tsan.supp"),
    "MSAN_OPTIONS": "halt_on_error=1",
}

# Workloads of other properties: (property, percent of its cases). What they compute is judged by their own checks;
# here only reports of the sanitizers count.
ALSO = [("C18", 2), ("C23", 2), ("C22", 2), ("C05", 5), ("C11", 5), ("C07", 5), ("C03", 5), ("C14", 5), ("C08", 10),
        ("C16", 3), ("C19", 2), ("C01", 50)]


def exe(kind):
    return os.path.join(common.TARGET, kind, "x86_64-unknown-linux-gnu", "release", "harness")


def start(kind):
    k = KINDS[kind]
    env = common.cargo_env(k["c"] + " -fno-omit-frame-pointer -g", RUSTUP_TOOLCHAIN="nightly",
                           RUSTC=os.path.join(common.VERIF, "tools", "rustc.sh"), CC="clang-18",
                           RUSTFLAGS="-Zsanitizer=%s" % k["rust"],
                           CARGO_TARGET_DIR=os.path.join(common.TARGET, kind))
    # The standard library is built with the sanitizer too; otherwise its synchronisation is invisible to it.
    return common.start_build(["cargo", "build", "-Zbuild-std", "--release", "--offline", "--locked", "--target",
                               "x86_64-unknown-linux-gnu"], env, common.HARNESS)


def build():
    procs = [(k, start(k)) for k in KINDS]
    common.build_harness()
    for k, p in procs:
        common.finish_build(p, "harness (%s)" % k)


def job_env(shard):
    e = dict(OPTIONS)
    # More than one thread in all shards: races need them.
    e["HARNESS_RAYON"] = "3" if shard % 2 == 0 else "2"
    return e


def run(ctx):
    build()
    jobs = plans.harness_jobs(per_profile=1)
    for kind in KINDS:
        for s in range(2):
            jobs.append((kind, exe(kind), s, 2, job_env(s)))
    if ctx.replay and ctx.replay.get("workload", ctx.prop) != ctx.prop:
        other = copy.copy(ctx)
        other.prop = ctx.replay["workload"]
        kind = ctx.replay["profile"]
        plans.run_jobs(other, [(kind, exe(kind), 0, 1, job_env(0))])
        ctx.reports += other.reports
        return
    plans.run_jobs(ctx, jobs)
    if ctx.replay:
        return
    seen = {}
    problems = []
    budget, hard = (120, 300) if ctx.tier == "quick" else (1200, 2000)
    def one(item):
        p, pc, k = item
        with common.Scratch(ctx.prop) as scratch:
            return common.run_shards(ctx, scratch, [(k, exe(k), 0, 1, dict(job_env(0), HARNESS_PERCENT=str(pc)), p)],
                                     budget, hard)

    queue = [(p, pc, k) for p, pc in ALSO for k in ("tsan", "asan", "msan")]
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        results = list(pool.map(one, queue))
    for reports, probs in results:
        problems += probs
        for rep in reports:
            v = rep["violation"]
            if v and rep.get("died"):
                raise Violation("%s [workload of %s, case %s %d, %s build]" %
                                (v["message"], rep["prop"], v["group"], v["idx"], rep["profile"]),
                                dict(workload=rep["prop"], group=v["group"], idx=v["idx"], profile=rep["profile"],
                                     shard=0, nshards=1))
            seen.setdefault(rep["profile"], {})[rep["prop"]] = dict(evaluations=rep["evaluations"],
                                                                   seconds=round(rep["wall_s"], 1),
                                                                   truncated=rep["truncated"])
    ctx.extra["sanitized_workloads"] = seen
    if problems:
        raise Inconclusive("; ".join(problems))
    if sum(w["evaluations"] for k in seen.values() for w in k.values()) == 0:
        raise Inconclusive("the sanitized workloads observed nothing")
