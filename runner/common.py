"""Building, sharding, merging and verdicts shared by all checks."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")


class Inconclusive(Exception):
    """The check could not decide (build failure, environment, time): never a violation."""


class Violation(Exception):
    def __init__(self, message, replay=None):
        super().__init__(message)
        self.message = message
        self.replay = replay or {}


def extern_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "extern")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return "h" + h.hexdigest()[:16]


def cargo_env(extra_cflags="", **kw):
    """The build script of /repo does not track its C sources, so their hash goes into CFLAGS."""
    env = dict(os.environ)
    for k in ("CC", "CXX", "HOST_CC", "HOST_CFLAGS", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_INCREMENTAL"] = "0"
    env["CFLAGS"] = ("-DVP_EXTERN_HASH=%s %s" % (extern_hash(), extra_cflags)).strip()
    env.update(kw)
    return env


def start_build(cmd, env, cwd):
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT)


def finish_build(p, what):
    out, _ = p.communicate()
    if p.returncode != 0:
        text = out.decode("utf-8", "replace")
        raise Inconclusive("build of %s failed:\n%s" % (what, text[-3000:]))


def harness_path(profile):
    return os.path.join(TARGET, "rel" if profile == "release" else "chk", profile, "harness")


def build_harness(profiles=("release", "checked")):
    procs = []
    for prof in profiles:
        env = cargo_env(CARGO_TARGET_DIR=os.path.join(TARGET, "rel" if prof == "release" else "chk"))
        procs.append((prof, start_build(["cargo", "build", "--locked", "--offline", "--profile", prof], env, HARNESS)))
    err = None
    for prof, p in procs:
        try:
            finish_build(p, "harness (%s)" % prof)
        except Inconclusive as e:
            err = e
    if err:
        raise err


def build_bins():
    """The repository's own programs, built from its working tree, outside of it."""
    env = cargo_env(CARGO_TARGET_DIR=os.path.join(TARGET, "bins"), CARGO_PROFILE_RELEASE_LTO="off")
    p = start_build(["cargo", "build", "--release", "--offline", "--locked", "--bins", "--manifest-path",
                     os.path.join(REPO, "Cargo.toml")], env, VERIF)
    finish_build(p, "repository programs")
    return os.path.join(TARGET, "bins", "release")


class Scratch:
    """A private directory below /verif/target, removed at the end."""

    def __init__(self, prop):
        base = os.path.join(TARGET, "scratch")
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix=prop + "-", dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        assert self.path.startswith(os.path.join(TARGET, "scratch") + os.sep)
        shutil.rmtree(self.path, ignore_errors=True)


CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP}


def shard_cmd(exe, ctx, out, profile, shard, nshards, scratch, budget, only=None, prop=None):
    cmd = [exe, "--prop", prop or ctx.prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--shard", str(shard), "--nshards",
           str(nshards), "--profile", profile, "--out", out, "--scratch", scratch, "--budget", str(budget)]
    if only:
        cmd += ["--group", only[0], "--idx", str(only[1])]
    return cmd


def run_shards(ctx, scratch, jobs, budget, hard, env_extra=None):
    """jobs: (profile, exe, shard, nshards, env[, property]). Returns shard reports."""
    running = []
    for i, (profile, exe, shard, nshards, env, *prop) in enumerate(jobs):
        prop = prop[0] if prop else ctx.prop
        out = os.path.join(scratch, "s%d.json" % i)
        sc = os.path.join(scratch, "w%d" % i)
        os.makedirs(sc, exist_ok=True)
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        log = open(os.path.join(scratch, "s%d.log" % i), "wb")
        cmd = shard_cmd(exe, ctx, out, profile, shard, nshards, sc, budget, prop=prop)
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=e)
        running.append(dict(p=p, out=out, sc=sc, env=e, profile=profile, exe=exe, shard=shard, nshards=nshards,
                            log=log.name, prop=prop))
    deadline = time.time() + hard
    for r in running:
        try:
            r["rc"] = r["p"].wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            r["rc"] = None
    for r in running:
        if r["rc"] is None:
            r["p"].kill()
            r["p"].wait()
    reports = []
    problems = []
    for r in running:
        if r["rc"] is None:
            problems.append("shard %s/%d hit the hard time limit at case %s" % (r["profile"], r["shard"], progress(r)))
            continue
        if r["rc"] != 0 or not os.path.exists(r["out"]):
            reports.append(crashed(ctx, r, problems))
            continue
        with open(r["out"]) as fh:
            rep = json.load(fh)
        with open(r["out"][:-5] + ".distinct", "rb") as fh:
            raw = fh.read()
        rep["distinct"] = {raw[i:i + 8] for i in range(0, len(raw), 8)}
        rep["profile"] = r["profile"]
        rep["shard"] = r["shard"]
        rep["nshards"] = r["nshards"]
        rep["prop"] = r["prop"]
        reports.append(rep)
    return [x for x in reports if x], problems


def progress(r):
    try:
        with open(r["out"][:-5] + ".progress") as fh:
            return fh.readline().strip()
    except OSError:
        return "?"


def tail(path, num=1500):
    try:
        with open(path, "rb") as fh:
            return fh.read()[-num:].decode("utf-8", "replace")
    except OSError:
        return ""


def sanitizer_report(log):
    """The finding in a sanitizer's output, if there is one. Running out of memory or address space is none."""
    text = tail(log, 1 << 20)
    m = re.search(r"(ERROR: AddressSanitizer: (?!out of memory|failed|requested)|WARNING: (Thread|Memory)Sanitizer: )"
                  r"(?s:.*)", text)
    if not m:
        return None
    lines = [x.strip() for x in m.group(0).splitlines()]
    keep = [x for x in lines[1:] if re.match(r"#\d+ ", x) or "Previous" in x or "of size" in x]
    return " | ".join([lines[0]] + keep[:14])[:1800]


def crashed(ctx, r, problems):
    """The process died. Reproduce on the case it was working on before calling it a violation."""
    where = progress(r)
    rc = r["rc"]
    desc = "signal %d" % -rc if rc < 0 else "exit status %d" % rc
    if rc == -signal.SIGKILL or rc == -signal.SIGTERM:
        problems.append("shard %s/%d was killed (%s)" % (r["profile"], r["shard"], desc))
        return None
    m = re.match(r"(\S+) (\d+)", where)
    if not m:
        problems.append("shard %s/%d failed before its first case (%s): %s" % (r["profile"], r["shard"], desc,
                                                                               tail(r["log"])))
        return None

    def death(message):
        return dict(evaluations=0, counters={}, stats={}, samples=[], rule="", assumptions=[], harness_error=None,
                    truncated=False, wall_s=0, distinct=set(), profile=r["profile"], shard=r["shard"],
                    nshards=r["nshards"], prop=r["prop"], died=True,
                    violation=dict(group=m.group(1), idx=int(m.group(2)), message=message))

    report = sanitizer_report(r["log"])
    if report:
        return death(report)
    for only in ((m.group(1), int(m.group(2))), None):
        cmd = shard_cmd(r["exe"], ctx, r["out"], r["profile"], r["shard"], r["nshards"], r["sc"], 300, only,
                        r["prop"])
        with open(r["log"], "ab") as log:
            try:
                rc2 = subprocess.call(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=r["env"],
                                      timeout=400)
            except subprocess.TimeoutExpired:
                continue
        if rc2 != 0 and rc2 not in (-signal.SIGKILL, -signal.SIGTERM):
            return death("the process died twice (%s) while running this case: %s" % (desc, tail(r["log"], 800)))
    problems.append("shard %s/%d died once (%s) at %s and could not be made to die again" %
                    (r["profile"], r["shard"], desc, where))
    return None


def z_tests(reports):
    """Pools the statistics of all shards; 7 standard deviations decide."""
    pooled = {}
    for rep in reports:
        for k, v in rep["stats"].items():
            e = pooled.setdefault(k, [0.0, 0.0, 0.0, 0.0])
            for i in range(4):
                e[i] += v[i]
    worst = (0.0, None)
    for k, (n, s, mu, var) in pooled.items():
        if var <= 0:
            z = 0.0 if abs(s - mu) < 1e-9 else float("inf")
        else:
            z = abs(s - mu) / var ** 0.5
        if z > worst[0]:
            worst = (z, k)
        if z > 7.0:
            raise Violation("statistic '%s' over %d observations: sum %.1f, expected %.1f, %.1f standard deviations" %
                            (k, n, s, mu, z), dict(statistic=k, observed=s, expected=mu, trials=n))
    return len(pooled), worst


def known_findings(prop):
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as fh:
            for line in fh:
                m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m and m.group(1) == prop:
                    res.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return res
