"""C24: the benchmark programs, one real process per party."""
import hashlib, json, os, random, re, signal, socket, subprocess, threading, time
import common
from common import Inconclusive, Violation

ENVIRONMENT = re.compile(r"Address already in use|AddrInUse|Too many open files|Cannot allocate memory|memory allocation of|"
                         r"Resource temporarily unavailable|Cannot assign requested address|No space left")
IDLE_S = 20.0
TICK = os.sysconf("SC_CLK_TCK")
SYNC_BYTES = 64  # more than a barrier message ever needs


class Canary(threading.Thread):
    """Notices when the machine itself does not get on."""

    def __init__(self):
        super().__init__(daemon=True)
        self.late = 0.0
        self.stop = False

    def run(self):
        while not self.stop:
            t = time.monotonic()
            time.sleep(0.05)
            late = time.monotonic() - t - 0.05
            if late > 1.0:
                self.late = time.monotonic()


class Ports:
    """Ports below the ephemeral range, handed out once."""

    def __init__(self, seed):
        self.next = 10000 + seed % 7000
        self.lock = threading.Lock()

    def take(self, hosts):
        res = []
        with self.lock:
            for h in hosts:
                for _ in range(5000):
                    self.next = 10000 + (self.next - 9999) % 20000
                    s = socket.socket()
                    try:
                        s.bind((h, self.next))
                    except OSError:
                        continue
                    finally:
                        s.close()
                    res.append("%s:%d" % (h, self.next))
                    break
                else:
                    raise Inconclusive("no free port")
        return res


def gen_circuit(rng, path, max_gates):
    num_in = rng.randint(1, 8)
    gates = rng.randint(1, max_gates)
    weights = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 2, 1), (1, 1, 1)])
    lines = []
    for g in range(gates):
        k = rng.choices(["AND", "XOR", "INV"], weights)[0]
        inp = [rng.randrange(num_in + g) for _ in range(1 if k == "INV" else 2)]
        lines.append("%d 1 %s %d %s" % (len(inp), " ".join(map(str, inp)), num_in + g, k))
    outs = rng.randint(1, gates)
    with open(path, "w") as fh:
        fh.write("%d %d\n1 %d\n1 %d\n\n%s\n" % (gates, num_in + gates, num_in, outs, "\n".join(lines)))


def gen_matrix(rng, path, n):
    """One line per party; what the entries are does not matter for termination and traffic."""
    cols = rng.randint(1, max(1, n - 1))
    with open(path, "w") as fh:
        for _ in range(n):
            fh.write(" ".join(str(rng.randint(0, 1)) for _ in range(cols)) + "\n")


class Case:
    def __init__(self, idx, seed, tier, scratch):
        self.idx = idx
        rng = self.rng = random.Random("%d %s %d" % (seed, tier, idx))
        self.dir = os.path.join(scratch, "case%d" % idx)
        os.makedirs(self.dir)
        self.prog = "garble" if idx % 2 == 0 else "preproc"
        self.big = idx % 24 in (4, 5)
        while True:
            self.t = rng.randint(1, 3)
            self.l = rng.randint(1, 3)
            lo = 2 * (self.t + self.l) - 1
            if lo <= 9:
                break
        self.n = rng.randint(lo, 9) if rng.random() < 0.5 else lo
        self.kl = rng.randint(1, 4)
        self.q = rng.randint(1, 6)
        if idx % 24 in (8, 11, 18, 21):
            self.kl = rng.randint(200, 420)
        elif idx % 24 in (10, 13):
            self.q = rng.randint(200, 420)
        self.defaults = False
        self.circ = "circ.txt"
        if self.big:
            # Shipped circuit, amounts of data as in real benchmarks.
            self.circ = "/repo/data/circ/sub64.txt"
            if self.prog == "garble":
                self.n, self.t, self.l = 3, 1, 1
                self.kl, self.q, self.defaults = 127, 555, True
            else:
                self.n, self.t, self.l = 16, 5, rng.randint(1, 3)
                self.kl, self.q = rng.randint(5, 30), rng.randint(100, 300)
        else:
            gen_circuit(rng, os.path.join(self.dir, "circ.txt"), rng.choice([1, 3, 12, 30]))
        self.mat = "mat.txt"
        if self.prog == "preproc":
            if self.big:
                self.mat = "/repo/data/binsup_mat/n16_t5.txt"
            else:
                gen_matrix(rng, os.path.join(self.dir, "mat.txt"), self.n)
        self.reps = 1 if self.big else rng.choice([1, 1, 2, 3])
        self.threads = rng.choice([None, None, 1, 2, 3])
        self.save = (idx // 2) % 2 == 1
        # Junk that must disappear from the result file.
        self.stale = self.save and rng.random() < 0.5
        self.hosts = ["127.0.0.1"] * self.n
        if rng.random() < 0.4:
            self.hosts = ["127.0.0.%d" % (i + 1) for i in range(self.n)]
        order = list(range(self.n))
        rng.shuffle(order)
        style = rng.randrange(5)
        delays = {0: lambda: 0.0, 1: lambda: rng.uniform(0, 0.2), 2: lambda: rng.uniform(0, 1.5),
                  3: lambda: 0.0, 4: lambda: 0.0}[style]
        at = sorted(delays() for _ in order)
        if style == 3:
            at[-1] = rng.uniform(0.5, 2.5)  # one late party
        if style == 4:
            at[1:] = [rng.uniform(0.5, 2.0)] * (self.n - 1)  # one early party
        self.starts = list(zip(order, at))
        # A party that is suspended for a while: only its speed changes.
        self.suspend = None
        if (idx // 4) % 2 == 1:
            self.suspend = (rng.randrange(self.n), rng.uniform(0.9, 2.5) if not self.big else rng.uniform(1.0, 3.5),
                            rng.uniform(0.3, 2.5))
        self.pin = rng.random() < 0.3

    def label(self):
        return ("%s n=%d t=%d l=%d key %d message %d reps=%d threads=%s %s%s%s" %
                (self.prog, self.n, self.t, self.l, self.kl, self.q, self.reps, self.threads, "saving" if self.save else "not saving",
                 ", party %d suspended" % self.suspend[0] if self.suspend else "", ", on one core" if self.pin else ""))

    def key(self):
        return hashlib.sha256(repr((self.prog, self.n, self.t, self.l, self.kl, self.q, self.reps, self.threads, self.save,
                                    self.starts, self.suspend, self.pin)).encode()).digest()[:8]

    def args(self, party):
        a = ["--id", str(party), "--net", "net.txt", "--circ", self.circ, "--threshold", str(self.t), "--packing-param", str(self.l)]
        if not self.defaults:
            a += ["--lpn-key-len", str(self.kl), "--lpn-mssg-len", str(self.q)]
        if self.prog == "preproc":
            a += ["--binsup-mat", self.mat]
        if self.reps != 1 or self.idx % 3 == 0:
            a += ["--reps", str(self.reps)]
        if self.threads is not None:
            a += ["--threads", str(self.threads)]
        if self.save:
            a += ["--save", "result.json"]
        return a

    def expected(self, harness):
        cmd = [harness, "child", "c24", self.prog, os.path.join(self.dir, self.circ), self.n, self.t, self.l, self.kl, self.q,
               os.path.join(self.dir, self.mat)]
        p = subprocess.run([str(x) for x in cmd], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=300)
        if p.returncode != 0:
            raise Inconclusive("reference run of %s failed: %s" % (self.label(), p.stdout[-300:]))
        return json.loads(p.stdout)


def cpu_ticks(pid):
    try:
        with open("/proc/%d/stat" % pid) as fh:
            f = fh.read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except (OSError, IndexError):
        return 0


def read(path):
    try:
        with open(path, "rb") as fh:
            return fh.read().decode("utf-8", "replace")
    except OSError:
        return ""


def execute(case, bins, ports, canary, limit):
    """Runs the parties; returns their outputs. Raises on failure."""
    with open(os.path.join(case.dir, "net.txt"), "w") as fh:
        fh.write("".join(a + "\n" for a in ports.take(case.hosts)))
    if case.stale:
        with open(os.path.join(case.dir, "result.json"), "w") as fh:
            fh.write("{\"junk\": \"" + "x" * 200000 + "\"}")
    procs = {}
    cores = sorted(os.sched_getaffinity(0))
    core = {cores[case.idx % len(cores)]}
    pin = (lambda: os.sched_setaffinity(0, core)) if case.pin else None
    t0 = time.monotonic()
    pending = list(case.starts)
    suspend = case.suspend
    resume_at = None
    mark = (t0, {}, 0)
    try:
        while True:
            now = time.monotonic()
            while pending and pending[0][1] <= now - t0:
                party = pending.pop(0)[0]
                out = open(os.path.join(case.dir, "out%d" % party), "wb")
                err = open(os.path.join(case.dir, "err%d" % party), "wb")
                procs[party] = subprocess.Popen([os.path.join(bins, case.prog)] + case.args(party), cwd=case.dir,
                                                stdin=subprocess.DEVNULL, stdout=out, stderr=err, preexec_fn=pin)
                out.close()
                err.close()
            if suspend and now - t0 >= suspend[1] and suspend[0] in procs and resume_at is None:
                procs[suspend[0]].send_signal(signal.SIGSTOP)
                resume_at = now + suspend[2]
            if resume_at is not None and now >= resume_at and suspend:
                procs[suspend[0]].send_signal(signal.SIGCONT)
                suspend = None
                mark = (now, {}, 0)
            alive = [p for p, x in procs.items() if x.poll() is None]
            bad = [(p, x.returncode) for p, x in procs.items() if x.returncode not in (None, 0)]
            if bad:
                party, rc = bad[0]
                text = read(os.path.join(case.dir, "err%d" % party))
                if rc in (-signal.SIGKILL, -signal.SIGTERM) or ENVIRONMENT.search(text):
                    raise Inconclusive("%s: party %d: %d %s" % (case.label(), party, rc, text[-500:]))
                raise Violation("%s: party %d fails with status %d: %s" % (case.label(), party, rc, text[-700:]))
            if not alive and not pending:
                return time.monotonic() - t0
            ticks = {p: cpu_ticks(procs[p].pid) for p in alive}
            moved = (pending or (suspend and resume_at is not None) or len(alive) != mark[2] or
                     any(ticks[p] - mark[1].get(p, -9) >= 2 for p in alive) or now - canary.late < 1.0)
            if moved:
                mark = (now, ticks, len(alive))
            elif now - mark[0] > IDLE_S:
                raise Violation("%s: parties %s neither finish nor do anything for %d s; finished: %s" %
                                (case.label(), sorted(alive), IDLE_S, sorted(set(procs) - set(alive))))
            if now - t0 > limit:
                raise Inconclusive("%s: still running after %d s" % (case.label(), limit))
            time.sleep(0.02)
    finally:
        for x in procs.values():
            if x.poll() is None:
                x.kill()
        for x in procs.values():
            x.wait()


def judge(case, exp, counters):
    """The outputs of a finished run."""
    lab = case.label()

    def need(ok, what, *a):
        if not ok:
            raise Violation(lab + ": " + what % a)

    printed = []
    for p in range(case.n):
        text = read(os.path.join(case.dir, "out%d" % p))
        need(re.search(r"Party %d\b" % p, text), "party %d does not name itself: %r", p, text[:200])
        comm = [int(x) for x in re.findall(r"Communication:\s*(\d+)\s*bytes", text)]
        times = [int(x) for x in re.findall(r"Runtime:\s*(\d+)\s*ms", text)]
        one = [int(x) for x in re.findall(r"[Oo]netime.*:\s*(\d+)\s*ms", text)]
        need(len(comm) == case.reps and len(times) == case.reps, "party %d prints %d runtimes and %d amounts of traffic", p,
             len(times), len(comm))
        printed.append((comm, times, one))
        for r, c in enumerate(comm):
            # The results themselves may reach party 0 before it closes its last measurement.
            extra = case.n * (200 + 50 * case.reps * case.n) if case.save and p == 0 and r == case.reps - 1 else 0
            most = extra + sum(x[0] for x in exp[p]) + case.n * SYNC_BYTES
            need(exp[p][p][0] <= c <= most, "party %d reports %d bytes in repetition %d; it receives between %d and %d", p, c, r,
                 exp[p][p][0], most)
    counters["outputs judged"] += case.n
    if not case.save:
        return
    try:
        with open(os.path.join(case.dir, "result.json")) as fh:
            data = json.load(fh)
    except (OSError, ValueError) as e:
        raise Violation("%s: the result file cannot be read: %s" % (lab, e))
    want = dict(n=case.n, t=case.t, l=case.l, circ=case.circ, lpn_tau=2, lpn_key_len=case.kl, lpn_mssg_len=case.q, reps=case.reps,
                threads=case.threads or 1)
    for k, v in want.items():
        need(data["details"].get(k) == v, "the result file says %s=%r instead of %r", k, data["details"].get(k), v)
    b = data["benchmarks"]
    need(len(b) == case.n, "the result file has %d entries for %d parties", len(b), case.n)
    for p in range(case.n):
        recs = b[p]
        if case.prog == "garble":
            need(b[p].get("onetime_comp") in printed[p][2], "entry %d: one-time computation %r, party printed %r", p,
                 b[p].get("onetime_comp"), printed[p][2])
            recs = b[p]["garbling"]
        need(len(recs) == case.reps, "entry %d has %d records for %d repetitions", p, len(recs), case.reps)
        for r, rec in enumerate(recs):
            need(rec["time"] == printed[p][1][r], "entry %d repetition %d: time %r, party %d printed %r", p, r, rec["time"], p,
                 printed[p][1][r])
            comm = rec["comm"]
            need(len(comm) == case.n, "entry %d repetition %d lists %d senders", p, r, len(comm))
            need(sum(x for x, _ in comm) == printed[p][0][r], "entry %d repetition %d: recorded %d bytes, party %d printed %d", p, r,
                 sum(x for x, _ in comm), p, printed[p][0][r])
            for s, (x, y) in enumerate(comm):
                ex, ey = exp[p][s]
                extra = len(json.dumps(b[s])) if p == 0 and r == case.reps - 1 and s != p else 0
                if s == p:
                    # Its own messages neither arrive early nor late.
                    need((x, y) == (ex, ey), "entry %d repetition %d: %r bytes from itself instead of %r", p, r, (x, y), (ex, ey))
                need(0 <= x <= y and x <= ex + extra + SYNC_BYTES and y <= ey + extra + 2 * SYNC_BYTES,
                     "entry %d repetition %d: %r bytes from %d, protocol sends %r", p, r, (x, y), s, (ex, ey))
                if x >= ex:
                    counters["senders recorded in full"] += 1
                counters["senders recorded"] += 1
    counters["result files judged"] += 1


def run(ctx):
    common.build_harness(("release",))
    bins = common.build_bins()
    harness = common.harness_path("release")
    num = 96 if ctx.tier == "quick" else 960
    todo = list(range(num)) if not ctx.replay else [ctx.replay["case"]] * 12
    counters = dict.fromkeys(["processes", "outputs judged", "result files judged", "senders recorded", "senders recorded in full",
                              "runs with a suspended party", "runs on one core", "repetitions"], 0)
    lock = threading.Lock()
    failure = []
    distinct = set()
    samples = []
    deadline = time.time() + (600 if ctx.tier == "quick" else 7000)
    canary = Canary()
    canary.start()
    ports = Ports(ctx.seed * 977)
    done = [0]
    with common.Scratch(ctx.prop) as scratch:
        def worker(w):
            for k in range(len(todo)):
                with lock:
                    if not todo or failure or time.time() > deadline:
                        return
                    idx = todo.pop(0)
                try:
                    for attempt in range(3):
                        case = Case(idx, ctx.seed, ctx.tier, os.path.join(scratch, "%d-%d-%d" % (w, k, attempt)))
                        exp = case.expected(harness)
                        try:
                            took = execute(case, bins, ports, canary, 300)
                            break
                        except Inconclusive:
                            if attempt == 2:
                                raise
                    mine = dict.fromkeys(counters, 0)
                    judge(case, exp, mine)
                    mine["processes"] = case.n
                    mine["repetitions"] = case.reps
                    mine["runs with a suspended party"] = int(case.suspend is not None)
                    mine["runs on one core"] = int(case.pin)
                    with lock:
                        done[0] += 1
                        distinct.add(case.key())
                        for c, v in mine.items():
                            counters[c] += v
                        if len(samples) < 8:
                            samples.append(dict(run=case.label(), seconds=round(took, 2)))
                except Violation as e:
                    e.replay = dict(case=idx)
                    with lock:
                        failure.append(e)
                except Exception as e:
                    with lock:
                        failure.append(e)

        threads = [threading.Thread(target=worker, args=(w,)) for w in range(7)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    canary.stop = True
    for f in sorted(failure, key=lambda e: not isinstance(e, Violation)):
        raise f
    if todo and not ctx.replay:
        raise Inconclusive("%d of %d runs did not fit into the time" % (len(todo), num))
    ctx.extra.update(evaluations=done[0], distinct=len(distinct), counters=counters,
                     rule="real runs of both programs with random arguments, circuits, start orders and delays; every run counted")
    ctx.samples += samples
