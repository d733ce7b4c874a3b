"""C28: both cost estimators against one ledger of the steps of a protocol run."""
import math, os, random, re, shutil, subprocess, threading
import common
from common import Inconclusive, Violation

COMM = "/repo/scripts/communication_estimates.py"
COMP = "/repo/scripts/computation_estimates.py"
UNITS = {"": 0, "K": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21}


def up(a, b):
    return -(-a // b)


class Cost:
    """Field elements sent by all parties, additions and multiplications of one party."""

    def __init__(self, sent=0, add=0, mul=0):
        self.v = (sent, add, mul)

    def __add__(self, o):
        return Cost(*(a + b for a, b in zip(self.v, o.v)))

    def __rmul__(self, k):
        return Cost(*(k * a for a in self.v))


def inner(num, length):
    """Inner products of public and own vectors."""
    return Cost(0, num * (length - 1), num * length)


class Ledger:
    def __init__(self, q):
        self.q = q
        self.n, self.t, self.l = q["n"], q["t"], q["l"]
        self.d = self.t + self.l - 1
        self.demand = {"rand": 0, "zero": 0, "bitrand": 0, "mackeygen": 0}
        self.checked_degree = self.checked_mac = self.checked_zero = 0

    def to_all(self, num):
        """Every party sends num elements to every party."""
        return Cost(self.n * self.n * num)

    def deal(self, secrets, degree):
        """Deal a sharing: degree + 1 - secrets shares are random, the others follow."""
        return inner(self.n + secrets - degree - 1, degree + 1)

    def need(self, kind, num):
        self.demand[kind] += num

    def reduction(self, num):
        """Leaders receive one share of each party, reconstruct and share again; parties take turns."""
        mine = up(num, self.n)
        return Cost(2 * self.n * num) + mine * (inner(self.l, self.n) + self.deal(self.l, self.d))

    def product(self, num):
        self.need("rand", num)
        self.need("zero", num)
        return Cost(0, 3 * num, num) + self.reduction(num)

    def transform(self, num):
        packs = up(num, self.l)
        self.need("zero", packs * 2 * self.n)
        self.need("rand", packs * (self.n + self.t))
        opened = self.to_all(2) + 2 * inner(self.l, self.n)
        made = inner(self.l, self.n) + inner(self.n + self.l - self.d - 1, self.d + 1)
        return packs * (opened + made) + Cost(0, 2 * num, 0) + self.reduction(num)

    def checked_open(self, num):
        return num * (self.to_all(1) + inner(self.n - self.d - 1 + self.l, self.d + 1))

    def coin(self):
        num = up(128, self.q["bits"])
        self.need("rand", num)
        return self.checked_open(num)

    # The same with message authentication codes.
    def mac_product(self, num):
        m = self.q["macs"]
        self.checked_degree += num * (m + 1)
        self.checked_mac += num
        return self.product((m + 1) * num)

    def mac_transform(self, num):
        m = self.q["macs"]
        self.checked_degree += num * (m + 1)
        return self.transform((m + 1) * num)

    def authenticate(self, num):
        m = self.q["macs"]
        self.checked_degree += num * m
        self.checked_mac += num
        return self.product(m * num)

    def bit_test(self, num):
        self.checked_zero += num
        return self.mac_product(num) + Cost(0, num, 0)

    def material(self):
        n, t, l, d = self.n, self.t, self.l, self.d
        rows = n - t
        res = {
            "rand": (rows, self.to_all(1) + inner(n - d - 1, d + 1) + inner(rows, n)),
            "zero": (rows, self.to_all(1) + self.deal(l, n - 1) + inner(rows, n)),
            "bitrand": (self.q["rows"], self.to_all(1) + self.deal(l, d) + inner(self.q["rows"], n)),
            "mackeygen": (2 * l, self.to_all(1) + Cost(2 * t * n) + self.deal(l, d) + inner(n, n) + inner(n - d - 1 + l, d + 1)),
        }
        return {k: up(self.demand[k], size) * cost for k, (size, cost) in res.items()}


def ledger(q):
    """Label -> cost for both phases; semi-honest runs compute ciphertexts without communication."""
    b = Ledger(q)
    l, K, Q, tau, macs = q["l"], q["key"], q["ctx"], q["noise"], q["macs"]
    ands, xors = up(q["and"], l), up(q["xor"], l)
    gates = ands + xors
    wires = up(q["inp"], l) + gates
    errors = 4 * gates * Q
    sh = q["semi"]
    before, garbling = {}, {}
    if not sh:
        b.need("mackeygen", macs)
        before["generate mac keys"] = Cost()
    b.need("rand", 2 * K * wires)
    before["generate keys"] = Cost()
    b.need("bitrand", wires)
    before["generate masks"] = Cost()
    b.need("bitrand", tau * errors)
    b.need("rand", errors)
    if sh:
        before["generate errors"] = b.product((tau - 1) * errors) + b.product(errors)
    else:
        b.checked_degree += wires * (2 * K + 1)
        before["generate keys"] = b.authenticate(2 * K * wires)
        before["generate masks"] = b.authenticate(wires) + b.bit_test(wires)
        before["generate errors"] = (b.authenticate(tau * errors) + b.bit_test(tau * errors) + b.mac_product((tau - 1) * errors)
                                     + b.product((macs + 1) * errors))
    per_wire = 2 * K + 1
    transform = b.transform if sh else b.mac_transform
    garbling["transform masks and labels"] = (transform(wires * per_wire) + transform(2 * gates * per_wire)
                                              + inner(2 * gates * per_wire, l))
    if not sh:
        b.checked_mac += 2 * gates * per_wire
    choice = ands * (3 * (K + 1) + 1) + xors * (K + 1)
    product = b.product if sh else b.mac_product
    garbling["compute plaintexts"] = product(choice) + Cost(0, 7 * ands + 4 * xors + 8 * gates * K, 0)
    cipher = 4 * gates * Q * (Cost(0, K, K + 1) + Cost(0, K + 1, K))
    if not sh:
        cipher = cipher + b.mac_product(4 * gates * Q)
    garbling["compute ciphertexts"] = cipher
    if not sh:
        k, m = q["checks"], q["macs"]
        b.need("rand", k)
        v = b.coin() + b.checked_open(k) + Cost(0, k * b.checked_degree, k * (b.checked_degree + 1))
        v = v + b.coin() + b.checked_open(2 * m) + Cost(0, 2 * m * (b.checked_mac - 1) + 1, 2 * m * b.checked_mac + 1)
        v = v + b.coin() + b.checked_open(k) + Cost(0, k * (b.checked_zero - 1), k * b.checked_zero)
        garbling["verification"] = v
    made = b.material()
    if sh:
        del made["mackeygen"]
    before.update(made)
    return garbling, before


def parse(text, unit):
    """Two lists of (label, value, rounding)."""
    phases = []
    for line in text.splitlines():
        line = line.strip()
        if line.startswith("---"):
            phases.append((line.strip("- ").lower(), []))
            continue
        m = re.match(r"(.+?):\s*(-?[\d.]+(?:e[+-]?\d+)?)\s*([KMGTPEZ]?)" + unit + "$", line)
        if m and phases:
            scale = 10 ** UNITS[m.group(3)]
            phases[-1][1].append((m.group(1).strip().lower(), float(m.group(2)) * scale, 0.0005001 * scale))
    res = {}
    for name, lines in phases:
        res["garbling" if "garbling" in name else "preprocessing"] = lines
    return res


def arguments(q, comm):
    sep = "-" if comm else "_"
    args = ["-n", q["n"], "-t", q["t"], "-l", q["l"], "--field-bits", q["bits"], "--lpn%skey%slen" % (sep, sep), q["key"],
            "--lpn%sctx%slen" % (sep, sep), q["ctx"], "--lpn%serror%sbias" % (sep, sep), q["noise"], "--lenmac", q["macs"],
            "--lencheck", q["checks"]]
    if not q["default rows"]:
        args += ["--binsup%sdim" % sep, q["rows"]]
    if not comm:
        args += ["--time_add", repr(q["add"]), "--time_mult", repr(q["mul"]), "--threads", q["threads"]]
    if q["semi"]:
        args.append("--semi-honest")
    return [str(a) for a in args + [q["inp"], q["and"], q["xor"]]]


def describe(q):
    return "%s run of n=%d t=%d l=%d, %d inputs, %d AND, %d XOR, key %d, block %d, noise 2^-%d, %d MACs, %d repetitions, matrix of %d columns, %d-bit field" % (
        "semi-honest" if q["semi"] else "malicious", q["n"], q["t"], q["l"], q["inp"], q["and"], q["xor"], q["key"], q["ctx"], q["noise"],
        q["macs"], q["checks"], q["rows"], q["bits"])


def judge(q, texts, counters):
    want = dict(zip(("garbling", "preprocessing"), ledger(q)))
    size = up(q["bits"], 8)
    for comm, text in texts:
        what = "%s: %s estimate" % (describe(q), "communication" if comm else "computation")
        got = parse(text, "B" if comm else "s")
        for phase in ("garbling", "preprocessing"):
            if not got.get(phase):
                raise Inconclusive("%s: no %s phase printed: %s" % (what, phase, text[-400:]))
            lines = dict((k, (v, r)) for k, v, r in got[phase])
            if len(lines) != len(got[phase]):
                raise Inconclusive("%s: a line is printed twice" % what)
            if "total" not in lines:
                raise Inconclusive("%s: no total printed" % what)
            total, rounding = lines.pop("total")
            parts = sum(v for v, _ in lines.values())
            slack = rounding + sum(r for _, r in lines.values()) + 1e-9 * abs(parts)
            counters["totals compared with their parts"] += 1
            if abs(total - parts) > slack:
                raise Violation("%s: %s phase: the parts sum to %.3f, the printed total is %.3f" % (what, phase, parts, total))
            expected = {}
            for k, cost in want[phase].items():
                sent, add, mul = cost.v
                expected[k] = sent * size / q["n"] if comm else (add * q["add"] + mul * q["mul"]) / q["threads"]
            for k, (v, r) in lines.items():
                if k not in expected:
                    raise Inconclusive("%s: unknown line %r in the %s phase" % (what, k, phase))
                counters["lines compared"] += 1
                if abs(v - expected[k]) > r + 1e-9 * abs(expected[k]):
                    raise Violation("%s: %s phase: %r is printed as %.3f, the steps of the run amount to %.3f" % (what, phase, k, v, expected[k]))
            missing = [k for k in expected if k not in lines and abs(expected[k]) > 0]
            if missing:
                raise Violation("%s: %s phase: no line for %s" % (what, phase, ", ".join(missing)))


def queries(seed, tier):
    rng = random.Random("%d %s estimates" % (seed, tier))
    res = []
    for i in range(220 if tier == "quick" else 4000):
        t, l = rng.randint(1, 6), rng.randint(1, 7)
        n = 2 * (t + l) - 1 + rng.choice([0, 0, 1, 2, rng.randint(0, 12)])
        rows = rng.randint(1, n - t)
        default = False
        if i % 11 == 0:
            n, t, rows = rng.choice([(128, 31, 14), (256, 63, 42), (512, 127, 77)])
            l = rng.choice([1, rng.randint(1, (n + 1) // 2 - t), (n + 1) // 2 - t])
            default = rng.random() < 0.7
            if not default:
                rows = rng.randint(1, 80)
        big = i % 4 == 0
        # Around full blocks and batches.
        def gates():
            return max(0, rng.choice([0, 1, rng.randint(0, 40), l * rng.randint(0, 8) + rng.randint(-1, 1), rng.randint(0, 30000 if big else 300)]))
        q = dict(n=n, t=t, l=l, rows=rows, key=rng.choice([1, 2, 3, rng.randint(1, 30), 127]), ctx=rng.choice([1, 2, rng.randint(1, 60), 555]),
                 noise=rng.randint(1, 4), macs=rng.randint(1, 5), checks=rng.randint(1, 5), bits=rng.choice([18, 18, 8, 9, 16, 17, 24, 25, 12, 32]),
                 semi=i % 2 == 0, threads=rng.choice([1, 1, 2, 3, 8, 32]))
        q["inp"], q["and"], q["xor"] = gates(), gates(), gates()
        q["default rows"] = default
        # Single operations become visible when the other kind costs nothing.
        q["add"], q["mul"] = rng.choice([(0.0, 1.0), (1.0, 0.0), (1.0, 1024.0), (rng.random(), rng.random())])
        res.append(q)
    return res


def run(ctx):
    python = shutil.which("python3-vt")
    if not python:
        raise Inconclusive("no Python with numpy")
    todo = queries(ctx.seed, ctx.tier)
    if ctx.replay:
        todo = [ctx.replay["query"]]
    counters = dict.fromkeys(["lines compared", "totals compared with their parts"], 0)
    lock = threading.Lock()
    failures, samples, distinct = [], [], set()
    done = [0]

    def call(script, q):
        try:
            p = subprocess.run([python, "-B", "-W", "ignore", script] + arguments(q, script == COMM), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=common.TARGET)
        except subprocess.TimeoutExpired:
            raise Inconclusive("%s takes more than 120 s" % script)
        if p.returncode != 0:
            err = p.stderr.decode("utf-8", "replace")
            if p.returncode < 0 or "MemoryError" in err or "No module named 'numpy'" in err or "unrecognized arguments" in err:
                raise Inconclusive(err[-500:])
            raise Violation("%s: %s fails: %s" % (describe(q), os.path.basename(script), err[-600:]))
        return p.stdout.decode("utf-8", "replace")

    def worker():
        while True:
            with lock:
                if not todo or failures:
                    return
                q = todo.pop(0)
            try:
                mine = dict.fromkeys(counters, 0)
                texts = [(True, call(COMM, q)), (False, call(COMP, q))]
                judge(q, texts, mine)
                with lock:
                    done[0] += 1
                    for c, v in mine.items():
                        counters[c] += v
                    if q["and"] + q["xor"] > 0:
                        distinct.add(tuple(sorted(q.items())))
                    samples.append(dict(query=describe(q), lines=mine["lines compared"]))
            except Violation as e:
                e.replay = dict(query=q)
                with lock:
                    failures.append(e)
            except Exception as e:
                with lock:
                    failures.append(e)

    os.makedirs(common.TARGET, exist_ok=True)
    threads = [threading.Thread(target=worker) for _ in range(8)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for f in sorted(failures, key=lambda e: not isinstance(e, Violation)):
        raise f
    ctx.extra.update(evaluations=done[0], distinct=len(distinct), counters=counters,
                     rule="random configurations run through both estimators; non-trivial: the circuit has gates")
    ctx.samples += samples
