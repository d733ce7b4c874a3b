"""C27: the parameter search against exact failure probabilities and a direct evaluation of the attack costs."""
import hashlib, math, os, random, re, shutil, subprocess, threading, time
from fractions import Fraction
import common
from common import Inconclusive, Violation

SCRIPT = "/repo/scripts/gen_lpn_params.py"
LIMIT = 1500  # largest block length searched
SLACK = 0.05  # bits


def log_binom(n, m):
    if m < 0 or m > n:
        raise ValueError
    return (math.lgamma(n + 1) - math.lgamma(m + 1) - math.lgamma(n - m + 1)) / math.log(2)


def log_sum(*xs):
    m = max(xs)
    return m + math.log2(sum(2 ** (x - m) for x in xs))


def isd_cost(N, k, t, q, l, p):
    """Information set decoding over F_q with p errors in a window of k + l positions (both even)."""
    l = (k + l) // 2 * 2 - k + 2
    lists = log_binom((k + l) // 2, p // 2) + p // 2 * math.log2(q - 1)
    pairs = 2 * lists - l * math.log2(q)
    if pairs > 230 or lists > 230:
        return 230.0
    rest = N - k - l
    cost = log_sum(math.log2(rest * N / math.log2(rest)), 1 + lists, 1 + pairs) + math.log2(N)
    prob = log_binom(rest, t - p) - log_binom(N, t) + l * math.log2(q) - p * math.log2(q - 1) + pairs
    return 230.0 if prob >= 0 else cost - prob


def security(N, k, tau, q):
    """Cheapest of the attacks at the expected noise weight; minimum over the whole parameter grid."""
    t = N * (q - 1) // (2 ** tau * q)
    best = math.inf
    for p in range(0, max(2, t // 2), 2):
        for l in range(0, N - k - 3):
            try:
                best = min(best, isd_cost(N, k, t, q, l, p))
            except (ValueError, ZeroDivisionError):
                pass
    gauss = 2.8 * math.log2(min(k, N - k)) - (log_binom(N - k, t) - log_binom(N, t))
    statistical = math.log2(k + 1) + 2 * (log_binom(N, t) - log_binom(N - k - 1, t))
    return min(best, gauss, statistical)


def failure(N, k, tau):
    """Exact probability of more errors than half the distance of an [N, k] code."""
    a = 2 ** tau - 1
    radius = (N - k) // 2
    return Fraction(sum(math.comb(N, i) * a ** (N - i) for i in range(radius + 1, N + 1)), 2 ** (tau * N))


def largest_key(N, tau, bound):
    best = 0
    lo, hi = 1, N - 1
    while lo <= hi:
        mid = (lo + hi) // 2
        if failure(N, mid, tau) <= bound:
            best, lo = mid, mid + 1
        else:
            hi = mid - 1
    return best


def judge(query, text, counters):
    sec, err, tau, q = query
    what = "search for %d bits of security, failure 2^-%d, noise 2^-%d, field of %d" % query
    bound = Fraction(1, 2 ** err)
    m = re.search(r"N\s*=\s*(-?\d+)\D+k\s*=\s*(-?\d+)", text)
    if not m:
        raise Violation("%s: prints no parameters: %s" % (what, text[-300:]))
    N, k = int(m.group(1)), int(m.group(2))
    if k == -1 or N == -1:
        counters["searches without result"] += 1
        best = largest_key(LIMIT, tau, bound)
        if best >= 1 and security(LIMIT, best, tau, q) >= sec + SLACK:
            raise Violation("%s: finds nothing, but length %d with key %d meets both bounds" % (what, LIMIT, best))
        return N, k
    counters["parameters judged"] += 1
    if not 1 <= k < N:
        raise Violation("%s: length %d, key %d" % (what, N, k))
    f = failure(N, k, tau)
    if f > bound:
        raise Violation("%s: length %d with key %d fails with probability 2^%.3f" % (what, N, k, math.log2(f)))
    s = security(N, k, tau, q)
    if s < sec - SLACK:
        raise Violation("%s: length %d with key %d offers %.3f bits" % (what, N, k, s))
    for name, got, want in (("Error", "e", math.log2(f)), ("Security", "s", s)):
        m = re.search(name + r":\s*([-+.\deE]+)", text)
        if not m:
            continue
        v = float(m.group(1))
        if name == "Error":
            v = math.log2(v) if v > 0 else -math.inf
        counters["printed values compared"] += 1
        if abs(v - want) > SLACK:
            raise Violation("%s: prints %s %s for length %d with key %d; it is %.3f (in bits)" % (what, name, m.group(1), N, k, want))
    if k > 1 and security(N, k - 1, tau, q) >= sec + SLACK:
        raise Violation("%s: at length %d the shorter key %d offers the security, too" % (what, N, k - 1))
    best = largest_key(N - 1, tau, bound)
    if best >= 1 and N > 8 and security(N - 1, best, tau, q) >= sec + SLACK:
        raise Violation("%s: the shorter length %d with key %d meets both bounds" % (what, N - 1, best))
    return N, k


def queries(seed, tier):
    rng = random.Random("%d %s" % (seed, tier))
    res = []
    for i in range(7 if tier == "quick" else 70):
        tau = 3 if i % 7 == 5 else 2
        sec = rng.randint(25, 60) if i % 3 else rng.randint(60, 110)
        # Small probabilities are where floating point goes wrong.
        err = rng.randint(48, 60) if i % 3 == 0 else rng.randint(10, 47)
        res.append((sec, err, tau, 2 ** rng.choice([18, 18, 16, 20, 24] if tier == "quick" else [18, 18, 16, 12, 20, 24, 8])))
    res.append((rng.randint(20, 80), rng.randint(10, 40), 1, 2 ** 18))
    return res


def run(ctx):
    python = shutil.which("python3-vt")
    if not python:
        raise Inconclusive("no Python with scipy")
    todo = queries(ctx.seed, ctx.tier)
    if ctx.replay:
        todo = [tuple(ctx.replay["query"])]
    counters = dict.fromkeys(["parameters judged", "searches without result", "printed values compared"], 0)
    lock = threading.Lock()
    failures, samples, distinct = [], [], set()
    done = [0]

    def worker():
        while True:
            with lock:
                if not todo or failures:
                    return
                query = todo.pop(0)
            try:
                t0 = time.time()
                try:
                    p = subprocess.run([python, "-B", "-W", "ignore", SCRIPT] + [str(x) for x in query], stdin=subprocess.DEVNULL,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, cwd=common.TARGET)
                except subprocess.TimeoutExpired:
                    raise Inconclusive("search %s takes more than 600 s" % (query,))
                text = p.stdout.decode("utf-8", "replace")
                if p.returncode != 0:
                    err = p.stderr.decode("utf-8", "replace")
                    if p.returncode < 0 or "MemoryError" in err or "No module named 'scipy'" in err or "No module named 'numpy'" in err:
                        raise Inconclusive(err[-500:])
                    raise Violation("search %s fails: %s" % (query, err[-600:]))
                took = time.time() - t0
                mine = dict.fromkeys(counters, 0)
                N, k = judge(query, text, mine)
                with lock:
                    done[0] += 1
                    for c, v in mine.items():
                        counters[c] += v
                    if k != -1:
                        distinct.add(query)
                    samples.append(dict(security=query[0], failure_bits=query[1], noise_bits=query[2], field=query[3], N=N, k=k,
                                        seconds=round(took, 1)))
            except Violation as e:
                e.replay = dict(query=list(query))
                with lock:
                    failures.append(e)
            except Exception as e:
                with lock:
                    failures.append(e)

    os.makedirs(common.TARGET, exist_ok=True)
    threads = [threading.Thread(target=worker) for _ in range(8)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for f in sorted(failures, key=lambda e: not isinstance(e, Violation)):
        raise f
    ctx.extra.update(evaluations=done[0], distinct=len(distinct), counters=counters,
                     rule="random requests run through the search program; non-trivial: parameters were found")
    ctx.samples += samples
