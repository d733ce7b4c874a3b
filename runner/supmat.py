"""C29: matrices written by the matrix generator against the minimum distance of the code they span."""
import os, random, re, shutil, subprocess, threading
import common
from common import Inconclusive, Violation

SCRIPT = "/repo/scripts/gen_binary_supmat.py"
STANDIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "standin")
EXACT = 20  # columns up to which all combinations are enumerated


def lightest(cols, n, rng, rounds):
    """(weight, combination, exact) of the lightest sum of columns found; weight 0: the columns are dependent."""
    k = len(cols)
    best = (n + 1, None)
    if k <= EXACT:
        word, mask = 0, 0
        for i in range(1, 1 << k):
            b = (i & -i).bit_length() - 1
            word ^= cols[b]
            mask ^= 1 << b
            w = bin(word).count("1")
            if w < best[0]:
                best = (w, mask)
        return best + (True,)
    for _ in range(rounds):
        # Systematic form at random positions; then single words and sums of two.
        words = [(c, 1 << i) for i, c in enumerate(cols)]
        order = list(range(n))
        rng.shuffle(order)
        row = 0
        for p in order:
            hit = next((i for i in range(row, k) if words[i][0] >> p & 1), None)
            if hit is None:
                continue
            words[row], words[hit] = words[hit], words[row]
            c, m = words[row]
            words = [(x ^ c, y ^ m) if i != row and x >> p & 1 else (x, y) for i, (x, y) in enumerate(words)]
            row += 1
            if row == k:
                break
        for i in range(k):
            for j in range(i, k):
                c, m = words[i] if i == j else (words[i][0] ^ words[j][0], words[i][1] ^ words[j][1])
                w = bin(c).count("1")
                if w < best[0]:
                    best = (w, m)
        if best[0] == 0:
            break
    return best + (False,)


def exists(n, k):
    """Whether there is a primitive BCH code of length n and dimension k."""
    seen, left = set(), n
    for i in range(1, n):
        if i in seen:
            continue
        e = i
        while e not in seen:
            seen.add(e)
            left -= 1
            e = 2 * e % n
        if left == k:
            return True
    return False


def judge(query, code, text, err, files, rng, counters, rounds):
    N, T = query
    what = "matrix for %d parties, one of %d corrupt" % query
    if code != 0:
        m = re.search(r"Inner code: \[(\d+), (\d+)", text)
        if m and not exists(int(m.group(1)) - 1, int(m.group(2))):
            # The search takes n - m*t as dimension, which long codes with many errors exceed.
            counters["requests for which no code exists"] += 1
            return None
        raise Violation("%s: the generator fails: %s" % (what, err[-400:]))
    if not files:
        if "could not" in text.lower():
            counters["requests without result"] += 1
            return None
        raise Violation("%s: no matrix is written" % what)
    if len(files) != 1:
        raise Violation("%s: %d files are written" % (what, len(files)))
    (name, body), = files.items()
    m = re.match(r"n(\d+)_t(\d+)\.txt$", name)
    if not m:
        raise Inconclusive("%s: unknown file name %s" % (what, name))
    n, t = int(m.group(1)), int(m.group(2))
    rows = [line.split() for line in body.splitlines() if line.strip()]
    k = len(rows[0]) if rows else 0
    if len(rows) != n or any(len(r) != k or any(x not in ("0", "1") for x in r) for r in rows) or k == 0:
        raise Violation("%s: %s does not hold %d rows of equally many bits" % (what, name, n))
    counters["matrices judged"] += 1
    if n < N:
        raise Violation("%s: the matrix serves only %d parties" % (what, n))
    if (t + 1) * T < n:
        raise Violation("%s: the matrix for %d parties tolerates only %d corruptions" % (what, n, t))
    cols = [sum(1 << i for i, r in enumerate(rows) if r[j] == "1") for j in range(k)]
    w, mask, exact = lightest(cols, n, rng, rounds)
    counters["matrices judged exactly" if exact else "matrices judged by search"] += 1
    if w < t + 1:
        raise Violation("%s: %s: the sum of columns %s has weight %d: the %d parties concerned know it" % (
            what, name, [j for j in range(k) if mask >> j & 1], w, w))
    for label, value in (("number of parties", n), ("maximum number of corruptions", t), ("minimum number of honest parties", n - t)):
        m = re.search(label + r":\s*(\d+)", text, re.I)
        if m:
            counters["printed values compared"] += 1
            if int(m.group(1)) != value:
                raise Violation("%s: prints %s %s, the matrix is for %d" % (what, label, m.group(1), value))
    m = re.search(r"Rate[^:]*:\s*([\d.]+)", text)
    if m and abs(float(m.group(1)) - k / n) > 1e-6:
        raise Violation("%s: prints rate %s for %d columns and %d rows" % (what, m.group(1), k, n))
    return n, t, k, exact


def queries(seed, tier):
    rng = random.Random("%d %s matrices" % (seed, tier))
    res = [(128, 4), (256, 4), (256, 3), (128, 3), (16, 3), (128, 2), (100, 5)]
    for i in range(413 if tier == "quick" else 4000):
        T = rng.randint(2, 6) if i % 4 else rng.randint(7, 16)
        N = rng.choice([rng.randint(1, 40), rng.randint(20, 150), rng.randint(100, 300 if tier == "quick" else 600)])
        res.append((N, T))
    return list(dict.fromkeys(res))


def run(ctx):
    python = shutil.which("python3-vt")
    if not python:
        raise Inconclusive("no Python with numpy")
    todo = queries(ctx.seed, ctx.tier)
    if ctx.replay:
        todo = [tuple(ctx.replay["query"])]
    counters = dict.fromkeys(["matrices judged", "matrices judged exactly", "matrices judged by search", "printed values compared",
                              "requests without result", "requests for which no code exists"], 0)
    lock = threading.Lock()
    failures, samples, distinct = [], [], set()
    done = [0]
    rounds = 12 if ctx.tier == "quick" else 40
    env = dict(os.environ, PYTHONPATH=STANDIN, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")

    def worker(scratch):
        while True:
            with lock:
                if not todo or failures:
                    return
                query = todo.pop(0)
            try:
                out = os.path.join(scratch, "%d-%d" % query)
                os.makedirs(out)
                try:
                    p = subprocess.run([python, "-B", "-W", "ignore", SCRIPT, str(query[0]), str(query[1]), "--output_path", out], env=env,
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=scratch)
                except subprocess.TimeoutExpired:
                    raise Inconclusive("matrix for %s takes more than 300 s" % (query,))
                err = p.stderr.decode("utf-8", "replace")
                if p.returncode < 0 or "MemoryError" in err or "ModuleNotFoundError" in err or "NotImplementedError" in err \
                        or "unrecognized arguments" in err or "has no attribute" in err:
                    raise Inconclusive(err[-500:])
                files = {}
                for name in os.listdir(out):
                    with open(os.path.join(out, name)) as fh:
                        files[name] = fh.read()
                mine = dict.fromkeys(counters, 0)
                rng = random.Random("%d %s" % (ctx.seed, query))
                got = judge(query, p.returncode, p.stdout.decode("utf-8", "replace"), err, files, rng, mine, rounds)
                with lock:
                    done[0] += 1
                    for c, v in mine.items():
                        counters[c] += v
                    if got:
                        distinct.add(got[:3])
                        samples.append(dict(parties=query[0], one_of=query[1], n=got[0], t=got[1], columns=got[2], exact=got[3]))
            except Violation as e:
                e.replay = dict(query=list(query))
                with lock:
                    failures.append(e)
            except Exception as e:
                with lock:
                    failures.append(e)

    with common.Scratch(ctx.prop) as scratch:
        threads = [threading.Thread(target=worker, args=(scratch,)) for _ in range(8)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    for f in sorted(failures, key=lambda e: not isinstance(e, Violation)):
        raise f
    ctx.extra.update(evaluations=done[0], distinct=len(distinct), counters=counters,
                     rule="requests run through the generator; distinct matrices (parties, corruptions, columns) judged")
    ctx.samples += samples
