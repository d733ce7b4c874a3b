"""Stand-in for the parts of the galois package that gen_binary_supmat.py uses: arrays over GF(2^m) and primitive BCH codes.

The package is not installed here. Arrays behave like the package's: elements are integers whose bits are the
polynomial coefficients, sums are bitwise, products are taken modulo an irreducible polynomial, vectors start with
the highest coefficient.
"""
import numpy as np

_fields = {}


def _carryless(a, b, poly, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> m:
            a ^= poly
    return r


def _order(x, poly, m):
    y, k = x, 1
    while y != 1:
        y = _carryless(y, x, poly, m)
        k += 1
        if k > 1 << m or y == 0:
            return 0
    return k


def _irreducible(m):
    """Smallest irreducible polynomial of degree m (Rabin's test)."""
    primes = [p for p in range(2, m + 1) if m % p == 0 and all(p % q for q in range(2, p))]

    def gcd(a, b):
        while b:
            while a and a.bit_length() >= b.bit_length():
                a ^= b << (a.bit_length() - b.bit_length())
            a, b = b, a
        return a

    for poly in range((1 << m) + 1, 2 << m, 2):
        powers, x = [2], 2
        for _ in range(m):
            x = _carryless(x, x, poly, m)
            powers.append(x)
        if powers[m] == 2 and all(gcd(poly, powers[m // p] ^ 2) == 1 for p in primes):
            return poly
    raise ValueError("no irreducible polynomial of degree %d" % m)


def _primitive(m):
    if m == 1:
        return 3
    for poly in range((1 << m) + 1, 2 << m, 2):
        if _order(2, poly, m) == (1 << m) - 1:
            return poly
    raise ValueError("no primitive polynomial of degree %d" % m)


class FieldArray(np.ndarray):
    degree = 1
    log = exp = None

    def __new__(cls, x, dtype=None, **kw):
        arr = np.array(x, dtype=np.int64)
        if arr.size and (arr.min() < 0 or arr.max() >= 1 << cls.degree):
            raise ValueError("GF(2^%d) arrays must have elements in 0 <= x < 2^%d" % (cls.degree, cls.degree))
        return arr.view(cls)

    @classmethod
    def _mul(cls, a, b):
        if cls.log is None:
            m, poly = cls.degree, cls.poly
            return np.array([_carryless(int(x), int(y), poly, m) for x, y in zip(a.flat, b.flat)], dtype=np.int64).reshape(a.shape)
        zero = (a == 0) | (b == 0)
        return np.where(zero, 0, cls.exp[(cls.log[a] + cls.log[b]) % ((1 << cls.degree) - 1)])

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        cls = type(self)
        kinds = {type(x) for x in inputs if isinstance(x, FieldArray)}
        if len(kinds) > 1:
            raise TypeError("operands over different fields")
        plain = []
        for x in inputs:
            p = x.view(np.ndarray) if isinstance(x, FieldArray) else np.asarray(x)
            if not isinstance(x, FieldArray) and ufunc not in (np.equal, np.not_equal):
                p = cls(p).view(np.ndarray)
            plain.append(p)
        kw.pop("out", None)
        if ufunc in (np.add, np.subtract):
            if method in ("__call__", "reduce", "accumulate", "outer"):
                return getattr(np.bitwise_xor, method)(*plain, **kw).view(cls)
        if ufunc is np.multiply and method == "__call__":
            a, b = np.broadcast_arrays(*plain)
            return np.asarray(cls._mul(a, b)).view(cls)
        if ufunc is np.matmul and method == "__call__":
            a, b = plain
            squeeze = a.ndim == 1
            a = np.atleast_2d(a)
            if a.shape[1] != b.shape[0]:
                raise ValueError("matmul: shapes %s and %s" % (a.shape, b.shape))
            r = np.zeros((a.shape[0], b.shape[1]), dtype=np.int64)
            for i in range(a.shape[1]):
                r ^= cls._mul(*np.broadcast_arrays(a[:, i:i + 1], b[i:i + 1, :]))
            return (r[0] if squeeze else r).view(cls)
        if ufunc is np.power and method == "__call__":
            a, e = np.broadcast_arrays(*plain)
            r = np.ones(a.shape, dtype=np.int64)
            for _ in range(int(e.max()) if e.size else 0):
                r = np.where(e > _, cls._mul(r, a), r)
            return r.view(cls)
        if ufunc in (np.equal, np.not_equal):
            return getattr(ufunc, method)(*plain, **kw)
        raise NotImplementedError("%s.%s on field arrays" % (ufunc.__name__, method))

    @classmethod
    def Vector(cls, bits):
        v = np.asarray(bits, dtype=np.int64)
        if v.shape[-1] != cls.degree or (v.size and (v.min() < 0 or v.max() > 1)):
            raise ValueError("vectors over GF(2) of length %d expected" % cls.degree)
        w = 1 << np.arange(cls.degree - 1, -1, -1)
        return (v * w).sum(axis=-1).view(cls)

    def vector(self):
        a = self.view(np.ndarray)
        return ((a[..., np.newaxis] >> np.arange(type(self).degree - 1, -1, -1)) & 1).view(GF2)

    @classmethod
    def Zeros(cls, shape):
        return cls(np.zeros(shape, dtype=np.int64))

    @classmethod
    def Ones(cls, shape):
        return cls(np.ones(shape, dtype=np.int64))

    @classmethod
    def Identity(cls, size):
        return cls(np.identity(size, dtype=np.int64))


def GF(characteristic, degree=None):
    if degree is None:
        degree = characteristic.bit_length() - 1
    elif characteristic != 2:
        raise NotImplementedError
    degree = int(degree)
    if degree not in _fields and degree > 12:
        # Too large for tables.
        _fields[degree] = type("GF(2^%d)" % degree, (FieldArray,), dict(degree=degree, order=1 << degree, poly=_irreducible(degree)))
    elif degree not in _fields:
        poly = _primitive(degree)
        log, exp, x = np.zeros(1 << degree, dtype=np.int64), np.zeros(1 << degree, dtype=np.int64), 1
        for i in range((1 << degree) - 1):
            exp[i], log[x] = x, i
            x = _carryless(x, 2, poly, degree) if degree > 1 else 1
        _fields[degree] = type("GF(2^%d)" % degree, (FieldArray,), dict(degree=degree, log=log, exp=exp, order=1 << degree, poly=poly))
    return _fields[degree]


GF2 = GF(2, 1)


class BCH:
    """Primitive narrow-sense binary BCH code of length n = 2^m - 1 and dimension k."""

    def __init__(self, n, k=None, d=None, field=None, **kw):
        n = int(n)
        m = (n + 1).bit_length() - 1
        if n != (1 << m) - 1:
            raise NotImplementedError("only primitive codes")
        F = GF(2, m)
        seen, gen, found = set(), [1], None
        for i in range(1, n + 1):
            e = i % n
            if e not in seen:
                coset = set()
                while e not in coset:
                    coset.add(e)
                    e = 2 * e % n
                seen |= coset
                mini = [1]
                for e in coset:
                    root = int(F.exp[e])
                    shifted = [0] + mini
                    mini = [a ^ (int(F._mul(np.int64(root), np.int64(b)))) for a, b in zip(shifted, mini + [0])]
                prod = [0] * (len(gen) + len(mini) - 1)
                for a, x in enumerate(gen):
                    for b, y in enumerate(mini):
                        prod[a + b] ^= x & y
                gen = prod
            if (k is not None and n - len(gen) + 1 == k) or (k is None and i + 1 >= d):
                found = list(gen)
            elif found:
                break
        if not found or (k is not None and k < 1):
            raise ValueError("there is no BCH code of length %d and dimension %s" % (n, k))
        gen = found
        k = n - len(gen) + 1
        self.n, self.k = n, k
        # Systematic: x^(n-k) u(x) plus its remainder, highest coefficient first.
        rows = []
        for i in range(k):
            rem = [0] * n
            rem[n - 1 - i] = 1
            for j in range(n - 1, n - k - 1, -1):
                if rem[j]:
                    for b, y in enumerate(gen):
                        rem[j - len(gen) + 1 + b] ^= y
            rem[n - 1 - i] ^= 1
            rows.append(rem[::-1])
        self.G = GF2(rows)
