"""Exact constants: the multiquadratic field Q(sqrt 2, sqrt 3, sqrt 5, ...).

A constant is a ``Fraction`` or an ``Alg`` (irrational element).  Floating point
literals of the code under check are idealised ("snapped") to the nearby simple
real they stand for: 0.3333333333333333 -> 1/3, 1.4142135623730951 -> sqrt(2).
"""
from fractions import Fraction
from functools import lru_cache
import math

_PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)


@lru_cache(maxsize=None)
def squarefree(n):
    """n = s^2 * r with r squarefree; returns (s, r)."""
    s, r = 1, n
    p = 2
    while p * p <= r and p < 2000:
        while r % (p * p) == 0:
            r //= p * p
            s *= p
        p += 1
    q = math.isqrt(r)
    if q * q == r:
        return s * q, 1
    return s, r


class Alg:
    __slots__ = ('d', '_h', '_f')

    def __init__(self, d):
        self.d = d
        self._h = hash(frozenset(d.items()))
        self._f = None

    def __eq__(self, o):
        return isinstance(o, Alg) and self.d == o.d

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '+'.join(f'{v}*r{k}' for k, v in sorted(self.d.items()))

    def approx(self):
        if self._f is None:
            # 60-digit evaluation as Fraction
            tot = Fraction(0)
            for k, v in self.d.items():
                tot += v * Fraction(math.isqrt(k * 10**120), 10**60)
            self._f = tot
        return self._f

    def __float__(self):
        return float(self.approx())


def _norm(d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return Fraction(0)
    if len(d) == 1 and 1 in d:
        return d[1]
    return Alg(d)


def _d(x):
    return x.d if isinstance(x, Alg) else {1: x}


def add(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return a + b
    d = dict(_d(a))
    for k, v in _d(b).items():
        d[k] = d.get(k, 0) + v
    return _norm(d)


def mul(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return a * b
    d = {}
    for k1, v1 in _d(a).items():
        for k2, v2 in _d(b).items():
            g = math.gcd(k1, k2)
            k = (k1 // g) * (k2 // g)
            d[k] = d.get(k, 0) + v1 * v2 * g
    return _norm(d)


def neg(a):
    if type(a) is Fraction:
        return -a
    return Alg({k: -v for k, v in a.d.items()})


def inv(a):
    if type(a) is Fraction:
        return 1 / a
    # multiply by conjugates with respect to each prime
    num = Fraction(1)
    cur = a
    for p in _PRIMES:
        if type(cur) is Fraction:
            break
        if any(k % p == 0 for k in cur.d):
            conj = Alg({k: (-v if k % p == 0 else v) for k, v in cur.d.items()})
            num = mul(num, conj)
            cur = mul(cur, conj)
    if type(cur) is not Fraction:
        # larger primes
        ps = set()
        for k in cur.d:
            p = 2
            while p <= k:
                if k % p == 0:
                    ps.add(p)
                    while k % p == 0:
                        k //= p
                p += 1
        for p in ps:
            if type(cur) is Fraction:
                break
            conj = Alg({k: (-v if k % p == 0 else v) for k, v in cur.d.items()})
            num = mul(num, conj)
            cur = mul(cur, conj)
    return mul(num, 1 / cur)


def sign(a):
    if type(a) is Fraction:
        return (a > 0) - (a < 0)
    f = a.approx()
    return (f > 0) - (f < 0)


def to_float(a):
    return float(a)


def sqrt(a):
    """exact square root when inside the field and simple, else None"""
    if type(a) is Fraction:
        if a < 0:
            return None
        n, dd = a.numerator, a.denominator
        s1, r1 = squarefree(n * dd)
        if r1 > 10**7:
            return None
        if n == 0:
            return Fraction(0)
        return _norm({r1: Fraction(s1, dd)})
    return None


@lru_cache(maxsize=100000)
def root(a, q):
    """exact q-th root of a non-negative rational, or None"""
    if not isinstance(a, Fraction):
        return None
    out = []
    for n in (a.numerator, a.denominator):
        r = round(n ** (1.0 / q)) if n < 10**15 else None
        if r is None:
            lo, hi = 0, 1 << (n.bit_length() // q + 1)
            while lo < hi:
                m = (lo + hi) // 2
                if m ** q < n:
                    lo = m + 1
                else:
                    hi = m
            r = lo
        if r ** q != n:
            return None
        out.append(r)
    return Fraction(out[0], out[1])


def snap(x):
    """python float -> exact constant"""
    if x == int(x) and abs(x) < 1e18:
        return Fraction(int(x))
    r = repr(x)
    digits = r.lower().split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digits) <= 11:
        return Fraction(r)
    f = Fraction(x)
    g = f.limit_denominator(5000)
    if g != 0 and abs(float(g) - x) <= 4e-16 * abs(x):
        return g
    # r * sqrt(n): the square is a simple rational
    sq = x * x
    g = Fraction(sq).limit_denominator(2000)
    if g != 0 and abs(float(g) - sq) <= 1.2e-15 * sq:
        s = sqrt(g)
        if s is not None:
            return s if x > 0 else neg(s)
    # a + b*sqrt(n), small denominators (Gauss points and the like)
    for n in (2, 3, 5, 6, 15):
        rt = math.sqrt(n)
        for bd in (1, 2, 3, 4, 5, 6, 10, 12, 20):
            for bn in (1, -1, 3, -3):
                b = bn / bd
                a = x - b * rt
                ga = Fraction(a).limit_denominator(60)
                if abs(float(ga) - a) <= 3e-16 and ga != 0:
                    return add(ga, _norm({n: Fraction(bn, bd)}))
    return f
