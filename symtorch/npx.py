"""numpy stand-in for modules under check that compute with numpy: same functions, but arrays
may hold symbolic scalars (object arrays of ``R``).  Functions not listed fall through to numpy."""
import functools
from fractions import Fraction
import numpy as np
from . import expr as X
from .tensor import R, ex, explore


def _sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def _fl(dtype):
    return dtype is None or dtype is float or (isinstance(dtype, type) and issubclass(dtype, np.floating))


def _any(*xs):
    for x in xs:
        if isinstance(x, R) or _sym(x):
            return True
        if isinstance(x, (list, tuple)) and _any(*x):
            return True
        if hasattr(x, 'arr') and hasattr(x, '_ix'):
            return True
    return False


def _maxv(a, b):
    a, b = ex(a), ex(b)
    return R(X.ite(X.le(b, a), a, b))


def _minv(a, b):
    a, b = ex(a), ex(b)
    return R(X.ite(X.le(a, b), a, b))


class _Linalg:
    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def norm(self, a, *r, **k):
        a = np.asarray(a, dtype=object) if _any(a) else np.asarray(a)
        if not _sym(a) or r or k:
            return np.linalg.norm(a, *r, **k)
        return R(X.sqrt(ex(sum((x * x for x in a.reshape(-1)), 0.0))))

    def det(self, a):
        if not _any(a):
            return np.linalg.det(a)
        return _det(_pack(a))

    def inv(self, a):
        if not _any(a):
            return np.linalg.inv(a)
        a = _pack(a)
        n = a.shape[0]
        d = _det(a)
        o = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = _det(np.delete(np.delete(a, j, 0), i, 1)) if n > 1 else R(X.const(1))
                o[i, j] = (m if (i + j) % 2 == 0 else -m) / d
        return o

    def solve(self, a, b):
        if not _any(a, b):
            return np.linalg.solve(_num(a), _num(b))
        a, b = _pack(a), _pack(b)
        d = _det(a)
        o = np.empty(b.shape, dtype=object)
        for k in range(a.shape[0]):
            for j in np.ndindex(b.shape[1:]):
                m = a.copy()
                m[:, k] = b[(slice(None),) + j]
                o[(k,) + j] = _det(m) / d
        return o


def _num(a):
    a = np.asarray(a)
    return a.astype(float) if a.dtype == object else a


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    t = None
    for j in range(n):
        v = a[0, j]
        if isinstance(v, R) or v != 0:
            x = v * _det(np.delete(a[1:], j, 1))
            x = x if j % 2 == 0 else -x
            t = x if t is None else t + x
    return R(X.ZERO) if t is None else t


class Plain:
    """numpy with some attributes replaced"""

    def __init__(self, **over):
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(np, n)


class NP:
    """proxy of the numpy module"""
    linalg = _Linalg()

    def __init__(self, **over):
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(np, n)

    # -- constructors give object arrays, so that symbolic values can be stored later
    def _new(self, shape, v, dtype):
        if not _fl(dtype):
            return np.full(shape, v, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(v)
        return a

    def zeros(self, shape, dtype=None, **k):
        return self._new(shape, 0.0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._new(shape, 1.0, dtype)

    def empty(self, shape, dtype=None, **k):
        return self._new(shape, 0.0, dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        return self._new(shape, fill_value, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._new(np.shape(a), 0.0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self._new(np.shape(a), 1.0, dtype)

    def array(self, a, dtype=None, **k):
        if _any(a) and _fl(dtype):
            return _pack(a)
        return np.array(a, dtype=dtype, **k)

    def asarray(self, a, dtype=None, **k):
        if _any(a) and _fl(dtype):
            return a if _sym(a) else _pack(a)
        return np.asarray(a, dtype=dtype, **k)

    def copy(self, a, **k):
        return a.copy() if _sym(a) else np.copy(a, **k)

    def linspace(self, start, stop, num=50, endpoint=True, dtype=None, **k):
        if not _any(start, stop):
            r = np.linspace(start, stop, num, endpoint=endpoint, dtype=dtype, **k)
            return r
        out = np.empty(num, dtype=object)
        num = int(num)
        den = (num - 1) if endpoint else num
        for i in range(num):
            out[i] = start if den == 0 else start + (stop - start) * R(X.const(Fraction(i, den)))
        return out

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not _any(a, b):
            return np.isclose(a, b, rtol=rtol, atol=atol, **k)
        return _uf2(lambda x, y: R(X.le(ex(abs(x - y)), ex(abs(y) * R(X.const(rtol)) + R(X.const(atol))))))(a, b)

    def allclose(self, a, b, **k):
        if not _any(a, b):
            return np.allclose(a, b, **k)
        return self.all(self.isclose(a, b))

    def max(self, a, axis=None, **k):
        return self._red(a, axis, _maxv, np.max, k)

    def min(self, a, axis=None, **k):
        return self._red(a, axis, _minv, np.min, k)

    amax, amin = max, min

    def _red(self, a, axis, f, g, k):
        if not _any(a):
            return g(a, axis=axis, **k)
        a = self.asarray(a)
        if axis is None:
            v = a.reshape(-1)
            r = v[0]
            for x in v[1:]:
                r = f(r, x)
            return r
        return np.apply_along_axis(lambda v: np.array([self._red(v, None, f, g, {})], dtype=object), axis, a)[
            tuple(0 if i == axis % a.ndim else slice(None) for i in range(a.ndim))]

    def maximum(self, a, b):
        return _uf2(_maxv)(a, b) if _any(a, b) else np.maximum(a, b)

    def minimum(self, a, b):
        return _uf2(_minv)(a, b) if _any(a, b) else np.minimum(a, b)

    def where(self, c, *r):
        if not r:
            return np.where(c)
        if not _any(c, *r):
            return np.where(c, *r)
        def f(q, x, y):
            q = X.r2b(ex(q))
            return R(X.ite(q, ex(x), ex(y)))
        o = np.frompyfunc(f, 3, 1)(c, *r)
        return o

    def abs(self, a):
        return _uf1(abs)(a) if _any(a) else np.abs(a)

    absolute = abs

    def sqrt(self, a):
        return _uf1(lambda v: R(X.sqrt(ex(v))))(a) if _any(a) else np.sqrt(a)

    def sin(self, a):
        return _uf1(lambda v: R(X.fn('sin', ex(v))))(a) if _any(a) else np.sin(a)

    def cos(self, a):
        return _uf1(lambda v: R(X.fn('cos', ex(v))))(a) if _any(a) else np.cos(a)

    def mean(self, a, axis=None, **k):
        if not _any(a):
            return np.mean(a, axis=axis, **k)
        a = self.asarray(a)
        n = a.size if axis is None else a.shape[axis]
        return np.sum(a, axis=axis) / R(X.const(n))

    def std(self, a, axis=None, ddof=0, **k):
        if not _any(a):
            return np.std(a, axis=axis, ddof=ddof, **k)
        a = self.asarray(a)
        n = a.size if axis is None else a.shape[axis]
        m = np.sum(a, axis=axis, keepdims=True) / R(X.const(n))
        v = np.sum((a - m) * (a - m), axis=axis) / R(X.const(n - ddof))
        return self.sqrt(v)

    def eye(self, n, *r, dtype=None, **k):
        e = np.eye(n, *r, **k)
        return e.astype(object) if _fl(dtype) else e.astype(dtype)

    identity = eye

    def radians(self, a):
        if not _any(a):
            return np.radians(_num(a))
        return _uf1(lambda v: v * R(X.const(np.pi / 180.0)))(a)

    deg2rad = radians

    def cross(self, a, b, **k):
        if not _any(a, b) or k:
            return np.cross(_num(a), _num(b), **k)
        a, b = _pack(a), _pack(b)
        o = np.empty(3, dtype=object)
        for i in range(3):
            j, l = (i + 1) % 3, (i + 2) % 3
            o[i] = a[j] * b[l] - a[l] * b[j]
        return o

    def average(self, a, axis=None, **k):
        return self.mean(a, axis) if _any(a) and not k else np.average(a, axis=axis, **k)

    def searchsorted(self, a, v, side='left', **k):
        if not _any(a, v) or k:
            return np.searchsorted(_num(a), v, side=side, **k)
        for i, x in enumerate(a):
            if bool(x > v) if side == 'right' else bool(x >= v):
                return i
        return len(a)

    def isnan(self, a):
        return np.frompyfunc(lambda v: ex(v) is X.NAN, 1, 1)(a).astype(bool) if _sym(a) else np.isnan(a)

    def all(self, a, *r, **k):
        if not _any(a) or r or k:
            return np.all(a, *r, **k)
        return bool(R(functools.reduce(X.and_, [X.r2b(ex(x)) for x in self.asarray(a).reshape(-1)])))

    def any(self, a, *r, **k):
        if not _any(a) or r or k:
            return np.any(a, *r, **k)
        return bool(R(functools.reduce(X.or_, [X.r2b(ex(x)) for x in self.asarray(a).reshape(-1)])))

    def concatenate(self, xs, axis=0, **k):
        return np.concatenate([self.asarray(x) if _any(x) else x for x in xs], axis=axis, **k)

    def polyfit(self, x, y, deg):
        """interpolation through deg + 1 points"""
        if not _any(x, y):
            return np.polyfit(x, y, deg)
        if len(x) != deg + 1:
            raise explore.Inconclusive('least squares fit of symbolic data')
        return Poly(x, y)

    def poly1d(self, p):
        return p if isinstance(p, Poly) else np.poly1d(p)


class Poly:
    """interpolating polynomial (Lagrange form)"""

    def __init__(self, x, y):
        self.x, self.y = [ex(v) for v in x], [ex(v) for v in y]

    def __call__(self, t):
        t = ex(t)
        tot = X.ZERO
        for i, xi in enumerate(self.x):
            w = self.y[i]
            for j, xj in enumerate(self.x):
                if j != i:
                    w = X.mul(w, X.div(X.sub(t, xj), X.sub(xi, xj)))
            tot = X.add(tot, w)
        return R(tot)


def _pack(a):
    if hasattr(a, 'arr') and hasattr(a, '_ix'):
        return a.numpy()
    if isinstance(a, (list, tuple)):
        parts = [_pack(x) for x in a]
        sh = parts[0].shape if parts else ()
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    if isinstance(a, np.ndarray):
        return a.astype(object)
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def _uf1(f):
    def g(a):
        r = np.frompyfunc(f, 1, 1)(a)
        return r
    return g


def _uf2(f):
    return lambda a, b: np.frompyfunc(f, 2, 1)(a, b)
