"""Hardening laws"""
import torch
from .common import *
from simulators.fetorch.material.models.standard.hardening import (
    get_available_hardening_types, get_hardening_law, torch_interp)

OUTSIDE = 'more than four hardening points; exponents other than the listed ones'


def s0d(x):
    return x.reshape(-1)[0] if isinstance(x, torch.Tensor) else torch.as_tensor(x)


def points(c, n):
    """ascending points with free values"""
    a = [c.real('a0', (), 0, 1)]
    for i in range(1, n):
        a.append(a[-1] + c.real(f'da{i}', (), 0.01, 1))
    b = c.real('b', (n,), -100, 100)
    return torch.stack(a), b


def ref(a, b, x):
    """reference interpolation on the current path (branches are explored symbolically)"""
    n = a.shape[0]
    if bool(x < a[0]):
        return b[0], (torch.zeros(()),)
    sl = [(b[i + 1] - b[i]) / (a[i + 1] - a[i]) for i in range(n - 1)]
    for i in range(n - 1):
        if bool(x == a[i]):
            return b[i], ((sl[i - 1] if i else torch.zeros(())), sl[i])
        if bool(x < a[i + 1]):
            return b[i] + sl[i] * (x - a[i]), (sl[i],)
    if bool(x == a[n - 1]):
        return b[n - 1], (sl[n - 2], torch.zeros(()))
    return b[n - 1], (torch.zeros(()),)


def piecewise(n):
    def body(c):
        a, b = points(c, n)
        x = c.real('x', (), -1, 6)
        law = get_hardening_law('piecewise_linear')
        y, h = law({'hardening_points': torch.stack([a, b], dim=1)}, x)
        c.true('scalar in, scalar out', tuple(y.shape) == () and tuple(h.shape) == ())
        y1, h1 = law({'hardening_points': torch.stack([a, b], dim=1)}, x.reshape(1))
        c.eq('shape kept', y1, y.reshape(1))
        c.eq('shape kept', h1, h.reshape(1))
        z = torch.relu(x)
        v, sl = ref(a, b, z)
        c.eq('interpolated yield stress', s0d(y), v)
        if len(sl) == 1:
            c.eq('slope is the derivative', s0d(h), sl[0])
        else:
            d = (s0d(h) - sl[0]) * (s0d(h) - sl[1])
            c.eq('slope is a one-sided derivative', d, torch.zeros(()))
    return body


def linear(c):
    s, a, x = c.real('s0', ()), c.real('a', ()), c.real('x', ())
    y, h = get_hardening_law('linear')({'s0': s, 'a': a}, x)
    c.eq('yield stress', s0d(y), s + a * torch.relu(x))
    c.eq('slope', s0d(h) * 1.0, a)


def nadai(b0):
    def body(c):
        b = c.real('bb', (), 0.1, 0.9) if b0 is None else b0
        s, a = c.real('s0', (), 0, 1000), c.real('a', (), 0, 1000)
        e0 = c.real('e0', (), 1e-5, 0.1)
        x = c.real('x', (), 0, 2)
        w = c.real('w', (1,), 0.001, 2)
        p = {'s0': s, 'a': a, 'b': b, 'ep0': e0}
        law = get_hardening_law('nadai_ludwik')
        y, h = law(p, x)
        c.eq('yield stress', s0d(y), s + a * (x + e0) ** b, tol=1e-6)
        v, J = c.jac(lambda z: law(p, z)[0].reshape(1), w)
        c.eq('slope is the derivative', s0d(law(p, w)[1]), J.reshape(-1)[0], tol=1e-4)
        # negative arguments are clipped
        y0, h0 = law(p, -x)
        y1, h1 = law(p, torch.zeros(()))
        c.eq('clipped yield stress', s0d(y0), s0d(y1))
        c.eq('clipped slope', s0d(h0), s0d(h1))
    return body


def interp(n, m):
    def body(c):
        a, b = points(c, n)
        x = c.real('x', (m,), -1, 6)
        y = torch_interp(x, a, b)
        l, r = c.real('l', ()), c.real('r', ())
        w = torch_interp(x, a, b, left=l, right=r)
        for i in range(m):
            v, _ = ref(a, b, x[i])
            c.eq('interpolation', y[i], v)
            if bool(x[i] < a[0]):
                v = l
            elif bool(x[i] > a[n - 1]):
                v = r
            c.eq('given outer values', w[i], v)
    return body


def data_checks(c):
    x = c.real('x', (), -1, 1)
    ok = {'hardening_points': torch.tensor([[0.0, 1.0], [1.0, 2.0], [2.0, 2.5]])}
    P = [('piecewise_linear', ok), ('linear', {'s0': 1.0, 'a': 2.0}),
         ('nadai_ludwik', {'s0': 1.0, 'a': 2.0, 'b': 0.5, 'ep0': 1e-5})]
    for name, p in P:
        law = get_hardening_law(name)
        if bool(x < 0.0):
            c.raises('negative accumulated plastic strain reported', RuntimeError, law, p, x,
                     is_check_data=True)
        else:
            a, h = law(p, x, is_check_data=True)
            b, g = law(p, x)
            c.eq('check does not change the value', s0d(a), s0d(b))
            c.eq('check does not change the slope', s0d(h) * 1.0, s0d(g) * 1.0)
    law = get_hardening_law('piecewise_linear')
    for bad in ([[0.0, 1.0], [0.0, 2.0]], [[1.0, 1.0], [0.5, 2.0]], [[-1.0, 1.0], [1.0, 2.0]]):
        c.raises('bad points reported', RuntimeError, law, {'hardening_points': torch.tensor(bad)},
                 torch.tensor(0.5), is_check_data=True)
    c.raises('unknown law', RuntimeError, get_hardening_law, 'cubic')
    c.true('available laws', set(get_available_hardening_types()) ==
           {'piecewise_linear', 'linear', 'nadai_ludwik'})


def cases(tier):
    out = [Case('linear', linear, bounds='all parameters and strains'), Case('data checks', data_checks)]
    for n in (2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        out.append(Case(f'piecewise n={n}', piecewise(n), {'cost': n},
                        bounds='ascending points, spacing 0.01..1, stresses in [-100,100]'))
        out.append(Case(f'interpolation n={n}', interp(n, 1 if n > 3 else 2), {'cost': n}))
    for b in (1.0, 2.0, 0.5, 0.3, None):
        out.append(Case(f'nadai-ludwik b={b}', nadai(b), bounds='s0, a in [0,1000], ep0 in [1e-5,0.1]'))
    return out
