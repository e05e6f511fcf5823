"""Generated strain paths and noise"""
import types
import random as _random
import numpy as np
from unittest import mock
from .common import *
from .rng import Rng
from data_generation.strain_paths import interface as si, random_path as rp, proportional_path as pp
from data_generation.strain_paths import noise_generator as ng

OUTSIDE = ('paths of up to 9 times, 2 to 4 control points; draws of the random number generator are free values fixed by '
           'seed and position; polynomial fits are exact interpolation, Gaussian process predictions are arbitrary values; '
           'bounds of moving components contain zero strictly and are at least 0.01 wide on each side')
NORM = {'sym': True}


def path(c, kind, n_dim, bounds, n_time, rng, **k):
    """run the real generator with free random numbers"""
    g = (rp.RandomStrainPathGenerator if kind == 'random' else pp.ProportionalStrainPathGenerator)('infinitesimal', n_dim)
    if kind == 'random':
        k.setdefault('n_control', 3)
    with sym_numpy(c, rp, pp, si, random=rng):
        return g.generate_strain_path(strain_bounds=bounds, n_time=n_time, **k)


def order(n_dim):
    return S2 if n_dim == 2 else S3


def bounds(c, n_dim, moving, tag=''):
    b, o = {}, order(n_dim)
    for j, comp in enumerate(o):
        if comp in moving:
            l = c.npreal(f'l{tag}{comp}', (1,), -1, -0.01)[0]
            u = c.npreal(f'u{tag}{comp}', (1,), 0.01, 1)[0]
            b[comp] = (l, u)
        else:
            b[comp] = (0.0, 0.0)
    return b


def val(x):
    return x


def common(c, res, n_dim, n_time, b, moving, t0=0.0, t1=1.0, start=True):
    o, t, p = res
    c.true('component order', tuple(o) == order(n_dim))
    c.true('shapes', len(t) == n_time and tuple(p.shape) == (n_time, len(o)))
    c.eq('times', t, np.array([t0 + (t1 - t0) * i / (n_time - 1) for i in range(n_time)]))
    for j, comp in enumerate(o):
        if start:
            c.eq('starts undeformed', p[0, j], 0.0, tol=1e-7)
        for i in range(n_time):
            if comp in moving:
                c.le('above the lower bound', b[comp][0], p[i, j], tol=1e-9)
                c.le('below the upper bound', p[i, j], b[comp][1], tol=1e-9)
            else:
                c.eq('fixed component', p[i, j], 0.0)


def bounded(kind, n_dim, moving, n_time, **k):
    def body(c):
        rng = Rng(c)
        b = bounds(c, n_dim, moving)
        t0 = c.npreal('t0', (1,), -5, 5)[0]
        t1 = t0 + c.npreal('dt', (1,), 0.1, 5)[0]
        res = path(c, kind, n_dim, b, n_time, rng, time_init=t0, time_end=t1, **k)
        common(c, res, n_dim, n_time, b, moving, t0, t1)
        if kind == 'proportional':
            p = res[2]
            for i in range(n_time):
                c.eq('proportional', p[i] * (n_time - 1), p[n_time - 1] * i)
    return body


class Gp:
    """Gaussian process regression: an arbitrary prediction"""
    ctx = None

    def __init__(self, *a, **k):
        pass

    def fit(self, x, y):
        return self

    def predict(self, x, return_std=False):
        Gp.n += 1
        y = Gp.ctx.npreal(f'gp{Gp.n}', (len(x),), -3, 3)
        return (y, np.zeros(len(x))) if return_std else y


def gaussian(c):
    Gp.ctx, Gp.n = c, 0
    rng, moving, n = Rng(c), ('22',), 3
    b = bounds(c, 2, moving)
    ns = types.SimpleNamespace(gaussian_process=types.SimpleNamespace(
        kernels=rp.sklearn.gaussian_process.kernels, GaussianProcessRegressor=Gp))
    with mock.patch.object(rp, 'sklearn', ns):
        res = path(c, 'random', 2, b, n, rng, generative_type='gaussian_process')
    common(c, res, 2, n, b, moving, start=False)


def seeded(kind):
    def body(c):
        rng, n, moving = Rng(c), 3, ('12',)
        b = {'11': (0.0, 0.0), '22': (0.0, 0.0), '12': (-0.5, 0.25)}
        k = {'strain_noise_std': 0.01}
        if kind == 'random':
            k['n_control'] = (1, 3)
        p = path(c, kind, 2, b, n, rng, random_seed=3, **k)[2]
        q = path(c, kind, 2, b, n, rng, **k)[2]
        r = path(c, kind, 2, b, n, rng, random_seed=3, **k)[2]
        c.eq('same seed, same path', p, r)
        f = path(c, kind, 2, b, n, rng, random_seed=3, time_end=2.0, **k)
        c.eq('time does not matter', f[2], p)
    return body


def fixed(kind):
    """components whose bounds coincide keep that value"""
    def body(c):
        v = c.npreal('v', (1,), -1, 1)[0]
        b = {'11': (v, v), '22': (0.0, 0.0), '12': (-0.5, 0.25)}
        o, t, p = path(c, kind, 2, b, 3, Rng(c))
        for i in range(3):
            c.eq('given value', p[i, 0], v, tol=1e-9)
            c.eq('zero', p[i, 1], 0.0)
    return body


def cycles(kind, n_cycle, n_time):
    def body(c):
        rng = Rng(c)
        b = {'11': (0.0, 0.0), '22': (-0.5, 0.25), '12': (0.0, 0.0)}
        f = (n_time - 1) // (2 * n_cycle) + 1
        k = {'strain_noise_std': 0.01}
        p = path(c, kind, 2, b, n_time, rng, n_cycle=n_cycle, random_seed=1, **k)
        q = path(c, kind, 2, b, f, rng, random_seed=1, **k)[2]
        c.true('shape', tuple(p[2].shape) == (n_time, 3) and len(p[1]) == n_time)
        c.eq('times', p[1], np.linspace(0.0, 1.0, n_time))
        per = 2 * (f - 1)
        for t in range(n_time):
            i = t % per if t < n_cycle * per else 0
            c.eq('loading and reverse loading', p[2][t], q[i if i < f else per - i])
        c.raises('too many cycles', RuntimeError, path, c, kind, 2, b, 2 * n_cycle, rng, n_cycle=n_cycle)
    return body


def norms(kind, n_dim, n_time, noise):
    """prescribed increment norm"""
    def body(c):
        rng = Rng(c)
        o = order(n_dim)
        b = {comp: (0.0, 0.0) for comp in o}
        b[o[0]] = (-1.0, 1.0)
        if not noise:
            b[o[-1]] = (-1.0, 1.0)
        s = c.npreal('s', (1,), 0.001, 0.5)[0]
        k = dict(inc_strain_norm=s)
        kk = dict(n_control=2) if kind == 'random' else {}
        if noise:
            k['strain_noise_std'] = 0.01
        q = path(c, kind, n_dim, b, n_time, rng, random_seed=1, **kk)[2]
        # directions are defined: the underlying path does not pass through the previous strain
        old = np.zeros(len(o))
        ref = [old]
        for i in range(1, n_time):
            d = q[i] - old
            n2 = sum(x * x * (1 if comp[0] == comp[1] else 2) for x, comp in zip(d, o))
            c.assume(n2 >= 1e-4)
            old = old + d * (s / n2 ** 0.5)
            if noise:
                old = old + rng.normal(scale=0.01, size=len(o))
            ref.append(old)
        rng.log = []
        p = path(c, kind, n_dim, b, n_time, rng, random_seed=1, **k, **kk)[2]
        z = [l[3] for l in rng.log if l[0] == 'normal']
        for i in range(1, n_time):
            n2 = 0.0
            for j, comp in enumerate(o):
                d = p[i, j] - p[i - 1, j]
                if noise:
                    d = d - 0.01 * z[(i - 1) * len(o) + j]
                n2 = n2 + d * d * (1 if comp[0] == comp[1] else 2)
            c.eq('norm of the strain increment', n2, s * s, tol=1e-6)
        c.eq('towards the underlying path', p, np.stack(ref), tol=1e-6)
    return body


def noisy(kind):
    def body(c):
        rng, n = Rng(c), 3
        b = {'11': (-1.0, 0.5), '22': (-0.5, 0.25), '12': (0.0, 0.0)}
        s = c.npreal('s', (1,), 0, 0.5)[0]
        k = {}
        if kind == 'random':
            b['11'] = (0.0, 0.0)
            k['n_control'] = 2
        q = path(c, kind, 2, b, n, rng, random_seed=1, **k)[2]
        rng.log = []
        p = path(c, kind, 2, b, n, rng, random_seed=1, strain_noise_std=s, **k)[2]
        z = [l for l in rng.log if l[0] == 'normal']
        c.true('one draw per component and time', len(z) == 3 * (n - 1))
        c.eq('initial strain without noise', p[0], q[0])
        for i in range(1, n):
            for j in range(3):
                _, loc, sc, v = z[(i - 1) * 3 + j]
                c.eq('added noise', p[i, j], q[i, j] + s * v)
        w = c.npreal('w', (1,), -1, 0)[0]
        c.raises('non-positive norm', RuntimeError, path, c, kind, 2, b, n, rng, inc_strain_norm=w, **k)
        if c.flag('negative'):
            c.assume(torch.as_tensor(w < 0) if not c.symbolic else bool(w < 0))
            c.raises('negative deviation', RuntimeError, path, c, kind, 2, b, n, rng, strain_noise_std=w, **k)
    return body


def rejected(kind):
    def body(c):
        rng = Rng(c)
        l = c.npreal('l', (1,), -1, 1)[0]
        u = l - c.npreal('d', (1,), 0.001, 1)[0]
        for comp in S2:
            b = {k: (-0.1, 0.1) for k in S2}
            b[comp] = (l, u)
            c.raises('reversed bounds', RuntimeError, path, c, kind, 2, b, 3, rng)
        b = {k: (-0.1, 0.1) for k in S2}
        c.raises('missing bounds', RuntimeError, path, c, kind, 3, b, 3, rng)
        b['33'] = (0.0, 1.0)
        c.raises('unknown component', RuntimeError, path, c, kind, 2, b, 3, rng)
        b = {k: (-0.1, 0.1) for k in S2}
        if kind == 'random':
            for bad in (2.0, (1, 2, 3), None, [1, 2]):
                c.raises('control points', RuntimeError, path, c, kind, 2, b, 3, rng, n_control=bad)
    return body


def tensor(c):
    build = si.StrainPathGenerator.build_strain_tensor
    for (s, n), o in ORDERS.items():
        for perm in (o, tuple(reversed(o))):
            v = c.npreal(f'v{s}{n}{perm[0]}', (len(o),), -1, 1)
            with sym_numpy(c, si):
                m = build(n, v, perm, is_symmetric=(s == 'sym'))
            c.true('shape', tuple(m.shape) == (n, n))
            for k, comp in enumerate(perm):
                i, j = int(comp[0]) - 1, int(comp[1]) - 1
                c.eq('component', m[i, j], v[k])
                if s == 'sym':
                    c.eq('symmetric', m[j, i], v[k])
    v = np.zeros(3)
    c.raises('two dimensions', RuntimeError, build, 2, np.zeros((1, 3)), S2, True)
    c.raises('component', RuntimeError, build, 2, v, ('11', '22', '13'), True)
    c.raises('index', RuntimeError, build, 2, v, ('11', '22', '121'), True)
    c.raises('duplicate', RuntimeError, build, 2, v, ('11', '22', '22'), True)
    c.raises('too few', RuntimeError, build, 2, np.zeros(2), ('11', '22'), True)
    c.raises('too few', RuntimeError, build, 2, v, S2, False)
    c.raises('too many', RuntimeError, build, 2, np.zeros(4), N2, True)


def noise(dist, var):
    """noise of the requested distribution: the right draws with the right parameters"""
    def body(c):
        rng = Rng(c)
        n, m = 2, 3
        x = np.zeros((n, m))
        g = ng.NoiseGenerator()
        g.set_noise_distribution(dist)
        par = {}
        if dist == 'uniform':
            par['amp'] = c.npreal('amp', (1,), -2, 2)[0]
        else:
            par['std'] = c.npreal('std', (1,), 0, 2)[0]
        if dist == 'spiked_gaussian':
            par['spike'], par['p_spike'] = c.npreal('spike', (1,), -3, 3)[0], 0.25
        g.set_noise_parameters(par)
        c.true('required', set(g.get_required_parameters(dist)) == set(par))
        w = None if var != 'weighted' else c.npreal('w', (n,), 0, 3)
        with sym_numpy(c, ng, random=rng):
            z = g.generate_noise_path(x, **({} if var == 'default' else {
                'noise_variability': 'homoscedastic' if var == 'homoscedastic' else 'heteroscedastic',
                'heteroscedastic_weights': w}))
        c.true('shape', tuple(z.shape) == (n, m))
        tot = [[0.0] * m for _ in range(n)]
        draws = [l for l in rng.log if l[0] != 'binomial']
        hits = [l for l in rng.log if l[0] == 'binomial']
        het = var in ('weighted', 'plain')
        c.true('number of draws', len(draws) == n * m * (2 if het else 1))
        k = 0
        for i in range(n):
            for rep in range(2 if het else 1):
                f = 1.0 if not rep else (w[i] if w is not None else 1.0)
                for j in range(m):
                    kind, a, b, u = draws[k]
                    k += 1
                    c.true('distribution', kind == ('uniform' if dist == 'uniform' else 'normal'))
                    if kind == 'uniform':
                        c.eq('symmetric', a, -b)
                        c.eq('amplitude', (b - a) * (b - a), par['amp'] * par['amp'] * f * f)
                        c.le('ordered', a, b)
                        tot[i][j] = tot[i][j] + a + (b - a) * u
                    else:
                        c.eq('mean', a, 0.0)
                        c.eq('deviation', b, par['std'] * f)
                        tot[i][j] = tot[i][j] + b * u
        if dist == 'spiked_gaussian':
            c.true('spikes', len(hits) == n * m and all(h[1] == 1 and h[2] == 0.25 for h in hits))
        else:
            c.true('no spikes', not hits)
        for i in range(n):
            for j in range(m):
                s = hits[i * m + j][3] * par['spike'] if hits else 0.0
                c.eq('noise', z[i, j], tot[i][j] + s)
        c.eq('path untouched', x, np.zeros((n, m)))
        c.raises('unknown distribution', RuntimeError, g.set_noise_distribution, 'other')
        c.raises('missing parameters', RuntimeError, g.set_noise_parameters, {})
    return body


def cases(tier):
    full = tier != 'quick'
    out = [Case('strain tensor', tensor), Case('random gaussian process', gaussian)]
    for kind in ('random', 'proportional'):
        out += [Case(f'{kind} seed', seeded(kind)), Case(f'{kind} fixed', fixed(kind)),
                Case(f'{kind} noise', noisy(kind)), Case(f'{kind} rejections', rejected(kind))]
        for nc, nt in ((1, 5), (1, 6), (2, 5), (2, 8)) + (((3, 9), (2, 9), (1, 8)) if full else ()):
            out.append(Case(f'{kind} {nc} cycles in {nt} times', cycles(kind, nc, nt)))
        for n_dim in (2, 3):
            for comp in order(n_dim):
                out.append(Case(f'{kind} {n_dim}D bounds {comp}', bounded(kind, n_dim, (comp,), 4 if full else 3)))
            out.append(Case(f'{kind} {n_dim}D increment norm', norms(kind, n_dim, 3, False)))
        out.append(Case(f'{kind} increment norm with noise', norms(kind, 2, 2 if kind == 'random' else 3, True)))
    out.append(Case('proportional two components', bounded('proportional', 2, ('11', '12'), 3)))
    for nc in (2, 4) if full else (2,):
        out.append(Case(f'random {nc} control points', bounded('random', 2, ('11',), 3, n_control=nc)))
    out.append(Case('random number of control points', bounded('random', 2, ('11',), 3, n_control=(1, 3))))
    for dist in ('uniform', 'gaussian', 'spiked_gaussian'):
        for var in ('default', 'homoscedastic', 'plain', 'weighted'):
            out.append(Case(f'noise {dist} {var}', noise(dist, var)))
    return out
