"""Lou-Zhang-Yoon plasticity"""
import math
import torch
from unittest import mock
from .common import *
from .plast import *
from simulators.fetorch.material.models.standard.lou import LouZhangYoon
from simulators.fetorch.material.models.vmap.lou import LouZhangYoonVMAP

E, V = 100.0, 0.25
G, K = E / (2 * (1 + V)), E / (3 * (1 - 2 * V))
N3D, N2D = torch.tensor([1.0, 2.0, 2.0]) / 3, torch.tensor([0.6, 0.8, 0.0])

OUTSIDE = ('E=100, v=0.25 and the stated yield parameters; strain directions: uniaxial (steps) and one triaxial (decision, Newton system) with '
           'free magnitude and free volumetric strain; quick: previous plastic strain 0 or 1/8; torch.linalg.solve is exact; '
           'accumulated plastic strain may decrease when a trial pressure within 5 per cent below the apex is returned to it; '
           'convexity search of the yield parameters')


def params(hl, a, b, c, d, assoc):
    return {'elastic_symmetry': 'isotropic', 'E': E, 'v': V, 'euler_angles': (0.0, 0.0, 0.0),
            'hardening_law': hl, 'hardening_parameters': {}, 'a_hardening_law': a, 'a_hardening_parameters': {},
            'b_hardening_law': b, 'b_hardening_parameters': {}, 'c_hardening_law': c, 'c_hardening_parameters': {},
            'd_hardening_law': d, 'd_hardening_parameters': {}, 'is_associative_hardening': assoc}


class Lin:
    """linear law"""

    def __init__(self, v, h=0.0):
        self.v, self.h = v, h

    def __call__(self, par, acc_p_strain):
        return self.v + self.h * acc_p_strain, torch.as_tensor(self.h, dtype=torch.float64)

    def value(self, acc):
        return self.v + self.h * acc


def effective(st, a, b, c, d):
    """effective stress and its derivative with respect to stress"""
    s, i1 = dev(st), tr(st)
    s2 = s @ s
    j2, j3 = 0.5 * tr(s2), tr(s2 @ s) / 3.0
    w = torch.sqrt(j2 ** 3 - c * j3 ** 2)
    y = (w - d * j3) ** (1 / 3)
    dj3 = s2 - 2.0 / 3.0 * j2 * torch.eye(3)
    dw = (3.0 * j2 ** 2 * s - 2.0 * c * j3 * dj3) / (2.0 * w) - d * dj3
    return a * (b * i1 + y), a * (b * torch.eye(3) + dw * y / (3.0 * (w - d * j3)))


class Solve:
    """an exact linear solver: any solution (within the span of the given directions)"""

    def __init__(self, c, dirs, n):
        self.c, self.dirs, self.n, self.k, self.seen = c, dirs, n, 0, {}

    def project(self, a, b):
        q = torch.stack(self.dirs)
        n = len(self.dirs)
        m = q @ a @ q.T
        m = [[m[i, j] for j in range(n)] for i in range(n)]
        y = q @ b
        y = [y[i] for i in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                f = m[j][i] / m[i][i]
                m[j] = [m[j][k] - f * m[i][k] for k in range(n)]
                y[j] = y[j] - f * y[i]
        x = [None] * n
        for i in reversed(range(n)):
            x[i] = (y[i] - sum(m[i][k] * x[k] for k in range(i + 1, n))) / m[i][i]
        return sum(x[i] * v for i, v in enumerate(self.dirs))

    def __call__(self, a, b, **kw):
        from symtorch import tensor as T
        b0 = b.reshape(-1)
        if all(same_value(self.c, v, torch.zeros(())) for v in b0):
            return torch.zeros_like(b)
        key = tuple(e.id for t in (a, b0) for e in T.A(t).reshape(-1))
        if key in self.seen:
            return self.seen[key]
        self.k += 1
        if self.k > self.n:
            self.c.assume(torch.tensor(False))
        d = self.project(a, b0)
        r = a @ d - b0
        if not all(same_value(self.c, v, torch.zeros(())) for v in r):
            x = self.c.real(f'x{self.k}', (len(self.dirs),), -100, 100)
            d = sum(x[i] * v for i, v in enumerate(self.dirs))
            r = a @ d - b0
            for i in range(r.shape[0]):
                self.c.assume(r[i] == 0.0)
        self.seen[key] = d.reshape(b.shape)
        return self.seen[key]


def span(pt, sign):
    n = N2D if pt == 1 else N3D
    u = sign * (3.0 * torch.outer(n, n) - torch.eye(3))
    z = torch.zeros(8)
    return u, [torch.cat([kelvin(u, S3), torch.zeros(2)]), torch.cat([kelvin(torch.eye(3), S3), torch.zeros(2)]),
               z.index_fill(0, torch.tensor([6]), 1.0), z.index_fill(0, torch.tensor([7]), 1.0)]


def step(cls, pt, assoc, h=10.0, sign=1.0, n=4, b=0.25, kw=None, vol=None, acc=None):
    def body(c):
        yl, a, bb, cc, d = Lin(2.0, h), Lin(1.5), Lin(b), Lin(0.5), Lin(-1.5 * sign)
        m = cls('infinitesimal', pt, params(yl, a, bb, cc, d, assoc), **(kw or {}))
        u, dirs = span(pt, sign)
        old, inc = old_state(c, m, pt, 0.05, radial=u)
        vv = c.real('vol', (), -0.05, 0.05) if vol is None else torch.tensor(vol)
        k = 2 if pt == 1 else 3
        old['e_strain_mf'] = old['e_strain_mf'] + kelvin(vv * torch.eye(k), order(pt))
        if pt == 1:
            old['e_strain_33'] = old['e_strain_33'] + vv
        if acc is not None:
            old['acc_p_strain'] = torch.tensor(acc)
        ref = snap(old)
        et = full(ref['e_strain_mf'], ref.get('e_strain_33'), pt) + inc3(inc, pt)
        st = hooke(E, V, et)
        ao = ref['acc_p_strain']
        y0 = yl.value(ao)
        ef, _ = effective(st, 1.5, b, 0.5, -1.5 * sign)
        # the return to the cone does not pass its apex
        fn2 = 2.25 * (3.0 * b ** 2 + 6.0 / 9.0)
        mult = (ef - y0) / (2.25 * (9.0 * K * b ** 2 + 12.0 * G / 9.0) + h * (1.0 if assoc else math.sqrt(2.0 / 3.0 * fn2)))
        t = c.real('t', (), 0.001, 0.05)
        apex = tr(st) / 3.0 > 0.95 * y0 / (4.5 * b) if b else torch.tensor(False)
        c.assume(torch.logical_or(apex, t - 0.5 * mult >= 0.01 * t))
        sv = Solve(c, dirs, n)
        with mock.patch.object(torch.linalg, 'solve', sv) if c.symbolic else contextlib.nullcontext():
            new, _ = m.state_update(inc, old)
        en = full(new['e_strain_mf'], new.get('e_strain_33'), pt)
        sn = full(new['stress_mf'], new.get('stress_33'), pt)
        c.eq('total strain', new['strain_mf'], ref['strain_mf'] + kelvin(inc, order(pt)))
        c.true('no failure', torch.logical_not(new['is_su_fail']))
        c.eq('stress is elastic', comps(sn), comps(hooke(E, V, en)), tol=1e-6)
        da = new['acc_p_strain'] - ao
        if not bool(new['is_plast']):
            c.eq('elastic step', comps(en), comps(et))
            c.eq('no plastic flow', da, torch.zeros(()))
            c.le('inside the yield surface', ef, 1.000001 * y0)
            return
        c.true('plastic only beyond yield', ef > y0)
        y1 = yl.value(new['acc_p_strain'])
        dp, p, pa = et - en, tr(st) / 3.0, y0 / (4.5 * b) if b else None
        if b and bool(p > 0.95 * pa):
            c.eq('no deviatoric stress at the apex', comps(dev(sn)), torch.zeros(6))
            eta = 4.5 * b
            c.eq('accumulated plastic strain at the apex', da, 2.0 / math.sqrt(3) * math.sqrt(1.0 - eta ** 2 / 3.0) / eta * tr(dp), tol=1e-6)
            c.true('plastic flow', torch.logical_or(da >= 0.0, p <= pa))
            c.close('apex pressure', tr(sn) / 3.0 * eta, y1, 1e-5 * y1)
            return
        e1, fl = effective(sn, 1.5, b, 0.5, -1.5 * sign)
        c.true('plastic flow', da > 0.0)
        c.close('on the yield surface', e1, y1, 1e-5 * y1)
        if not assoc:
            da = da / torch.sqrt(2.0 / 3.0 * dd(fl, fl))
        c.eq('associative flow', comps(dp), da * comps(fl), tol=1e-5)
    return body


class Slope:
    """any law through a given value: free slope"""

    def __init__(self, v, h):
        self.v, self.h = v, h

    def __call__(self, par, acc_p_strain):
        return self.v, self.h


def newton(cls, pt, assoc, kw=None, vol=None):
    """the linear system of an iteration is the linearisation of the state update equations"""
    def body(c):
        z = torch.zeros(())
        fixed = kw is not None and kw['is_fixed_yield_parameters']
        hl = Slope(c.real('y', (), 0.5, 1), c.real('h', (), 0, 10))
        laws = [Slope(torch.tensor(v), z * hl.h if fixed else c.real('h' + n, (), -1, 1))
                for n, v in (('a', 1.5), ('b', 0.25), ('c', 19 / 36), ('d', -1.5))]
        m = cls('infinitesimal', pt, params(hl, *laws, assoc), **(kw or {}))
        if pt == 1:
            q = torch.tensor([[0.6, 0.8, 0.0], [0.8, -0.6, 0.0], [0.0, 0.0, 1.0]])
        else:
            q = torch.tensor([[1.0, 2.0, 2.0], [2.0, 1.0, -2.0], [2.0, -2.0, 1.0]]) / 3
        u = q @ torch.diag(torch.tensor([3.0, -1.0, -2.0])) @ q.T / (2 * G)
        vv = c.real('vol', (), -0.05, 0) if vol is None else torch.tensor(vol)
        et, e1 = u + vv * torch.eye(3), 0.5 * u + 0.5 * vv * torch.eye(3)
        x = torch.cat([kelvin(e1, S3), c.real('acc', (1,), 0, 1), c.real('mult', (1,), 0.01, 0.1)])
        n = 2 if pt == 1 else 3
        inc = symt(c, 'd', n, -0.05, 0.05)
        old = dict(m.state_init())
        old['e_strain_mf'] = kelvin(et[:n, :n] - inc, order(pt))
        ao = old['acc_p_strain'] = c.real('ao', (), 0.1, 1)
        if pt == 1:
            old['e_strain_33'] = et[2, 2]
        c.assume(effective(hooke(E, V, et), *(w.v for w in laws))[0] > 1.001 * hl.v)
        seen = []

        class Stop(Exception):
            pass

        def solve(a, b, **k):
            seen.append((a, b.reshape(-1)))
            if len(seen) == 2:
                raise Stop
            return (x - torch.cat([kelvin(et, S3), ao.reshape(1), torch.zeros(1)])).reshape(b.shape)
        with mock.patch.object(torch.linalg, 'solve', solve):
            try:
                m.state_update(inc, old)
            except Stop:
                pass
        if len(seen) < 2 or tuple(seen[1][0].shape) != (8, 8):
            return

        def residual(v):
            e = unkelvin(v[:6], S3, 3)
            da = v[6] - x[6]
            par = [w.v + w.h * da for w in laws]
            ef, fl = effective(hooke(E, V, e), *par)
            k = 1.0 if assoc else torch.sqrt(2.0 / 3.0 * dd(fl, fl))
            return torch.cat([kelvin(e - et + v[7] * fl, S3), torch.stack([v[6] - ao - v[7] * k, ef - hl.v - hl.h * da])])
        r, J = residual(x), c.jacat(residual, x)
        a, b = seen[1]
        for i in range(8):
            c.eq(f'Newton equation {i}', a[i] * r[i], -J[i] * b[i], tol=1e-6)
    return body


def decision(cls, pt, kw=None):
    """elastic or plastic along a triaxial direction; a return mapping that makes no progress fails"""
    def body(c):
        laws = hl, la, lb, lc, ld = Lin(2.0, 10.0), Lin(1.5, 0.5), Lin(0.25, -0.125), Lin(19 / 36), Lin(-1.5)
        m = cls('infinitesimal', pt, params(*laws, True), **(kw or {}))
        if pt == 1:
            q = torch.tensor([[0.6, 0.8, 0.0], [0.8, -0.6, 0.0], [0.0, 0.0, 1.0]])
        else:
            q = torch.tensor([[1.0, 2.0, 2.0], [2.0, 1.0, -2.0], [2.0, -2.0, 1.0]]) / 3
        u = q @ torch.diag(torch.tensor([3.0, -1.0, -2.0])) @ q.T
        old, inc = old_state(c, m, pt, 0.05, radial=u)
        vol = c.real('vol', (), -0.05, 0.01)
        n = 2 if pt == 1 else 3
        old['e_strain_mf'] = old['e_strain_mf'] + kelvin(vol * torch.eye(n), order(pt))
        if pt == 1:
            old['e_strain_33'] = old['e_strain_33'] + vol
        ref = snap(old)
        et = full(ref['e_strain_mf'], ref.get('e_strain_33'), pt) + inc3(inc, pt)
        st = hooke(E, V, et)
        y, a, b, cc, d = (w.value(ref['acc_p_strain']) for w in laws)
        ef, _ = effective(st, a, b, cc, d)
        # no apex return
        c.assume(tr(st) * a * b <= 0.94 * y)
        with mock.patch.object(torch.linalg, 'solve', lambda A, r, **k: torch.zeros_like(r)):
            new, _ = m.state_update(inc, old)
        c.eq('total strain', new['strain_mf'], ref['strain_mf'] + kelvin(inc, order(pt)))
        for k in ref:
            if isinstance(ref[k], torch.Tensor) and ref[k].dtype == torch.float64:
                c.eq('previous state unchanged', old[k], ref[k])
        if bool(new['is_plast']):
            c.true('plastic only beyond yield', ef > y)
            c.true('failure is flagged', torch.logical_or(new['is_su_fail'], ef <= 1.00001 * y))
            if not bool(new['is_su_fail']):
                return
            for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain') + (('e_strain_33', 'stress_33') if pt == 1 else ()):
                c.true('no state after a failure', torch.all(torch.isnan(new[k])))
            return
        en = full(new['e_strain_mf'], new.get('e_strain_33'), pt)
        sn = full(new['stress_mf'], new.get('stress_33'), pt)
        c.true('no failure', torch.logical_not(new['is_su_fail']))
        c.eq('elastic step', comps(en), comps(et))
        c.eq('no plastic flow', new['acc_p_strain'], ref['acc_p_strain'])
        c.le('inside the yield surface', ef, 1.000001 * y)
        c.eq('stress is elastic', comps(sn), comps(st), tol=1e-6)
    return body


def make(cls):
    return lambda p: cls('infinitesimal', p, params(Lin(2.0), Lin(1.5), Lin(0.25), Lin(0.5), Lin(0.5), True))


def cases(tier):
    out, th = [], tier != 'quick'
    o = {'cost': 10}
    for cls in (LouZhangYoon, LouZhangYoonVMAP):
        n, vm = cls.__name__, cls is LouZhangYoonVMAP
        free = {'is_fixed_yield_parameters': False}
        for pt in (1, 4):
            out.append(Case(f'{n} {pt} initial state', initial(make(cls), pt)))
            out.append(Case(f'{n} {pt} decision', decision(cls, pt), dict(o)))
            for assoc in (True, False):
                kws = (None,) if not vm else ({'is_fixed_yield_parameters': True}, free)
                for kw in kws:
                    out.append(Case(f'{n} {pt} Newton {assoc} {kw}', newton(
                        cls, pt, assoc, kw, vol=-0.01 if not vm and not assoc and not th else None), dict(o)))
        for pt, kws in ((1, dict(acc=0.125)), (4, dict(acc=0.0)), (4, dict(acc=0.125, assoc=False, b=4 / 17)), (4, dict(acc=0.125, sign=-1.0, h=0.0)),
                        (4, dict(acc=0.25, b=0.0, vol=0.0)), (4, dict(acc=0.125, kw=free if vm else None))) + (
                ((1, dict()), (4, dict()), (1, dict(acc=0.0, assoc=False, b=4 / 17)), (4, dict(assoc=False, b=4 / 17)), (1, dict(acc=0.125, sign=-1.0)), (1, dict(acc=0.125))) if th else ()):
            if vm and kws.get('b') == 0.0:
                continue
            kws = dict(kws)
            out.append(Case(f'{n} {pt} step {kws}', step(cls, pt, kws.pop('assoc', True), **kws), dict(o)))
    return out
