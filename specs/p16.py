"""Consistent tangents"""
import torch
from .common import *
from .plast import *
from .p12 import params, VonMises, VonMisesVMAP
from . import p13, p14


def backstress(full):
    def extra(c, s):
        if 'back_stress_33' in s:
            b = p13.devsym(c, 'b', 1, -3, 3) if full else \
                (c.real('b', (), -3, 3) if full is None else 1.5) * torch.tensor([[1.0, 0.5, 0.0], [0.5, -2.0, 0.0], [0.0, 0.0, 1.0]])
            s['back_stress_mf'], s['back_stress_33'] = kelvin(b[:2, :2], S2), b[2, 2]
        else:
            b = p13.devsym(c, 'b', 4, -3, 3) if full else \
                (c.real('b', (), -3, 3) if full is None else 1.5) * torch.tensor([[1.0, 0.5, 0.25], [0.5, -2.0, 1.0], [0.25, 1.0, 1.0]])
            s['back_stress_mf'] = kelvin(b, S3)
    return extra

OUTSIDE = ('E=100, v=0.25, linear hardening laws of fixed slope; strains within [-0.05,0.05]; quick: one back '
           'stress; vectorised Drucker-Prager: deviatoric trial strain norm of at least 1e-4')


def tangent(make, pt, extra=None, tol=None, devmin=None, fix33=False):
    def body(c):
        m = make()
        n = 2 if pt == 1 else 3
        k = n * (n + 1) // 2
        d = symt(c, 'd', n, -0.05, 0.05)
        x = c.real('et', (k,), -0.05, 0.05)
        z33 = torch.tensor(0.01) if fix33 else c.real('eo33', (), -0.05, 0.05)
        so = c.real('so', (k,), -0.5, 0.5)
        ao = c.real('ao', (), 0, 1)
        pos = [0, 3, 1] if n == 2 else [0, 3, 5, 1, 4, 2]
        # order of x: 11,12,22 (2D) / 11,12,13,22,23,33 (3D)
        names = ('11', '12', '22') if n == 2 else ('11', '12', '13', '22', '23', '33')
        out = {}

        def f(y):
            idx = {}
            for j, o in enumerate(names):
                idx[int(o[0]) - 1, int(o[1]) - 1] = idx[int(o[1]) - 1, int(o[0]) - 1] = y[j]
            et = torch.stack([torch.stack([idx[i, j] for j in range(n)]) for i in range(n)])
            s = dict(m.state_init())
            s['e_strain_mf'] = kelvin(et - d, order(pt))
            s['strain_mf'] = so
            s['acc_p_strain'] = ao
            if pt == 1:
                s['e_strain_33'] = z33
            if extra:
                extra(c, s)
            if devmin:
                t = dev(embed(et, z33) if pt == 1 else et)
                c.assume(dd(t, t) >= devmin ** 2)
            new, D = m.state_update(d, s)
            out.setdefault('D', D)
            return new['stress_mf']
        v, J = c.jac(f, x)
        D = out['D']
        for j, o in enumerate(names):
            col = order(pt).index(o)
            w = D[:, col] * (1.0 if o[0] == o[1] else RT2)
            if tol is None:
                c.eq('tangent is the derivative of the stress', w, J[:, j], tol=1e-4)
            else:
                c.close('tangent is the derivative of the stress', w, J[:, j], tol)
    return body


def cases(tier):
    out = []
    for pt in (1, 4):
        out.append(Case(f'VonMises {pt}', tangent(lambda pt=pt: VonMises('infinitesimal', pt, params('linear', {'s0': 2.0, 'a': 10.0})), pt)))
        out.append(Case(f'VonMisesVMAP {pt}', tangent(lambda pt=pt: VonMisesVMAP('infinitesimal', pt, params('linear', {'s0': 2.0, 'a': 10.0})), pt), {'tiny': '1e-7'}))
    for cls, o in ((p13.VonMisesMixed, {}), (p13.VonMisesMixedVMAP, {'tiny': '1e-7'})):
        for pt in (1, 4):
            for f, t in ((False, 'fixed back stress'), (None, 'back stress of any size'), (True, 'any back stress')):
                if f is False or tier != 'quick':
                    out.append(Case(f'{cls.__name__} {pt} {t}', tangent(lambda pt=pt, cls=cls: cls(
                        'infinitesimal', pt, p13.params(p13.lin(2.0, 10.0), p13.lin(0.0, 30.0))), pt, extra=backstress(f)), dict(o)))
    for cls, o in ((p14.DruckerPrager, {}), (p14.DruckerPragerVMAP, {'tiny': '1e-7'})):
        for pt in (1, 4):
            out.append(Case(f'{cls.__name__} {pt}', tangent(lambda pt=pt, cls=cls: cls(
                'infinitesimal', pt, p14.params(p14.get_hardening_law('linear'), {
                    's0': torch.tensor(2.0), 'a': torch.tensor(10.0)})), pt, devmin=1e-4 if o else None, fix33=bool(o) and tier == 'quick'), dict(o)))
    return out
