"""Voigt notation"""
import torch
from .common import *
from simulators.fetorch.math import voigt_notation as vn

OUTSIDE = 'component orders other than the listed ones'


def voigt(n, order):
    def body(c):
        e = symt(c, 'e', n)
        s = symt(c, 's', n)
        gam = torch.stack([e[int(o[0]) - 1, int(o[1]) - 1] * (1.0 if o[0] == o[1] else 2.0)
                           for o in order])
        for f in (vn.get_strain_from_vmf, vn.vget_strain_from_vmf):
            c.eq('strain from engineering vector ' + f.__name__, f(gam, n, order), e)
        m, v = vn.get_stress_vmf(s, n, order), vn.vget_stress_vmf(s, n, order)
        c.eq('loop=vectorised stress', m, v)
        c.eq('work conjugacy', (v * gam).sum(), dd(s, e))
        for k, o in enumerate(order):
            c.eq('stress component', v[k], s[int(o[0]) - 1, int(o[1]) - 1])
        g = c.real('g', (len(order),))
        a, b = vn.get_strain_from_vmf(g, n, order), vn.vget_strain_from_vmf(g, n, order)
        c.eq('loop=vectorised strain', a, b)
        c.eq('strain symmetric', b, b.t())
        vol, de = vn.get_projection_tensors_vmf(n, order)
        x = torch.matmul(vol, v)
        y = torch.matmul(de, v)
        p = tr(s) / n
        for k, o in enumerate(order):
            c.eq('volumetric part', x[k], p if o[0] == o[1] else torch.zeros(()))
        c.eq('split is additive', x + y, v)
        c.eq('volumetric idempotent', torch.matmul(vol, x), x)
        c.eq('deviatoric idempotent', torch.matmul(de, y), y)
        c.eq('orthogonal', torch.matmul(vol, y), torch.zeros(len(order)))
    return body


def cases(tier):
    P3 = ('33', '11', '12', '22', '13', '23')
    return [Case(f'voigt n={n} {o}', voigt(n, o), bounds='all real symmetric tensors')
            for n, o in ((2, S2), (2, ('12', '22', '11')), (3, S3), (3, P3))]
