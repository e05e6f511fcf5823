"""Numerical quadrature"""
import itertools
from math import factorial
import torch
from .common import *
from .elements import ELEMENTS, NGAUSS, volume
from simulators.fetorch.element.type.quadratures import gauss_quadrature

OUTSIDE = 'quadratures with other point counts (the code rejects them)'
# (points, domain): (per-direction degree for tensor domains | total degree for simplices)
RULES = {(1, 'linear'): 1, (2, 'linear'): 3, (3, 'linear'): 5,
         (1, 'quadrilateral'): 1, (4, 'quadrilateral'): 3, (9, 'quadrilateral'): 5,
         (1, 'triangular'): 1, (3, 'triangular'): 2,
         (1, 'hexahedral'): 1, (8, 'hexahedral'): 3, (27, 'hexahedral'): 5,
         (1, 'tetrahedral'): 1, (4, 'tetrahedral'): 2}
DIMS = {'linear': 1, 'quadrilateral': 2, 'triangular': 2, 'hexahedral': 3, 'tetrahedral': 3}


def monomials(d, deg, simplex):
    for e in itertools.product(range(deg + 1), repeat=d):
        if not simplex or sum(e) <= deg:
            yield e


def exact(e, simplex):
    from fractions import Fraction
    if simplex:
        n = 1
        for k in e:
            n *= factorial(k)
        return Fraction(n, factorial(sum(e) + len(e)))
    r = Fraction(1)
    for k in e:
        r *= Fraction(2, k + 1) if k % 2 == 0 else 0
    return r


def rule(n, dom):
    d, deg = DIMS[dom], RULES[n, dom]
    simplex = dom in ('triangular', 'tetrahedral')

    def body(c):
        gc, gw = gauss_quadrature(n, dom)
        keys = [str(i + 1) for i in range(n)]
        c.true('labels', sorted(gc, key=int) == keys and sorted(gw, key=int) == keys)
        mons = list(monomials(d, deg, simplex))
        a = c.real('a', (len(mons),))
        num = torch.zeros(())
        for k in keys:
            val = torch.zeros(())
            for m, e in enumerate(mons):
                t = a[m]
                for i, p in enumerate(e):
                    for _ in range(p):
                        t = t * gc[k][i]
                val = val + t
            num = num + gw[k] * val
        ref = torch.zeros(())
        for m, e in enumerate(mons):
            x = exact(e, simplex)
            ref = ref + a[m] * (x.numerator / x.denominator)
        c.eq('exact integral of every polynomial of the stated degree', num, ref)
        for k in keys:
            c.le('positive weight', torch.tensor(1e-12), gw[k])
            for i in range(d):
                if simplex:
                    c.le('point inside', torch.zeros(()), gc[k][i])
                else:
                    c.le('point inside', gc[k][i] * gc[k][i], torch.ones(()))
            if simplex:
                c.le('point inside', gc[k].sum(), torch.ones(()))
    return body


def element(name, n):
    def body(c):
        el = ELEMENTS[name](n_gauss=n)
        s = c.real('s', ())
        c.true('number of points', el.get_n_gauss() == n)
        gc, gw = el.get_gauss_integration_points()
        bc, bw = el.get_batched_gauss_integration_points()
        tot = torch.zeros(())
        for i in range(n):
            c.eq('batched point', bc[i] * s, gc[str(i + 1)] * s)
            c.eq('batched weight', bw[i] * s, gw[str(i + 1)] * s)
            tot = tot + gw[str(i + 1)]
        c.eq('weights integrate the parent domain', tot * s, s * volume(name))
        # returned containers are copies
        gc['1'] = gc['1'] * 0.0 + s
        gw['1'] = gw['1'] * 0.0 + s
        gc2, gw2 = el.get_gauss_integration_points()
        c.eq('internal points unchanged', gc2['1'], bc[0])
        c.eq('internal weights unchanged', gw2['1'], bw[0])
    return body


def reject(c):
    c.real('x', ())
    for name, f in ELEMENTS.items():
        for n in (0, 2, 5, 7):
            if n not in NGAUSS[name]:
                c.raises('unavailable rule rejected', RuntimeError, f, n_gauss=n)
    c.raises('unknown domain', RuntimeError, gauss_quadrature, 1, 'sphere')


def cases(tier):
    out = [Case(f'{n}-point {d}', rule(n, d),
                bounds=f'all polynomials of degree {RULES[n, d]}') for n, d in RULES]
    out += [Case(f'{e} {n} points', element(e, n)) for e in ELEMENTS for n in NGAUSS[e]]
    out.append(Case('rejections', reject))
    return out
