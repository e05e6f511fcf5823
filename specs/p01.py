"""Matricial (Kelvin) storage of tensors"""
import torch
from .common import *
from simulators.fetorch.math import matrixops as mo

OUTSIDE = 'component orders other than the listed ones; complex tensors; device placement'


def so(n, order, kel):
    def body(c):
        t = symt(c, 't', n)
        u = symt(c, 'u', n)
        m = mo.get_tensor_mf(t, n, order, is_kelvin_notation=kel)
        v = mo.vget_tensor_mf(t, n, order, is_kelvin_notation=kel)
        w = mo.vget_tensor_mf(u, n, order, is_kelvin_notation=kel)
        c.eq('loop=vectorised', m, v)
        c.true('length', m.shape[0] == len(order))
        for f in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
            c.eq('round trip ' + f.__name__, f(m, n, order, is_kelvin_notation=kel), t)
        if kel:
            c.eq('inner product preserved', (v * w).sum(), dd(t, u))
            c.eq('Kelvin components', v, kelvin(t, order))
        a = c.real('m', (len(order),))
        b = mo.vget_tensor_from_mf(a, n, order, is_kelvin_notation=kel)
        c.eq('tensor symmetric', b, b.t())
        c.eq('loop inverse=vectorised', mo.get_tensor_from_mf(a, n, order, is_kelvin_notation=kel), b)
        c.eq('round trip from matricial form',
             mo.vget_tensor_mf(b, n, order, is_kelvin_notation=kel), a)
        # factor reported for each component
        if kel:
            for i, o in enumerate(order):
                c.eq('kelvin_factor', torch.tensor(mo.kelvin_factor(i, order)),
                     torch.tensor(1.0 if o[0] == o[1] else RT2))
                for j, p in enumerate(order):
                    r = (1.0 if o[0] == o[1] else RT2) * (1.0 if p[0] == p[1] else RT2)
                    c.eq('kelvin_factor pair', torch.tensor(mo.kelvin_factor([i, j], order)),
                         torch.tensor(r))
    return body


def so_kelvin_off(n, order):
    def body(c):
        t = symt(c, 't', n)
        m = mo.get_tensor_mf(t, n, order, is_kelvin_notation=False)
        v = mo.vget_tensor_mf(t, n, order, is_kelvin_notation=False)
        c.eq('loop=vectorised', m, v)
        for i, o in enumerate(order):
            c.eq('plain components', v[i], t[int(o[0]) - 1, int(o[1]) - 1])
        for f in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
            c.eq('round trip', f(v, n, order, is_kelvin_notation=False), t)
        q = minor_sym4(c, 'q', n)
        w = mo.vget_tensor_mf(q, n, order, is_kelvin_notation=False)
        c.eq('loop=vectorised fourth order',
             mo.get_tensor_mf(q, n, order, is_kelvin_notation=False), w)
        for f in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
            c.eq('fourth-order round trip', f(w, n, order, is_kelvin_notation=False), q)
    return body


def so_nsym(n, order):
    def body(c):
        t = c.real('t', (n, n))
        u = c.real('u', (n, n))
        m = mo.get_tensor_mf(t, n, order)
        v = mo.vget_tensor_mf(t, n, order)
        c.eq('loop=vectorised', m, v)
        for f in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
            c.eq('round trip', f(m, n, order), t)
        c.eq('inner product', (v * mo.vget_tensor_mf(u, n, order)).sum(), (t * u).sum())
        for i, o in enumerate(order):
            c.eq('component', v[i], t[int(o[0]) - 1, int(o[1]) - 1])
    return body


def fo(n, order):
    def body(c):
        t = minor_sym4(c, 'c', n)
        e = symt(c, 'e', n)
        m = mo.get_tensor_mf(t, n, order)
        v = mo.vget_tensor_mf(t, n, order)
        c.eq('loop=vectorised', m, v)
        for f in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
            c.eq('round trip ' + f.__name__, f(m, n, order), t)
        ref = torch.stack([torch.stack([dd(t[i, j], e) for j in range(n)]) for i in range(n)])
        c.eq('contraction is a matrix product',
             torch.matmul(v, mo.vget_tensor_mf(e, n, order)), mo.vget_tensor_mf(ref, n, order))
    return body


def fo_nsym(n, order):
    def body(c):
        t = c.real('c', (n, n, n, n))
        m = mo.get_tensor_mf(t, n, order)
        v = mo.vget_tensor_mf(t, n, order)
        c.eq('loop=vectorised', m, v)
        for f in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
            c.eq('round trip', f(m, n, order), t)
    return body


def states(c):
    for o2, o3 in ((S2, S3), (N2, N3)):
        a = c.real('a' + str(len(o2)), (len(o2),))
        z = c.real('z', ())
        m = mo.get_state_3Dmf_from_2Dmf(1, a, z)
        v = mo.vget_state_3Dmf_from_2Dmf(a, z)
        c.eq('loop=vectorised 2D->3D', m, v)
        for k, o in enumerate(o3):
            ref = a[o2.index(o)] if o in o2 else (z if o == '33' else torch.zeros(()))
            c.eq('3D component', v[k], ref)
        c.eq('2D from 3D', mo.get_state_2Dmf_from_3Dmf(1, m), a)
        c.eq('2D from 3D (vectorised)', mo.vget_state_2Dmf_from_3Dmf(v), a)
        # fourth order: in-plane block
        b = c.real('b' + str(len(o3)), (len(o3), len(o3)))
        p, q = mo.get_state_2Dmf_from_3Dmf(1, b), mo.vget_state_2Dmf_from_3Dmf(b)
        c.eq('loop=vectorised block', p, q)
        for i, x in enumerate(o2):
            for j, y in enumerate(o2):
                c.eq('in-plane block', q[i, j], b[o3.index(x), o3.index(y)])


def params(c):
    x = c.real('x', ())
    for pt, n, s, ns in ((1, 2, S2, N2), (4, 3, S3, N3)):
        r = mo.get_problem_type_parameters(pt)
        c.true('problem type', tuple(r) == (n, s, ns))
    c.raises('unknown problem type', RuntimeError, mo.get_problem_type_parameters, 3)
    c.raises('duplicate component', RuntimeError, mo.get_tensor_mf,
             torch.ones(2, 2) * x, 2, ('11', '11', '12'))
    c.raises('wrong number of components', RuntimeError, mo.vget_tensor_mf,
             torch.ones(2, 2) * x, 2, ('11', '12'))


def cases(tier):
    P3 = ('33', '11', '12', '22', '13', '23')
    P2 = ('12', '22', '11')
    out = [Case('state maps', states, bounds='all 2D/3D vectors and 3D blocks'),
           Case('parameters', params)]
    for n, os_ in ((2, (S2, P2)), (3, (S3, P3))):
        for o in os_:
            out.append(Case(f'second order n={n} {o}', so(n, o, True),
                            bounds='all real symmetric tensors'))
            out.append(Case(f'second order plain n={n} {o}', so_kelvin_off(n, o),
                            bounds='all real symmetric tensors'))
            out.append(Case(f'fourth order n={n} {o}', fo(n, o),
                            bounds='all real minor-symmetric tensors'))
    for n, o in ((2, N2), (3, N3)):
        out.append(Case(f'second order nonsymmetric n={n}', so_nsym(n, o)))
        out.append(Case(f'fourth order nonsymmetric n={n}', fo_nsym(n, o)))
    return out
