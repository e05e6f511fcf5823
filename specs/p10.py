"""Linear elasticity"""
import itertools
import torch
from .common import *
from simulators.fetorch.material.models.standard.elastic import Elastic

OUTSIDE = ('technical constants outside 0.1<=E<=1000, -0.9<=v<=0.45; finite strains (rejected by the '
           'material-point driver)')


def consts(c):
    return c.real('E', (), 0.1, 1000.0), c.real('v', (), -0.9, 0.45)


def lame(E, v):
    return E * v / ((1.0 + v) * (1.0 - 2.0 * v)), E / (2.0 * (1.0 + v))


def tangent(c):
    E, v = consts(c)
    e = symt(c, 'e', 3)
    D = Elastic.elastic_tangent_modulus({'E': E, 'v': v}, elastic_symmetry='isotropic')
    lam, mu = lame(E, v)
    s = torch.matmul(D, kelvin(e, S3))
    c.eq('Hooke law', s, kelvin(2.0 * mu * e + lam * tr(e) * torch.eye(3), S3), tol=1e-6)
    c.eq('major symmetry', D, D.t())
    # strain energy
    c.le('energy not negative', torch.zeros(()), (s * kelvin(e, S3)).sum())


def moduli(c):
    """E1111/E1122 and E/v describe the same material"""
    E, v = consts(c)
    lam, mu = lame(E, v)
    p = {'E1111': lam + 2.0 * mu, 'E1122': lam}
    a = Elastic.elastic_tangent_modulus({'E': E, 'v': v})
    b = Elastic.elastic_tangent_modulus(dict(p))
    c.eq('same tangent', a, b, tol=1e-6)
    for q in (p, {'E1111': p['E1111'], 'E2211': p['E1122']}):
        c.eq('same tangent', a, Elastic.elastic_tangent_modulus(dict(q)), tol=1e-6)
        t = Elastic.get_technical_from_elastic_moduli('isotropic', dict(q))
        c.eq('Young modulus', t['E'], E, tol=1e-6)
    t = Elastic.get_technical_from_elastic_moduli('isotropic', dict(p))
    c.eq('Young modulus', t['E'], E, tol=1e-6)
    c.eq('Poisson ratio', t['v'], v, tol=1e-6)
    t = Elastic.get_technical_from_elastic_moduli('isotropic', {'E': E, 'v': v})
    c.eq('Young modulus kept', t['E'], E)
    c.eq('Poisson ratio kept', t['v'], v)
    m = Elastic('infinitesimal', 4, {'elastic_symmetry': 'isotropic', **p})
    q = m.get_model_parameters()
    c.eq('model knows E', q['E'], E, tol=1e-6)
    c.eq('model knows v', q['v'], v, tol=1e-6)


PAIRS = list(itertools.combinations_with_replacement(('11', '22', '33', '12', '23', '13'), 2))
FREE = {
    'transverse_isotropic': ('1111', '3333', '1122', '1133', '2323'),
    'orthotropic': ('1111', '2222', '3333', '1122', '1133', '2233', '1212', '2323', '1313'),
    'monoclinic': ('1111', '2222', '3333', '1122', '1133', '2233', '1112', '2212', '3312', '1212',
                   '2323', '1313', '2313'),
    'triclinic': ('1111', '1122', '1133', '1112', '1123', '1113', '2222', '2233', '2212', '2223', '2213',
                  '3333', '3312', '3323', '3313', '1212', '1223', '1213', '2323', '2313', '1313'),
}


def aniso(sym):
    def body(c):
        val = {k: c.real('E' + k, ()) for k in FREE[sym]}
        D = Elastic.elastic_tangent_modulus({'E' + k: x for k, x in val.items()}, elastic_symmetry=sym)
        full = dict(val)
        if sym == 'transverse_isotropic':
            full.update({'2222': val['1111'], '2233': val['1133'], '1313': val['2323'],
                         '1212': 0.5 * (val['1111'] - val['1122'])})
        C = {}
        for a in S3:
            for b in S3:
                x = full.get(a + b, full.get(b + a, torch.zeros(())))
                C[a, b] = x
        e = symt(c, 'e', 3)
        got = torch.matmul(D, kelvin(e, S3))
        # sigma_ij = C_ijkl e_kl with minor symmetries
        for n, a in enumerate(S3):
            s = torch.zeros(())
            for b in S3:
                i, j = int(b[0]) - 1, int(b[1]) - 1
                s = s + C[a, b] * e[i, j] * (1.0 if i == j else 2.0)
            c.eq('generalised Hooke law', got[n], s * (1.0 if a[0] == a[1] else RT2), tol=1e-6)
        c.eq('major symmetry', D, D.t())
        c.raises('no technical constants', RuntimeError, Elastic.get_technical_from_elastic_moduli,
                 sym, {'E' + k: x for k, x in val.items()})
        for k in FREE[sym]:
            c.raises('missing modulus', RuntimeError, Elastic.elastic_tangent_modulus,
                     {'E' + q: x for q, x in val.items() if q != k}, elastic_symmetry=sym)
        # a modulus may be given by its symmetric counterpart
        D2 = Elastic.elastic_tangent_modulus({'E' + k[2:] + k[:2]: x for k, x in val.items()},
                                             elastic_symmetry=sym)
        c.eq('symmetric moduli accepted', D2, D)
    return body


def update(pt):
    n = 2 if pt == 1 else 3
    o = S2 if pt == 1 else S3

    def body(c):
        E, v = consts(c)
        m = Elastic('infinitesimal', pt, {'elastic_symmetry': 'isotropic', 'E': E, 'v': v})
        lam, mu = lame(E, v)
        st = m.state_init()
        c.eq('initially stress free', st['stress_mf'], torch.zeros(len(o)))
        c.eq('initially unstrained', st['e_strain_mf'], torch.zeros(len(o)))
        tot = torch.zeros(n, n)
        for k in range(3):
            d = symt(c, f'd{k}', n)
            snap = {q: (x.clone() if isinstance(x, torch.Tensor) else x) for q, x in st.items()}
            new, D = m.state_update(d, st)
            for q, x in snap.items():
                c.eq('old state untouched', torch.as_tensor(st[q]) * 1.0, torch.as_tensor(x) * 1.0)
            tot = tot + d
            e3 = tot if n == 3 else embed(tot)
            s3 = 2.0 * mu * e3 + lam * tr(e3) * torch.eye(3)
            c.eq('stress depends on the total strain only', new['stress_mf'],
                 kelvin(s3[:n, :n], o), tol=1e-6)
            c.eq('total strain', new['strain_mf'], kelvin(tot, o))
            c.eq('elastic strain', new['e_strain_mf'], kelvin(tot, o))
            c.true('never plastic, never failed', not new['is_plast'] and not new['is_su_fail'])
            if n == 2:
                c.eq('out-of-plane stress', new['stress_33'], s3[2, 2], tol=1e-6)
                c.eq('out-of-plane strain', new['e_strain_33'], torch.zeros(()))
            c.true('same state layout', sorted(new) == sorted(snap))
            # the tangent maps strain increments onto stress increments
            c.eq('tangent', torch.matmul(D, kelvin(d, o)), new['stress_mf'] - st['stress_mf'], tol=1e-6)
            st = new
    return body


def reject(c):
    x = c.real('x', (), 1, 2)
    for s in FREE:
        c.raises('anisotropic model rejected', RuntimeError, Elastic, 'infinitesimal', 4,
                 {'elastic_symmetry': s, **{'E' + k: x for k in FREE[s]}})
    c.raises('unknown symmetry', RuntimeError, Elastic.elastic_tangent_modulus, {'E': x, 'v': 0.3},
             elastic_symmetry='cubic')
    c.raises('missing constants', RuntimeError, Elastic, 'infinitesimal', 4,
             {'elastic_symmetry': 'isotropic', 'E': x})


def cases(tier):
    out = [Case('isotropic tangent', tangent), Case('moduli and technical constants', moduli),
           Case('state update 2D', update(1), bounds='three successive increments, all strains'),
           Case('state update 3D', update(4), bounds='three successive increments, all strains'),
           Case('rejections', reject)]
    out += [Case(f'{s} tangent', aniso(s), bounds='all moduli and strains') for s in FREE]
    return out
