"""von Mises plasticity with isotropic and kinematic hardening"""
import torch
from .common import *
from .plast import *
from simulators.fetorch.material.models.standard.von_mises_mixed import VonMisesMixed
from simulators.fetorch.material.models.vmap.von_mises_mixed import VonMisesMixedVMAP
from simulators.fetorch.material.models.standard.hardening import get_hardening_law

E, V = 100.0, 0.25
G = E / (2 * (1 + V))
OUTSIDE = ('E=100, v=0.25 and the listed hardening laws; arbitrary laws along one strain direction and '
           'with at most two (thorough: three) Newton iterations; floating-point rounding')


def params(h, k):
    p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': V}
    p['hardening_law'], p['hardening_parameters'] = h
    p['kinematic_hardening_law'], p['kinematic_hardening_parameters'] = k
    return p


def lin(s0, a):
    return get_hardening_law('linear'), {'s0': torch.tensor(s0), 'a': torch.tensor(a)}


def devsym(c, name, pt, lo, hi):
    """free deviatoric tensor (3x3)"""
    if pt == 1:
        v = c.real(name, (3,), lo, hi)
        z = torch.zeros(())
        return torch.stack([torch.stack([v[0], v[1], z]), torch.stack([v[1], v[2], z]),
                            torch.stack([z, z, -v[0] - v[2]])])
    v = c.real(name, (5,), lo, hi)
    return torch.stack([torch.stack([v[0], v[1], v[2]]), torch.stack([v[1], v[3], v[4]]),
                        torch.stack([v[2], v[4], -v[0] - v[3]])])


def setup(c, m, pt, scale, rad=False):
    """arbitrary previous state given by trial elastic strain and trial relative stress"""
    old, inc = old_state(c, m, pt, scale)
    et = full(old['e_strain_mf'], old.get('e_strain_33'), pt) + inc3(inc, pt)
    st = dev(hooke(E, V, et))
    if rad:
        xi = c.real('t', (), 0.1, 8) * torch.diag(torch.tensor([2.0, -1.0, -1.0])) / 3.0
    else:
        xi = devsym(c, 'xi', pt, -5, 5)
    b = st - xi
    n = 2 if pt == 1 else 3
    old['back_stress_mf'] = kelvin(b[:n, :n], order(pt))
    if pt == 1:
        old['back_stress_33'] = b[2, 2]
    return old, inc, et, st, xi


def step(cls, pt, vm, laws, rad=False, nlaw=3):
    def body(c):
        if laws is None:
            hl, kl = AnyLaw(c, nlaw, tag='i'), AnyLaw(c, nlaw, ylo=0.0, tag='k')
            hard, kin = hl.value, kl.value
            m = cls('infinitesimal', pt, params((hl, {}), (kl, {})))
        else:
            (s0, a), (k0, b) = laws
            hard, kin = (lambda x: s0 + a * x), (lambda x: k0 + b * x)
            m = cls('infinitesimal', pt, params(lin(s0, a), lin(k0, b)))
        old, inc, et, st, xi = setup(c, m, pt, 0.05, rad or laws is None)
        ref = snap(old)
        new, _ = m.state_update(inc, old)
        en = full(new['e_strain_mf'], new.get('e_strain_33'), pt)
        sn = full(new['stress_mf'], new.get('stress_33'), pt)
        bn = full(new['back_stress_mf'], new.get('back_stress_33'), pt)
        bo = st - xi
        c.eq('total strain', new['strain_mf'], ref['strain_mf'] + kelvin(inc, order(pt)))
        c.eq('stress is elastic', comps(sn), comps(hooke(E, V, en)), tol=1e-6)
        q2 = 1.5 * dd(xi, xi)
        y0 = hard(ref['acc_p_strain'])
        dp, db = et - en, bn - bo
        dg = new['acc_p_strain'] - ref['acc_p_strain']
        if bool(new['is_plast']):
            if laws is None:
                c.assume(dg > 0.0)
            else:
                c.le('plastic multiplier', torch.zeros(()), dg)
            c.true('plastic only beyond yield', q2 > y0 ** 2)
            q = torch.sqrt(q2)
            y1, k0_, k1 = hard(new['acc_p_strain']), kin(ref['acc_p_strain']), kin(new['acc_p_strain'])
            nv = 1.5 * xi / q
            c.eq('associative flow', comps(dp), dg * comps(nv), tol=1e-6)
            c.eq('back stress moves with the plastic strain', comps(db),
                 (k1 - k0_) * (2.0 / 3.0) * comps(nv), tol=1e-6)
            c.close('on the yield surface', 1.5 * dd(dev(sn) - bn, xi) / q, y1, (1e-5 if vm else 1.1e-6) * y1)
        else:
            c.eq('elastic step', comps(en), comps(et))
            c.eq('no plastic flow', dg, torch.zeros(()))
            c.eq('back stress kept', comps(bn), comps(bo))
            c.le('inside the yield surface', q2, (y0 * (1 + 1.0001e-6)) ** 2)
    return body


def cases(tier):
    out = []
    nl = 3 if tier == 'quick' else 4
    b = 'all strains in [-0.05,0.05], all deviatoric relative stresses in [-5,5]'
    for cls, vm in ((VonMisesMixed, False), (VonMisesMixedVMAP, True)):
        n = cls.__name__
        o = {'cost': 10, 'tiny': '1e-7'} if vm else {'cost': 10}
        for pt in (1, 4):
            out.append(Case(f'{n} {pt} mixed', step(cls, pt, vm, ((2.0, 10.0), (0.0, 30.0))), dict(o), bounds=b))
            out.append(Case(f'{n} {pt} kinematic', step(cls, pt, vm, ((2.0, 0.0), (1.0, 20.0))), dict(o), bounds=b))
            out.append(Case(f'{n} {pt} any laws', step(cls, pt, vm, None, nlaw=nl), dict(o),
                            bounds=f'arbitrary laws, {nl - 1} Newton iterations, one stress direction'))
            out.append(Case(f'{n} {pt} initial state', initial(
                lambda p, cls=cls: cls('infinitesimal', p, params(lin(2.0, 1.0), lin(0.0, 1.0))), pt, ('back_stress_mf',))))
    return out
