"""von Mises plasticity with isotropic hardening"""
import torch
from .common import *
from .plast import *
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.fetorch.material.models.vmap.von_mises import VonMisesVMAP
from simulators.fetorch.material.models.standard.hardening import get_hardening_law

E, V = 100.0, 0.25
# traceless direction whose von Mises stress is rational
RADIAL = torch.diag(torch.tensor([2.0, -1.0, -1.0]))


def params(law, hp):
    return {'elastic_symmetry': 'isotropic', 'E': E, 'v': V,
            'hardening_law': get_hardening_law(law), 'hardening_parameters': hp}


def step(cls, pt, law, hp, hard0, vm, nlaw=3, radial=False):
    def body(c):
        if law is None:
            any_ = AnyLaw(c, nlaw)
            hard = any_.value
            m = cls('infinitesimal', pt, dict(params('linear', {}), hardening_law=any_))
        else:
            hard = hard0
            m = cls('infinitesimal', pt, params(law, {k: torch.tensor(x) for k, x in hp.items()}))
        n = 2 if pt == 1 else 3
        old, inc = old_state(c, m, pt, 0.05, radial=RADIAL if law is None or radial else None)
        ref = snap(old)
        new, _ = m.state_update(inc, old)
        G = E / (2 * (1 + V))
        et = full(ref['e_strain_mf'], ref.get('e_strain_33'), pt) + inc3(inc, pt)
        en = full(new['e_strain_mf'], new.get('e_strain_33'), pt)
        sn = full(new['stress_mf'], new.get('stress_33'), pt)
        c.eq('total strain', new['strain_mf'], ref['strain_mf'] + kelvin(inc, order(pt)))
        c.eq('stress is elastic', comps(sn), comps(hooke(E, V, en)), tol=1e-6)
        st = dev(hooke(E, V, et))
        q2 = 1.5 * dd(st, st)
        y0 = hard(ref['acc_p_strain'])
        dp = et - en
        dg = new['acc_p_strain'] - ref['acc_p_strain']
        if bool(new['is_plast']):
            if law is None:
                # a law that makes the Newton iteration end at a negative multiplier is not meant
                c.assume(dg > 0.0)
            c.true('plastic only beyond yield', q2 > y0 ** 2)
            if law is not None:
                c.le('plastic multiplier', torch.zeros(()), dg)
            s = dev(sn)
            c.eq('isochoric flow', tr(dp), torch.zeros(()))
            if vm:
                # the vectorised model smooths the norm by 1e-8
                c.close('accumulated plastic strain', dd(dp, dp) / dg ** 2, torch.tensor(1.5), 1e-5)
            else:
                c.eq('accumulated plastic strain', dd(dp, dp), 1.5 * dg ** 2, tol=1e-6)
            a, b = comps(dp), comps(s)
            for i in range(6):
                for j in range(i):
                    c.eq('flow direction', a[i] * b[j], a[j] * b[i])
            y1 = hard(new['acc_p_strain'])
            q = torch.sqrt(q2)
            c.le('flow follows the stress', torch.zeros(()), dd(dp, st) / dg)
            c.close('on the yield surface', 1.5 * dd(s, st) / q, y1, (1e-5 if vm else 1.1e-6) * y1)
        else:
            c.eq('elastic step', comps(en), comps(et))
            c.eq('no plastic flow', dg, torch.zeros(()))
            c.le('inside the yield surface', q2, (y0 * (1 + 1.0001e-6)) ** 2)
    return body


def fails(cls, pt):
    """a state update that does not converge is flagged and yields no numbers"""
    def body(c):
        def law(par, acc, is_check_data=False):
            # slope far too large: the Newton steps become tiny
            return 2.0 + 10.0 * acc, torch.tensor(1e6)
        m = cls('infinitesimal', pt, dict(params('linear', {}), hardening_law=law))
        old, inc = old_state(c, m, pt, 0.05, radial=RADIAL)
        ref = snap(old)
        new, D = m.state_update(inc, old)
        q = 6.0 * E / (2 * (1 + V)) * c.real('t', (), 0.001, 0.05)
        y0 = 2.0 + 10.0 * ref['acc_p_strain']
        fail = (q - y0) / y0 > 1e-3
        if bool(fail):
            c.true('failure flagged', new['is_su_fail'])
            for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain'):
                c.isnan('no numbers after a failure', new[k])
        elif bool(q <= y0):
            c.true('no failure in an elastic step', torch.logical_not(new['is_su_fail']))
            c.finite('finite state', new['stress_mf'])
            c.finite('finite state', new['e_strain_mf'])
    return body


def init(cls, pt):
    def body(c):
        x = c.real('x', ())
        m = cls('infinitesimal', pt, params('linear', {'s0': 1.0, 'a': 1.0}))
        s = m.state_init()
        n = 3 if pt == 1 else 6
        for k in ('e_strain_mf', 'strain_mf', 'stress_mf'):
            c.eq('zero initial ' + k, s[k], torch.zeros(n) * x)
        c.eq('zero plastic strain', s['acc_p_strain'], torch.zeros(()) * x)
        c.true('flags', not bool(s['is_plast']) and not bool(s['is_su_fail']))
        s['e_strain_mf'] += 1.0
        c.eq('no shared storage', s['strain_mf'], torch.zeros(n) * x)
        s = m.state_init()
        c.eq('no shared storage', s['e_strain_mf'], torch.zeros(n) * x)
        c.true('33 components', ('e_strain_33' in s and 'stress_33' in s) == (pt == 1))
        for k, v in (('elastic_symmetry', 'orthotropic'),):
            c.raises('unavailable symmetry', RuntimeError, cls, 'infinitesimal', pt,
                     dict(params('linear', {'s0': 1.0, 'a': 1.0}), **{k: v}))
    return body


OUTSIDE = ('E=100, v=0.25 and the listed hardening laws; arbitrary laws along one strain direction and '
           'with at most two (thorough: three) Newton iterations; floating-point rounding')
PTS = {'hardening_points': [[0.0, 2.0], [0.02, 3.0], [0.1, 3.5]]}


def piecewise(a):
    """the law of PTS on the current path"""
    if bool(a < 0.02):
        return 2.0 + 50.0 * a
    if bool(a < 0.1):
        return 3.0 + 6.25 * (a - 0.02)
    return torch.as_tensor(3.5) + 0.0 * a


def cases(tier):
    out = []
    nl = 3 if tier == 'quick' else 4
    for cls, vm in ((VonMises, False), (VonMisesVMAP, True)):
        n = cls.__name__
        for pt in (1, 4):
            b = 'all strain states with components in [-0.05,0.05], accumulated plastic strain in [0,1]'
            out.append(Case(f'{n} {pt} linear', step(cls, pt, 'linear', {'s0': 2.0, 'a': 10.0},
                            lambda a: 2.0 + 10.0 * a, vm), {'cost': 10}, bounds=b))
            out.append(Case(f'{n} {pt} any law', step(cls, pt, None, None, None, vm, nl), {'cost': 5},
                            bounds=f'arbitrary law, {nl - 1} Newton iterations, one strain direction'))
            out.append(Case(f'{n} {pt} piecewise linear', step(cls, pt, 'piecewise_linear', PTS, piecewise, vm,
                            radial=tier == 'quick' or vm or pt == 4), {'cost': 10},
                            bounds=b if tier != 'quick' and not vm and pt == 1 else 'one strain direction'))
            out.append(Case(f'{n} {pt} perfect plasticity', step(cls, pt, 'linear', {'s0': 2.0, 'a': 0.0},
                            lambda a: 2.0 + 0.0 * a, vm), {'cost': 10}, bounds=b))
            out.append(Case(f'{n} {pt} no convergence', fails(cls, pt), bounds='one strain direction'))
            out.append(Case(f'{n} {pt} initial state', init(cls, pt)))
    return out
