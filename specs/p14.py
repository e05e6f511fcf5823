"""Drucker-Prager plasticity (cone and apex)"""
import torch
from .common import *
from .plast import *
from simulators.fetorch.material.models.standard.drucker_prager import DruckerPrager
from simulators.fetorch.material.models.vmap.drucker_prager import DruckerPragerVMAP
from simulators.fetorch.material.models.standard.hardening import get_hardening_law

E, V = 100.0, 0.25
G, K = E / (2 * (1 + V)), E / (3 * (1 - 2 * V))
XI, ETAY, ETAF = 1.25, 0.5, 0.25
OUTSIDE = ('E=100, v=0.25, one set of cone parameters; arbitrary laws along one strain direction with at '
           'most two (thorough: three) Newton iterations; floating-point rounding; for the vectorised '
           'model sqrt(J2) below 1e-3')


def params(law, hp, etaf=ETAF):
    return {'elastic_symmetry': 'isotropic', 'E': E, 'v': V, 'yield_cohesion_parameter': XI,
            'yield_pressure_parameter': ETAY, 'flow_pressure_parameter': etaf,
            'hardening_law': law, 'hardening_parameters': hp}


RADIAL = torch.diag(torch.tensor([1.0, -1.0, 0.0]))


def step(cls, pt, vm, law, rad=False, nlaw=3, etaf=ETAF):
    def body(c):
        if law is None:
            hl = AnyLaw(c, nlaw)
            hard = hl.value
            m = cls('infinitesimal', pt, params(hl, {}, etaf))
        else:
            hard = lambda x: law[0] + law[1] * torch.relu(x)
            m = cls('infinitesimal', pt, params(get_hardening_law('linear'), {
                's0': torch.tensor(law[0]), 'a': torch.tensor(law[1])}, etaf))
        if law is None or rad:
            # one deviatoric direction plus free volumetric strain
            old, inc = old_state(c, m, pt, 0.05, radial=RADIAL)
            vol = c.real('vol', (), -0.05, 0.05)
            n = 2 if pt == 1 else 3
            old['e_strain_mf'] = old['e_strain_mf'] + kelvin(vol * torch.eye(n), order(pt))
            if pt == 1:
                old['e_strain_33'] = vol
        else:
            old, inc = old_state(c, m, pt, 0.05)
        ref = snap(old)
        et = full(ref['e_strain_mf'], ref.get('e_strain_33'), pt) + inc3(inc, pt)
        st = hooke(E, V, et)
        s, p = dev(st), tr(st) / 3.0
        j2 = 0.5 * dd(s, s)
        if vm:
            c.assume(j2 >= 1e-6)
        new, _ = m.state_update(inc, old)
        r = torch.sqrt(j2)
        en = full(new['e_strain_mf'], new.get('e_strain_33'), pt)
        sn = full(new['stress_mf'], new.get('stress_33'), pt)
        c.eq('total strain', new['strain_mf'], ref['strain_mf'] + kelvin(inc, order(pt)))
        c.eq('stress is elastic', comps(sn), comps(hooke(E, V, en)), tol=1e-6)
        c0 = hard(ref['acc_p_strain'])
        f0 = r + ETAY * p - XI * c0
        dp = et - en
        da = new['acc_p_strain'] - ref['acc_p_strain']
        tol = 1.1e-6
        c.true('no failure', torch.logical_not(new['is_su_fail']))
        if bool(new['is_plast']):
            if law is None:
                c.assume(da > 0.0)
            else:
                c.le('plastic multiplier', torch.zeros(()), da)
            c.true('plastic only beyond yield', f0 > 0.0)
            c1 = hard(new['acc_p_strain'])
            dg = da / XI
            pn = tr(sn) / 3.0
            if bool(new['is_apex_return']):
                c.eq('no deviatoric stress at the apex', comps(dev(sn)), torch.zeros(6))
                c.eq('volumetric plastic strain', tr(dp), etaf / XI * da, tol=1e-6)
                c.close('apex pressure', ETAY * pn, XI * c1, 1.1e-6 * c1)
                if law is not None:
                    # the return to the cone would leave it
                    gam = f0 / (G + K * etaf * ETAY + XI ** 2 * law[1])
                    c.le('cone return not admissible', r, G * gam)
            else:
                c.le('cone return admissible', G * dg, r)
                c.eq('deviatoric flow', comps(dev(dp)), dg / (2.0 * r) * comps(s), tol=1e-6)
                c.eq('volumetric flow', tr(dp), etaf * dg, tol=1e-6)
                c.close('on the cone', r - G * dg + ETAY * pn, XI * c1, tol * c1)
        else:
            c.eq('elastic step', comps(en), comps(et))
            c.eq('no plastic flow', da, torch.zeros(()))
            c.le('inside the cone', f0, 1.0001e-6 * c0)
            c.true('no apex return', torch.logical_not(new['is_apex_return']))
    return body


def cases(tier):
    out = []
    nl = 3 if tier == 'quick' else 4
    b = 'all strain states with components in [-0.05,0.05], accumulated plastic strain in [0,1]'
    for cls, vm in ((DruckerPrager, False), (DruckerPragerVMAP, True)):
        n = cls.__name__
        o = {'cost': 10, 'tiny': '1e-7'} if vm else {'cost': 10}
        for pt in (1, 4):
            out.append(Case(f'{n} {pt} linear', step(cls, pt, vm, (2.0, 10.0), rad=vm and pt == 1 and tier == 'quick'), dict(o), bounds=b))
            out.append(Case(f'{n} {pt} associative, perfect', step(cls, pt, vm, (2.0, 0.0), rad=vm and pt == 1 and tier == 'quick', etaf=ETAY), dict(o), bounds=b))
            out.append(Case(f'{n} {pt} any law', step(cls, pt, vm, None, nlaw=nl), dict(o),
                            bounds=f'arbitrary law, {nl - 1} Newton iterations, one deviatoric direction'))
            out.append(Case(f'{n} {pt} initial state', initial(lambda p, cls=cls: cls('infinitesimal', p, params(
                get_hardening_law('linear'), {'s0': torch.tensor(2.0), 'a': torch.tensor(1.0)})), pt)))
    return out
