"""Learnable parameters of the recurrent constitutive model"""
import os
import torch
from unittest import mock
from .common import *
from . import p12, p13, p14, p18
from .p18 import RCM, pars
from model_architectures.rc_base_model.model import recurrent_model as rcm
from material_model_finder.model.material_discovery import MaterialModelFinder
from simulators.fetorch.structure.structure_state import StructureMaterialState
from simulators.fetorch.element.type.tri3 import FETri3

OUTSIDE = 'bounds of width 0.1 to 100; friction angle in [0.1,1.2]; float32 storage of parameters'
SLOTS = {
    'elastic': {'E': ('E',), 'v': ('v',)},
    'von_mises': {'E': ('E',), 'v': ('v',), 's0': ('hardening_parameters', 's0'), 'a': ('hardening_parameters', 'a'),
                  'b': ('hardening_parameters', 'b')},
    'drucker_prager': {'E': ('E',), 'v': ('v',), 's0': ('hardening_parameters', 's0'), 'a': ('hardening_parameters', 'a'),
                       'b': ('hardening_parameters', 'b'),
                       'yield_cohesion_parameter': ('yield_cohesion_parameter',),
                       'yield_pressure_parameter': ('yield_pressure_parameter',),
                       'flow_pressure_parameter': ('flow_pressure_parameter',)},
}
SLOTS['von_mises_mixed'] = dict(SLOTS['von_mises'], **{
    'kin_' + k: ('kinematic_hardening_parameters', k) for k in ('s0', 'a', 'b')})
SLOTS['lou_zhang_yoon'] = dict(SLOTS['von_mises'], **{
    f'yield_{y}_{k}': (f'{y}_hardening_parameters', k) for y in 'abcd' for k in ('s0', 'a', 'b')})


def mpars(name):
    b = name.replace('_vmap', '')
    if b == 'lou_zhang_yoon':
        d = {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.25, 'is_associative_hardening': False}
        for t in ('', 'a_', 'b_', 'c_', 'd_'):
            d[t + 'hardening_law'] = p14.get_hardening_law('linear')
            d[t + 'hardening_parameters'] = {'s0': torch.tensor(1.0), 'a': torch.tensor(0.0)}
        return d
    return pars(name)


def model(name, learn, norm, pt=1, nout=3, **kw):
    return RCM(3, nout, learn, 'infinitesimal', pt, name, mpars(name), None,
               is_normalized_parameters=norm, is_save_model_init_file=False, **kw)


def bounds(c, tag):
    lo = c.real('lo' + tag, (), -100, 100)
    return lo, lo + c.real('w' + tag, (), 0.1, 100)


def transform(c):
    lo, hi = bounds(c, '')
    lo2, hi2 = bounds(c, '2')
    x, y = c.real('x', ()), c.real('y', ())
    m = model('elastic', {'E': {'initial_value': (lo + hi) / 2, 'bounds': (lo, hi)},
                          'v': {'initial_value': lo2, 'bounds': (lo2, hi2)}}, True)
    c.eq('initial value normalised', m.get_model_parameters()['E'].detach(), torch.zeros(()), tol=1e-6)
    c.eq('initial value normalised', m.get_model_parameters()['v'].detach(), -torch.ones(()), tol=1e-6)
    f = lambda n, v, t: m.transform_parameter(n, v, mode=t)
    c.eq('lower bound', f('E', lo, 'normalize'), -torch.ones(()))
    c.eq('upper bound', f('E', hi, 'normalize'), torch.ones(()))
    c.eq('centre', f('E', (lo + hi) / 2, 'normalize'), torch.zeros(()), tol=1e-6)
    c.eq('inverse', f('E', f('E', x, 'normalize'), 'denormalize'), x, tol=1e-6)
    c.eq('inverse', f('E', f('E', x, 'denormalize'), 'normalize'), x, tol=1e-6)
    c.eq('affine', f('E', x, 'normalize') - f('E', y, 'normalize'), 2.0 * (x - y) / (hi - lo), tol=1e-6)
    c.eq('own bounds', f('v', lo2, 'normalize'), -torch.ones(()))
    c.raises('unknown mode', RuntimeError, f, 'E', x, 'other')


def setv(m, k, v):
    """what an optimiser step does"""
    with torch.no_grad():
        m.get_model_parameters()[k].copy_(v)


def clamp(norm):
    def body(c):
        b = {'E': (50.0, 150.0), 'v': (0.125, 0.375)}
        m = model('elastic', {k: {'initial_value': 0.5 * (l + u), 'bounds': (l, u)} for k, (l, u) in b.items()}, norm)
        x, y = c.real('x', (), -500, 500), c.real('y', (), -5, 5)
        setv(m, 'E', x)
        setv(m, 'v', y)
        m.enforce_parameters_bounds()
        for k, v in (('E', x), ('v', y)):
            lo, hi = (-1.0, 1.0) if norm else b[k]
            got = m.get_model_parameters()[k].detach()
            c.le('above the lower bound', torch.tensor(lo), got)
            c.le('below the upper bound', got, torch.tensor(hi))
            if bool(v < lo):
                c.eq('clamped to the lower bound', got, torch.tensor(lo))
            elif bool(v > hi):
                c.eq('clamped to the upper bound', got, torch.tensor(hi))
            else:
                c.eq('inside: untouched', got, v)
        c.true('bounds reported', m.get_model_parameters_bounds() == b)
        m.get_model_parameters_bounds()['E'] = None
        c.true('bounds kept', m.get_model_parameters_bounds() == b)
        if norm:
            c.true('normalised bounds', m.get_model_parameters_norm_bounds() == {'E': (-1.0, 1.0), 'v': (-1.0, 1.0)})
    return body


def sync(name, norm):
    """every learnable parameter reaches its own slot and no other"""
    slots = SLOTS[name.replace('_vmap', '')]

    def get(d, p):
        for k in p:
            d = d[k]
        return torch.as_tensor(d)

    def body(c):
        lo, hi = (-1.0, 3.0)
        learn = {k: {'initial_value': 1.0, 'bounds': (lo, hi)} for k in slots}
        m = model(name, learn, norm)
        vals = {}
        for k in slots:
            vals[k] = c.real('p_' + k, (), -1, 1)
            setv(m, k, vals[k])
        m.sync_material_model_parameters()
        d = m.get_material_model_parameters()
        for k, s in slots.items():
            c.eq('synchronised ' + k, get(d, s).detach(), 1.0 + 2.0 * vals[k] if norm else vals[k])
            c.eq('learnable value kept ' + k, m.get_model_parameters()[k].detach(), vals[k])
        if 'drucker' not in name:
            c.raises('foreign parameter', RuntimeError, model(name, dict(learn, friction_angle={
                'initial_value': 1.0, 'bounds': (0.0, 2.0)}), norm).sync_material_model_parameters)
        else:
            c.raises('foreign parameter', RuntimeError, model(name, dict(learn, kin_s0={
                'initial_value': 1.0, 'bounds': (0.0, 2.0)}), norm).sync_material_model_parameters)
        # one at a time: the others keep their material value
        if 'lou' not in name:
            for k in slots:
                m = model(name, {k: learn[k]}, norm)
                before = {q: get(m.get_material_model_parameters(), s).clone()
                          for q, s in slots.items() if q not in ('b', 'kin_b') and q != k}
                setv(m, k, vals[k])
                m.sync_material_model_parameters()
                d = m.get_material_model_parameters()
                c.eq('synchronised ' + k, get(d, slots[k]).detach(), 1.0 + 2.0 * vals[k] if norm else vals[k])
                for q in before:
                    c.eq(f'{k} leaves {q}', get(d, slots[q]), before[q])
    return body


def friction(name, norm):
    def body(c):
        m = model(name, {'friction_angle': {'initial_value': 0.5, 'bounds': (0.25, 0.75)}}, norm)
        x = c.real('x', (), -1, 1) if norm else c.real('x', (), 0.1, 1.2)
        setv(m, 'friction_angle', x)
        m.sync_material_model_parameters()
        d = m.get_material_model_parameters()
        phi = 0.5 + 0.25 * x if norm else x
        c.eq('cohesion parameter', d['yield_cohesion_parameter'].detach() * 3.0 ** 0.5, 2.0 * torch.cos(phi), tol=1e-6)
        c.eq('pressure parameter', d['yield_pressure_parameter'].detach(), 3.0 ** 0.5 * torch.sin(phi), tol=1e-6)
        c.eq('flow parameter', d['flow_pressure_parameter'].detach(), 3.0 ** 0.5 * torch.sin(phi), tol=1e-6)
    return body


def used(name, norm):
    """the response is that of a model built with the current parameter values"""
    def body(c):
        learn = {'E': {'initial_value': 100.0, 'bounds': (50.0, 150.0)}, 'v': {'initial_value': 0.25, 'bounds': (0.125, 0.375)}}
        m = model(name, learn, norm)
        a, b = c.real('a', (), -1, 1), c.real('b', (), -1, 1)
        e, v = 100.0 + 50.0 * a, 0.25 + 0.125 * b
        x = torch.stack((torch.zeros(3), c.real('x', (3,), -0.004, 0.004)))
        y0 = m(x)
        setv(m, 'E', a if norm else e)
        setv(m, 'v', b if norm else v)
        y = m(x)
        for yy, ee, vv in ((y0, torch.tensor(100.0), torch.tensor(0.25)), (y, e, v)):
            st = ee / (1.0 + vv)
            tr2 = x[1, 0] + x[1, 1]
            lam = ee * vv / ((1.0 + vv) * (1.0 - 2.0 * vv))
            want = torch.stack((st * x[1, 0] + lam * tr2, st * x[1, 1] + lam * tr2, st * x[1, 2]))
            c.eq('response with the current parameters', yy[1].detach(), want.reshape(3), tol=1e-6)
        if norm:
            c.eq('detached values', torch.as_tensor(m.get_detached_model_parameters()['E']), e, tol=1e-6)
            c.eq('detached normalised values', torch.as_tensor(m.get_detached_model_parameters(True)['v']), b, tol=1e-6)
        else:
            c.eq('detached values', torch.as_tensor(m.get_detached_model_parameters()['v']), v, tol=1e-6)
            c.eq('detached normalised values', torch.as_tensor(m.get_detached_model_parameters(True)['E']), a, tol=1e-6)
    return body


def constraints(vmap, norm, learnable):
    """the projection onto admissible yield parameters sees and sets physical values (the projection itself is arbitrary)"""
    def body(c):
        nm = 'lou_zhang_yoon' + ('_vmap' if vmap else '')
        b = {'yield_c_s0': (-4.0, 4.0), 'yield_d_s0': (1.0, 5.0), 'E': (50.0, 150.0)}
        ctr = {k: 0.5 * (l + u) for k, (l, u) in b.items()}
        learn = {k: {'initial_value': ctr[k], 'bounds': b[k]} for k in learnable}
        m = model(nm, learn, norm)
        v = {k: c.real(k, (), -1, 1) for k in learnable}
        phys = {k: ctr[k] + v[k] * 0.5 * (b[k][1] - b[k][0]) for k in learnable}
        for k in learnable:
            setv(m, k, v[k] if norm else phys[k])
        m.sync_material_model_parameters()
        ok = c.flag('convex')
        new = {'yield_c_s0': c.real('c', (), -4, 4), 'yield_d_s0': c.real('d', (), 1, 5)}
        seen = []

        def proj(cls, yc, yd, *a, **k):
            seen.append((yc, yd))
            return (ok, yc, yd) if ok else (ok, new['yield_c_s0'], new['yield_d_s0'])
        with mock.patch.object(rcm.LouZhangYoon, 'convexity_return_mapping', classmethod(proj)):
            m.enforce_parameters_constraints()
        pair = [k for k in learnable if k != 'E']
        c.true('projected once when learnable', len(seen) == (1 if pair else 0))
        for yc, yd in seen:
            c.eq('physical c', torch.as_tensor(yc), phys.get('yield_c_s0', torch.tensor(1.0)))
            c.eq('physical d', torch.as_tensor(yd), phys.get('yield_d_s0', torch.tensor(1.0)))
        for k in learnable:
            w = phys[k] if ok or k == 'E' else new[k]
            c.eq('admissible value stored ' + k, torch.as_tensor(m.get_detached_model_parameters()[k]), w, tol=1e-6)
            h = 0.5 * (b[k][1] - b[k][0])
            c.eq('kept in its own scale ' + k, m.get_model_parameters()[k].detach(), (w - ctr[k]) / h if norm else w, tol=1e-6)
    return body


def free(name):
    """no constraint for the other models"""
    def body(c):
        learn = {k: {'initial_value': 1.0, 'bounds': (-1.0, 3.0)} for k in SLOTS[name]}
        m = model(name, learn, False)
        vals = {k: c.real('p_' + k, (), -1, 1) for k in learn}
        for k in learn:
            setv(m, k, vals[k])
        m.enforce_parameters_constraints()
        for k in learn:
            c.eq('untouched ' + k, m.get_model_parameters()[k].detach(), vals[k])
    return body


class Implicit(torch.nn.Module):
    """component without named parameters"""
    is_explicit_parameters = False

    def forward(self, x):
        return x


def specimen(norms):
    """parameters of all materials of a specimen, hybrid ones included"""
    def body(c):
        d = os.path.join(os.environ['SYM_SCRATCH'], 'finder19')
        os.makedirs(d, exist_ok=True)
        ms = StructureMaterialState('infinitesimal', 1, 3)
        et = {str(i): FETri3() for i in (1, 2, 3)}
        b = {'E': (50.0, 150.0), 'v': (0.125, 0.375)}
        learn = {k: {'initial_value': 0.5 * (l + u), 'bounds': (l, u)} for k, (l, u) in b.items()}
        one = {'E': {'initial_value': 30.0, 'bounds': (20.0, 40.0)}}
        kw = {'n_features_in': 3, 'n_features_out': 3, 'learnable_parameters': learn, 'material_model_name': 'elastic',
              'state_features_out': {}, 'is_auto_sync_parameters': True, 'is_check_su_fail': False, 'model_directory': d,
              'is_normalized_parameters': norms[0], 'is_model_in_normalized': False, 'is_model_out_normalized': False,
              'device_type': 'cpu'}
        ms.init_elements_model('rc_elastic', mpars('elastic'), [1], et, model_kwargs=kw)
        sub = [model('elastic', learn, norms[1]), Implicit(), model('elastic', one, norms[2])]
        hyb = {n: {'hyb_model': q, 'hyb_indices': (i, 0), 'is_input_residual': False} for i, (n, q) in enumerate(zip('pqr', sub))}
        ms.init_elements_model('hybrid_material_model', {}, [2, 3], et, model_kwargs={
            'n_features_in': 3, 'n_features_out': 3, 'hyb_models_dict': hyb, 'hybridization_type': 'additive', 'model_directory': d,
            'is_model_in_normalized': False, 'is_model_out_normalized': False, 'device_type': 'cpu'})
        f = MaterialModelFinder(d)
        f._specimen_material_state = ms
        first = ms.get_material_models()['1']
        slots = {'model_1_E': (first, 'E', b['E'], norms[0]), 'model_1_v': (first, 'v', b['v'], norms[0]),
                 'model_2_p_E': (sub[0], 'E', b['E'], norms[1]), 'model_2_p_v': (sub[0], 'v', b['v'], norms[1]),
                 'model_2_r_E': (sub[2], 'E', (20.0, 40.0), norms[2])}
        vals, phys = {}, {}
        for i, (n, (q, k, (lo, hi), norm)) in enumerate(slots.items()):
            x = c.real(f'x{i}', (), -3, 3)
            phys[n] = 0.5 * (lo + hi) + 0.5 * (hi - lo) * x
            vals[n] = x if norm else phys[n]
            setv(q, k, vals[n])
        g = f.get_detached_model_parameters()
        c.true('names', set(g) == set(slots))
        for n in slots:
            c.eq('physical value ' + n, torch.as_tensor(g[n]), phys[n], tol=1e-6)
        c.true('bounds', f.get_model_parameters_bounds() == {n: z[2] for n, z in slots.items()})
        called = []
        with mock.patch.object(rcm.RecurrentConstitutiveModel, 'enforce_parameters_constraints', lambda s: called.append(s)):
            f.enforce_parameters_constraints()
        c.true('constraints of every material', len(called) == 3 and all(any(x is y for y in called) for x in (first, sub[0], sub[2])))
        f.enforce_parameters_bounds()
        for n, (q, k, (lo, hi), norm) in slots.items():
            got = q.get_model_parameters()[k].detach()
            l, u = (-1.0, 1.0) if norm else (lo, hi)
            c.eq('closest value within the bounds', got, torch.minimum(torch.maximum(vals[n], torch.tensor(l)), torch.tensor(u)))
    return body


def initial(c):
    for norm in (False, True):
        for v, lo, hi in ((100.0, 50.0, 150.0), (60.0, 50.0, 90.0), (50.0, 50.0, 90.0)):
            m = model('elastic', {'E': {'initial_value': v, 'bounds': (lo, hi)}}, norm)
            want = 2.0 * (v - lo) / (hi - lo) - 1.0 if norm else v
            c.true('initial value', abs(float(m.get_model_parameters()['E']) - want) < 1e-6)
            m.sync_material_model_parameters()
            c.true('initial material value', abs(float(m.get_material_model_parameters()['E']) - v) < 1e-4)
            c.true('trained', m.get_model_parameters()['E'].requires_grad)
            m.freeze_parameter('E')
            c.true('frozen', not m.get_model_parameters()['E'].requires_grad)
            c.raises('freezing an unknown parameter', RuntimeError, m.freeze_parameter, 'q')
        c.raises('inverted bounds', RuntimeError, model, 'elastic', {'E': {'initial_value': 1.0, 'bounds': (2.0, 1.0)}}, norm)
    x = c.real('x', ())
    c.eq('reflexive', x, x)


def cases(tier):
    out = [Case('transformation', transform), Case('initial values', initial)]
    for norm in (False, True):
        t = 'normalised' if norm else 'plain'
        out.append(Case(f'bounds {t}', clamp(norm)))
        for name in SLOTS:
            for v in ('', '_vmap') if name != 'elastic' else ('',):
                out.append(Case(f'sync {name}{v} {t}', sync(name + v, norm)))
        for v in ('', '_vmap'):
            out.append(Case(f'friction angle{v} {t}', friction('drucker_prager' + v, norm)))
            out.append(Case(f'response von_mises{v} {t}', used('von_mises' + v, norm), {'tiny': '1e-7'} if v else {}))
        out.append(Case(f'response elastic {t}', used('elastic', norm)))
    for vmap in (False, True):
        for norm in (False, True):
            for l in (('yield_c_s0', 'yield_d_s0', 'E'), ('yield_c_s0',), ('yield_d_s0', 'E'), ('E',)):
                out.append(Case(f'constraints {"vmap " if vmap else ""}{"normalised" if norm else "plain"} {" ".join(l)}',
                                constraints(vmap, norm, l)))
    for name in SLOTS:
        if 'lou' not in name:
            out.append(Case(f'no constraint {name}', free(name)))
    for norms in ((False, False, True), (True, True, False)):
        out.append(Case(f'specimen materials {norms}', specimen(norms)))
    return out
