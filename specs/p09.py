"""Element material-state bookkeeping"""
import os
import inspect
import torch
from unittest import mock
from .common import *
from simulators.fetorch.structure import structure_state
from simulators.fetorch.structure.structure_state import StructureMaterialState
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.element.type.quad4 import FEQuad4
from model_architectures.procedures.model_data_scaling import data_scaler_transform

OUTSIDE = 'histories longer than the stated number of operations; more than two elements'


def st(c, tag):
    return {'1': {'stress_mf': c.real(tag + 'a', (3,)), 'e_strain_33': 0.5, 'is_plast': False},
            '2': {'stress_mf': c.real(tag + 'b', (3,)), 'e_strain_33': 1.5, 'is_plast': True}}


def same(c, label, a, b):
    if b is None:
        c.true(label + ' empty', a is None)
        return
    c.true(label + ' keys', a is not None and sorted(a) == sorted(b))
    for k in b:
        c.true(label + ' entries', sorted(a[k]) == sorted(b[k]))
        for n, v in b[k].items():
            if isinstance(v, torch.Tensor):
                c.eq(f'{label} {n}', a[k][n], v)
            else:
                c.true(f'{label} {n}', a[k][n] == v)


def snap(s):
    if s is None:
        return None
    return {k: {n: (v.clone() if isinstance(v, torch.Tensor) else v) for n, v in d.items()}
            for k, d in s.items()}


def scribble(s):
    """what a caller may do with a state it owns"""
    if s is None:
        return
    for k in list(s):
        s[k]['stress_mf'] += 1.0
        s[k]['is_plast'] = 'overwritten'
        s[k]['new'] = 0
    s.pop('2')


def model(c):
    m = StructureMaterialState('infinitesimal', 1, 2)
    ref = {}
    for e in (1, 2):
        for t in ('current', 'last'):
            s = st(c, f'i{e}{t[0]}')
            m.update_element_state(e, s, time=t)
            ref[e, t] = snap(s)
    return m, ref


def check(c, m, ref):
    for (e, t), s in ref.items():
        same(c, f'element {e} {t}', m.get_element_state(e, time=t), s)
        same(c, f'element {e} {t} (no copy)', m.get_element_state(str(e), time=t, is_copy=False), s)


def history(k):
    def body(c):
        m, ref = model(c)
        for i in range(k):
            op = c.choice(f'op{i}', 6)
            if op < 4:
                e, t = 1 + op // 2, ('current', 'last')[op % 2]
                s = st(c, f's{i}')
                m.update_element_state(e, s, time=t)
                ref[e, t] = snap(s)
                scribble(s)
            elif op == 4:
                m.update_converged_elements_state()
                for e in (1, 2):
                    ref[e, 'last'] = ref[e, 'current']
            else:
                for e in (1, 2):
                    for t in ('current', 'last'):
                        scribble(m.get_element_state(e, time=t))
            check(c, m, ref)
    return body


def nocopy(c):
    """without copies the very same object is handed over"""
    m, ref = model(c)
    s = st(c, 'n')
    m.update_element_state(1, s, time='current', is_copy=False)
    c.true('object stored', m.get_element_state(1, is_copy=False) is s)
    m.update_element_state(2, s, time='last', is_copy=False)
    c.true('object stored', m.get_element_state(2, time='last', is_copy=False) is s)
    c.true('copy returned', m.get_element_state(1) is not s)
    m.update_converged_elements_state(is_copy=False)
    same(c, 'converged', m.get_element_state(1, time='last'), snap(s))
    same(c, 'converged', m.get_element_state(2, time='last'), ref[2, 'current'])
    for t in ('now', ''):
        c.raises('unknown time', RuntimeError, m.update_element_state, 1, s, time=t)
        c.raises('unknown time', RuntimeError, m.get_element_state, 1, time=t)


KW = {'n_features_in': 3, 'n_features_out': 3, 'learnable_parameters': {},
      'material_model_name': 'elastic', 'state_features_out': {}, 'is_auto_sync_parameters': True,
      'is_check_su_fail': False, 'model_directory': os.environ['SYM_SCRATCH'], 'is_normalized_parameters': False,
      'is_model_in_normalized': False, 'is_model_out_normalized': False, 'device_type': 'cpu'}


def init(c):
    x = c.real('x', (3,))
    m = StructureMaterialState('infinitesimal', 1, 3)
    c.true('settings', m.get_strain_formulation() == 'infinitesimal' and m.get_problem_type() == 1)
    c.true('no materials yet', m.get_n_element_material_type() == 1 and len(m.get_material_models()) == 0)
    par = {'elastic_symmetry': 'isotropic', 'E': 10.0, 'v': 0.25}
    m.init_elements_model('rc_elastic', dict(par), ['1', '3'], {}, model_kwargs=dict(KW))
    mats = m.get_elements_material()
    c.true('assigned to the listed elements', mats['1'] is mats['3'] and mats['1'] is not None
           and mats['2'] is None)
    m.init_elements_model('rc_elastic', dict(par, E=20.0), ['2'], {}, model_kwargs=dict(KW))
    mats = m.get_elements_material()
    c.true('second model', mats['2'] is not None and mats['2'] is not mats['1']
           and len(m.get_material_models()) == 2)
    for e in (1, 2, 3):
        c.true('recurrent material', m.get_element_model_recurrency(e) is True)
        c.true('no state yet', m.get_element_state(e) is None and m.get_element_state(e, time='last') is None)
    e2 = torch.stack([torch.zeros(3), x]).unsqueeze(1)
    for k, E in (('1', 10.0), ('2', 20.0)):
        s = mats[k](e2)
        v = 0.25
        lam, mu = E * v / ((1 + v) * (1 - 2 * v)), E / (2 * (1 + v))
        for t in range(2):
            a = e2[t, 0]
            c.eq('material parameters of the element', s[t, 0],
                 torch.stack([2 * mu * a[0] + lam * (a[0] + a[1]), 2 * mu * a[1] + lam * (a[0] + a[1]),
                              2 * mu * a[2]]), tol=1e-6)
    c.raises('unknown model', RuntimeError, m.init_elements_model, 'unknown', {}, ['1'], {})


def bound(cls, a, k):
    """arguments by name, defaults included"""
    b = inspect.signature(cls).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


def conventional(c):
    """materials integrated point by point: every integration point starts from the material's initial state"""
    x = c.real('x', (3,))
    made = []

    def stub(name, real):
        class Stub(torch.nn.Module):
            def __init__(self, *a, **k):
                super().__init__()
                self.name, self.args = name, bound(real, a, k)
                made.append(self)

            def state_init(self):
                return {'stress_mf': x + float(len(self.name)), 'name': name}
        return Stub
    names = {'elastic': 'Elastic', 'von_mises': 'VonMises', 'von_mises_mixed': 'VonMisesMixed', 'drucker_prager': 'DruckerPrager'}
    et = {'1': FETri3(), '2': FEQuad4(), '3': FETri3(), '4': FEQuad4()}
    for nm, cl in names.items():
        with mock.patch.multiple(structure_state, **{q: stub(q, getattr(structure_state, q)) for q in names.values()}):
            m = StructureMaterialState('infinitesimal', 1, 4)
            par = {'E': 3.0}
            m.init_elements_model(nm, par, ['1', '2'], et)
            a = made[-1]
            m.init_elements_model(nm, {'E': 4.0}, ['4'], et)
            m.init_elements_model('rc_elastic', {'elastic_symmetry': 'isotropic', 'E': 10.0, 'v': 0.25}, ['3'], et, model_kwargs=dict(KW))
        c.true('kind of material', a.name == cl and a.args['strain_formulation'] == 'infinitesimal'
               and a.args['problem_type'] == 1 and a.args['model_parameters'] == par)
        mats, mods = m.get_elements_material(), m.get_material_models()
        c.true('materials', mats['1'] is a and mats['2'] is a and mats['4'] is not a and mats['4'] is not mats['3'])
        c.true('numbered from one', sorted(mods) == ['1', '2', '3'] and mods['1'] is a and mods['2'] is mats['4'] and mods['3'] is mats['3'])
        c.true('kinds', m.get_n_element_material_type() == (2 if mats['4'].__class__ is a.__class__ else 3))
        for e, r in (('1', False), ('2', False), ('3', True), ('4', False)):
            c.true('recurrency', m.get_element_model_recurrency(e) is r)
        for e, n in (('1', 1), ('2', 4), ('4', 4)):
            ref = {str(i + 1): {'stress_mf': x + float(len(cl)), 'name': cl} for i in range(n)}
            for t in ('current', 'last'):
                same(c, 'initial state', m.get_element_state(e, time=t), ref)
        # one point's state is nobody else's
        m.get_element_state('2', is_copy=False)['3']['stress_mf'] += 1.0
        ref = {str(i + 1): {'stress_mf': x + float(len(cl)), 'name': cl} for i in range(4)}
        same(c, 'last state of the same element', m.get_element_state('2', time='last'), ref)
        same(c, 'same material elsewhere', m.get_element_state('1'), {'1': ref['1']})
        got = m.get_element_state('2')
        for i in '124':
            c.eq('other points', got[i]['stress_mf'], ref[i]['stress_mf'])
        c.eq('changed point', got['3']['stress_mf'], x + float(len(cl)) + 1.0)


def networks(c):
    """recurrent networks and hybrid materials get their own settings"""
    k = {'n_features_in': 3, 'n_features_out': 2, 'hidden_layer_size': 5, 'n_recurrent_layers': 2, 'dropout': 0.25,
         'model_directory': os.environ['SYM_SCRATCH'], 'is_model_in_normalized': True, 'is_model_out_normalized': False,
         'gru_model_source': 'custom', 'device_type': 'cpu', 'scaling_type': 'mean-std',
         'scaling_parameters': {'features_in': {'mean': torch.tensor([1.0, 2.0, 3.0]), 'std': torch.tensor([2.0, 4.0, 8.0])},
                                'features_out': {'mean': torch.tensor([-1.0, 5.0]), 'std': torch.tensor([0.5, 3.0])}}}
    m = StructureMaterialState('infinitesimal', 1, 2)
    seen = []

    class Gru(torch.nn.Module):
        def __init__(self, *a, **kw):
            super().__init__()
            seen.append(bound(real, a, kw))
            kw = seen[-1]
            self.__dict__.update({'_' + q: v for q, v in kw.items()})

        def save_model_init_file(self):
            pass
    real = structure_state.GRURNNModel
    with mock.patch.object(structure_state, 'GRURNNModel', Gru):
        m.init_elements_model('gru_material_model', {}, ['2'], {}, model_kwargs=dict(k))
    want = {q: v for q, v in k.items() if 'scaling' not in q}
    c.true('network settings', {q: seen[0][q] for q in want} == want)
    g = m.get_elements_material()['2']
    x = c.real('x', (2, 3), -2, 2)
    y = c.real('y', (2, 2), -2, 2)
    c.eq('input scaler', data_scaler_transform(g, x, 'features_in', mode='normalize'),
         (x - torch.tensor([1.0, 2.0, 3.0])) / torch.tensor([2.0, 4.0, 8.0]))
    c.eq('output scaler', data_scaler_transform(g, y, 'features_out', mode='denormalize'),
         y * torch.tensor([0.5, 3.0]) + torch.tensor([-1.0, 5.0]))
    h = {'n_features_in': 3, 'n_features_out': 2, 'hyb_models_dict': {'q': 1}, 'hybridization_type': 'additive',
         'model_directory': os.environ['SYM_SCRATCH'], 'is_model_in_normalized': False, 'is_model_out_normalized': True,
         'device_type': 'cpu'}
    real = structure_state.HybridModel
    with mock.patch.object(structure_state, 'HybridModel', Gru):
        m.init_elements_model('hybrid_material_model', {}, ['1'], {}, model_kwargs=dict(h))
    c.true('hybrid settings', {q: seen[1][q] for q in h} == h)
    rc = {'n_features_in': 3, 'n_features_out': 4, 'learnable_parameters': {'E': 1}, 'material_model_name': 'elastic',
          'state_features_out': {'acc': 1}, 'is_auto_sync_parameters': True, 'is_check_su_fail': False,
          'model_directory': os.environ['SYM_SCRATCH'], 'is_normalized_parameters': True, 'is_model_in_normalized': False,
          'is_model_out_normalized': True, 'device_type': 'cpu'}
    real = structure_state.RecurrentConstitutiveModel
    with mock.patch.object(structure_state, 'RecurrentConstitutiveModel', Gru):
        m.init_elements_model('rc_elastic', {'E': 7.0}, ['1'], {}, model_kwargs=dict(rc))
    rc.update(strain_formulation='infinitesimal', problem_type=1, material_model_parameters={'E': 7.0})
    c.true('recurrent constitutive settings', {q: seen[2][q] for q in rc} == rc)
    for e in (1, 2):
        c.true('recurrent', m.get_element_model_recurrency(e) is True and m.get_element_state(e) is None)


def cases(tier):
    k = 3 if tier == 'quick' else 4
    return [Case('state histories', history(k), {'cost': 20, 'max_paths': 3000},
                 bounds=f'all sequences of {k} operations on two elements'),
            Case('no-copy mode', nocopy), Case('initialisation', init),
            Case('conventional materials', conventional), Case('networks', networks)]
