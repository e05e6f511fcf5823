"""Hybrid models, their material layers and derived stress/strain features"""
import os
import math
import shutil
import itertools
import torch
from .common import *
from model_architectures.hybrid_base_model.model import hybrid_model as hm, hybridization as hz, hybridized_layers as hl
from model_architectures.hybrid_base_model.model import transfer_learning as tl
from model_architectures.hybrid_base_model.model.hybridized_model import set_hybridized_model
from model_architectures.materials import strain_features as ef, stress_features as sf
from utilities.data_scalers import TorchStandardScaler, TorchMinMaxScaler
from model_architectures.procedures import model_data_scaling as mds
from time_series_data.time_dataset import TimeSeriesDatasetInMemory

OUTSIDE = ('up to four models in three channels, one or two features, sequences of two times; linear component models with free '
           'coefficients (hybrid models only compose them); Poisson ratio in [0, 0.45]; polynomials of degree three')


class Lin(torch.nn.Module):
    """component model: free affine map of the features, optionally returning a tuple"""

    def __init__(self, c, name, i, o, tup=False, norm=(False, False)):
        super().__init__()
        self.w, self.b, self.tup = c.real(f'{name}.w', (o, i), -2, 2), c.real(f'{name}.b', (o,), -2, 2), tup
        self.is_model_in_normalized, self.is_model_out_normalized = norm
        self._data_scalers = {'features_in': None, 'features_out': None}
        self.calls = []

    def forward(self, x):
        self.calls.append(x)
        y = x @ self.w.T + self.b
        return (y, None) if self.tup else y


def entry(m, ij, res=False):
    return {'hyb_model': m, 'hyb_indices': ij, 'is_input_residual': res}


def build(d, i, o, **k):
    k.setdefault('is_save_model_init_file', False)
    return hm.HybridModel(i, o, d, None, **k)


def composition(orders, kind, batched):
    """models in channels, in whatever order they are listed"""
    def body(c):
        ms = {'a': (Lin(c, 'a', 2, 1), (0, 0)), 'b': (Lin(c, 'b', 1, 2, tup=True), (0, 3)),
              'd': (Lin(c, 'd', 2, 2, tup=True), (2, 1)), 'e': (Lin(c, 'e', 2, 2), (5, 1))}
        x = c.real('x', (2, 2, 2) if batched else (2, 2), -2, 2)
        f = {k: (lambda z, m=m: z @ m.w.T + m.b) for k, (m, _) in ms.items()}
        for order in orders:
            h = build({k: entry(*ms[k]) for k in order}, 2, 2, hybridization_type=kind)
            ch = f['b'](f['a'](x))
            ref = ch if kind == 'identity' else ch + f['d'](x) + f['e'](x)
            keep = x.clone()
            c.eq('composition', h(x), ref)
            c.eq('input untouched', x, keep)
            c.true('names', list(h.get_hybridized_models_names()) == ['a', 'b', 'd', 'e'])
            for k in order:
                c.true('model of that name', h.get_hybridized_model(k) is ms[k][0])
        c.raises('unknown model', RuntimeError, h.get_hybridized_model, 'z')
        c.raises('same place twice', RuntimeError, build, {'a': entry(ms['a'][0], (0, 1)), 'b': entry(ms['b'][0], (0, 1))}, 2, 2)
        c.raises('unknown combination', RuntimeError, build, {'a': entry(ms['a'][0], (0, 1))}, 2, 2, hybridization_type='other')
        c.raises('not a tensor', RuntimeError, h, [1.0, 2.0])
    return body


def residual(c):
    """the input is appended to the output of the previous model"""
    a, b, d = Lin(c, 'a', 2, 1), Lin(c, 'b', 3, 2), Lin(c, 'd', 4, 1)
    x = c.real('x', (2, 2), -2, 2)
    h = build({'a': entry(a, (0, 0)), 'b': entry(b, (0, 1), True), 'd': entry(d, (0, 2), True)}, 2, 1)
    y = a(x)
    y = b(torch.cat((y, x), dim=-1))
    y = d(torch.cat((y, x), dim=-1))
    c.eq('residual connection', h(x), y)
    h = build({'d': entry(d, (0, 0), True)}, 2, 1)
    c.eq('residual connection of the first model', h(x), d(torch.cat((x, x), dim=-1)))


def normalised(kind, inn, out):
    """component models working on normalised features"""
    def body(c):
        a, b = Lin(c, 'a', 1, 1, norm=(inn, out)), Lin(c, 'b', 1, 1)
        p, q = c.real('p', (2, 1), -2, 2), c.real('q', (2, 1), 0.1, 2)
        if kind == 'min-max':
            sc = [TorchMinMaxScaler(1, minimum=p[i], maximum=p[i] + q[i]) for i in range(2)]
            nor = lambda z, i: 2.0 * (z - p[i]) / q[i] - 1.0
            den = lambda z, i: p[i] + 0.5 * (z + 1.0) * q[i]
        else:
            sc = [TorchStandardScaler(1, mean=p[i], std=q[i]) for i in range(2)]
            nor = lambda z, i: (z - p[i]) / q[i]
            den = lambda z, i: p[i] + z * q[i]
        mods = {'a': entry(a, (0, 0)), 'b': entry(b, (0, 1))}
        c.raises('scalers missing', RuntimeError, build, mods, 1, 1)
        if inn and out:
            a._data_scalers['features_out'] = sc[1]
            c.raises('input scaler missing', RuntimeError, build, mods, 1, 1)
            a._data_scalers['features_in'], a._data_scalers['features_out'] = sc[0], None
            c.raises('output scaler missing', RuntimeError, build, mods, 1, 1)
        a._data_scalers['features_in'], a._data_scalers['features_out'] = sc
        h = build(mods, 1, 1)
        x = c.real('x', (2, 1), -2, 2)
        y = a.w[0, 0] * (nor(x, 0) if inn else x) + a.b
        y = b.w[0, 0] * (den(y, 1) if out else y) + b.b
        c.eq('physical features between models', h(x), y)
        # the hybrid model itself returns normalised features
        h = build(mods, 1, 1, is_model_out_normalized=True)
        mds.set_data_scalers(h, sc[0], sc[0])
        c.eq('normalised output', h(x), nor(y, 0))
    return body


class Net(torch.nn.Module):
    def __init__(self, i, o):
        super().__init__()
        self.lin = torch.nn.Linear(i, o)

    def forward(self, x):
        return self.lin(x)


def setting(c):
    """assembling a component model"""
    d = os.path.join(os.environ['SYM_SCRATCH'], 'hyb')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    net = Net(2, 1)
    torch.save(net.state_dict(), os.path.join(d, 'state.pt'))
    for res in (True, False):
        e = set_hybridized_model(Net, (1, 2), model_init_args={'i': 2, 'o': 1}, is_input_residual=res,
                                 model_state_file_path=os.path.join(d, 'state.pt'))
        c.true('indices', e['hyb_indices'] == (1, 2) and e['is_input_residual'] is res)
        x = c.real(f'x{res}', (2, 2), -2, 2)
        c.eq('stored state', e['hyb_model'](x), net(x))
    # stored and reloaded hybrid model
    h = hm.HybridModel(2, 1, {'a': e}, d, model_name='hybrid')
    for kw in ({'model_directory': d}, {'model_init_file_path': os.path.join(d, 'model_init_file.pkl')}):
        q = hm.HybridModel.init_model_from_file(**kw)
        c.eq('reloaded', q(x), h(x))
        c.true('name', q.model_name == 'hybrid')
    k = dict(model_init_args={'i': 2, 'o': 1})
    for bad in ([0, 1], (0,), (0, 1.0), (0, 1, 2), 3):
        c.raises('indices', RuntimeError, set_hybridized_model, Net, bad, **k)
    c.raises('residual', RuntimeError, set_hybridized_model, Net, (0, 0), is_input_residual=1, **k)
    c.raises('no arguments', RuntimeError, set_hybridized_model, Net, (0, 0))
    c.raises('no file support', RuntimeError, set_hybridized_model, Net, (0, 0), model_init_file_path=d)
    c.raises('no state file', RuntimeError, set_hybridized_model, Net, (0, 0), model_state_file_path=d + '/other', **k)
    c.raises('no scalers', RuntimeError, set_hybridized_model, Net, (0, 0), data_scalers={}, **k)
    shutil.rmtree(d, ignore_errors=True)
    c.raises('no directory', RuntimeError, hm.HybridModel.init_model_from_file, model_directory=d)
    c.raises('nothing given', RuntimeError, hm.HybridModel.init_model_from_file)


class Scaled(Net):
    """component model of normalised features which takes its scalers when assembled"""

    def __init__(self, i, o, norm=(True, True)):
        super().__init__(i, o)
        self.is_model_in_normalized, self.is_model_out_normalized = norm
        mds.init_data_scalers(self)
        self._device_type, self._is_save_model_init_file = 'cpu', False

    def set_data_scalers(self, scaler_features_in, scaler_features_out):
        mds.set_data_scalers(self, scaler_features_in, scaler_features_out)


def scalers_given(c):
    """scalers handed over with the component model"""
    p, q = c.real('p', (2, 1), -2, 2), c.real('q', (2, 1), 0.1, 2)
    sc = [TorchStandardScaler(1, mean=p[i], std=q[i]) for i in range(2)]
    x = c.real('x', (2, 1), -2, 2)
    for keys in (('features_in', 'features_out'), ('features_in',), ('features_out',)):
        norm = tuple(k in keys for k in ('features_in', 'features_out'))
        d = {k: sc[k == 'features_out'] for k in keys}
        e = set_hybridized_model(Scaled, (0, 0), model_init_args={'i': 1, 'o': 1, 'norm': norm}, data_scalers=d)
        h = build({'a': e}, 1, 1)
        w, b = e['hyb_model'].lin.weight.detach(), e['hyb_model'].lin.bias.detach()
        z = (x - p[0]) / q[0] if norm[0] else x
        y = z @ w.T + b
        c.eq('scalers of the component', h(x), p[1] + y * q[1] if norm[1] else y)
    # the polynomial regressor
    e = set_hybridized_model(tl.PolynomialLinearRegressor, (0, 0), data_scalers={'features_in': sc[0], 'features_out': sc[1]},
                             model_init_args={'n_features_in': 1, 'is_model_in_normalized': True, 'is_model_out_normalized': True})
    m = e['hyb_model']
    for i, t in enumerate(('features_in', 'features_out')):
        c.eq(f'normalise {t}', m.data_scaler_transform(x, t), (x - p[i]) / q[i])
        c.eq(f'denormalise {t}', m.data_scaler_transform(x, t, mode='denormalize'), p[i] + x * q[i])
    c.raises('unknown scaler', RuntimeError, m.data_scaler_transform, x, 'other')
    c.raises('unknown mode', RuntimeError, m.data_scaler_transform, x, 'features_in', mode='other')
    w = torch.cat([k.weight.detach().reshape(-1) for k in m.modules() if isinstance(k, torch.nn.Linear)])
    c.eq('normalised regression', build({'a': e}, 1, 1)(x), p[1] + (w[0] + w[1] * (x - p[0]) / q[0]) * q[1])
    c.raises('not a dictionary', RuntimeError, set_hybridized_model, Scaled, (0, 0), model_init_args={'i': 1, 'o': 1},
             data_scalers=sc)


def reloaded(kind, res, out):
    """a stored hybrid model, scalers included, comes back as it was"""
    def body(c):
        d = os.path.join(os.environ['SYM_SCRATCH'], 'hyb')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        mk = lambda v: torch.tensor([v])
        s = [TorchStandardScaler(1, mean=mk(0.5), std=mk(2.0)), TorchMinMaxScaler(1, minimum=mk(-1.0), maximum=mk(3.0)),
             TorchStandardScaler(1, mean=mk(-0.75), std=mk(0.5)), TorchStandardScaler(1, mean=mk(1.5), std=mk(4.0))]
        e = [set_hybridized_model(Scaled, (0, 0), model_init_args={'i': 1, 'o': 1},
                                  data_scalers={'features_in': s[0], 'features_out': s[1]}),
             set_hybridized_model(Net, (1, 0), model_init_args={'i': 2 if res else 1, 'o': 1}, is_input_residual=res)]
        h = hm.HybridModel(1, 1, {'a': e[0], 'b': e[1]}, d, model_name='hybrid', hybridization_type=kind,
                           is_model_in_normalized=True, is_model_out_normalized=out)
        mds.set_data_scalers(h, s[2], s[3])
        h.save_model_init_file()
        x = c.real('x', (2, 1), -2, 2)
        y = h(x)
        for k in (0, 1):
            q = hm.HybridModel.init_model_from_file(**({'model_directory': d} if k else
                                                       {'model_init_file_path': os.path.join(d, 'model_init_file.pkl')}))
            c.eq('reloaded', q(x), y)
            c.true('normalisation', q.is_model_in_normalized is True and q.is_model_out_normalized is out)
            c.true('directory', os.path.normpath(q.model_directory) == os.path.normpath(d))
            for t in ('features_in', 'features_out'):
                for m in ('normalize', 'denormalize'):
                    c.eq(f'{m} {t}', mds.data_scaler_transform(q, x, t, mode=m), mds.data_scaler_transform(h, x, t, mode=m))
        shutil.rmtree(d, ignore_errors=True)
    return body


class Explicit(Net):
    """component model with named parameters"""

    def __init__(self, explicit, vals, bounds):
        super().__init__(1, 1)
        self.is_explicit_parameters, self.v, self.b, self.n, self.dev = explicit, vals, bounds, 0, []

    def get_detached_model_parameters(self, is_normalized_out=False):
        return {k: v[1 if is_normalized_out else 0] for k, v in self.v.items()}

    def get_model_parameters_bounds(self):
        return dict(self.b)

    def sync_material_model_parameters(self):
        self.n += 1

    def set_device(self, t):
        self.dev.append(t)


def parameters(c):
    """parameters of the components are collected under the component's name"""
    v = c.real('v', (3, 2), -5, 5)
    ms = {'p': Explicit(True, {'E': v[0], 'nu': v[1]}, {'E': (1.0, 2.0), 'nu': (0.0, 0.4)}),
          'q': Explicit(False, {'E': v[2]}, {'E': (3.0, 4.0)}), 'r': Explicit(True, {'E': v[2]}, {'E': (5.0, 6.0)}), 's': Net(1, 1)}
    for order in ('pqrs', 'srqp', 'rpsq'):
        for k in 'pqr':
            ms[k].n = 0
        h = build({k: entry(ms[k], ('pqrs'.index(k), 0)) for k in order}, 1, 1, hybridization_type='additive')
        for norm in (False, True):
            j = int(norm)
            g = h.get_detached_model_parameters(is_normalized_out=norm)
            c.true('names', set(g) == {'p_E', 'p_nu', 'r_E'})
            for n, w in (('p_E', v[0]), ('p_nu', v[1]), ('r_E', v[2])):
                c.eq('value', g[n], w[j])
        c.true('physical values by default', set(h.get_detached_model_parameters()) == set(g))
        c.eq('physical value', h.get_detached_model_parameters()['p_E'], v[0, 0])
        b = h.get_model_parameters_bounds()
        c.true('bounds', b == {'p_E': (1.0, 2.0), 'p_nu': (0.0, 0.4), 'r_E': (5.0, 6.0)})
        h.sync_material_model_parameters()
        c.true('every component synchronised', all(ms[k].n == 1 for k in 'pqr'))
        c.true('components', list(h.get_hybridized_models()) == [ms[k] for k in 'pqrs'])


def elastic(mod, problem, kind, batched):
    """linear elastic layer"""
    def body(c):
        o, n = (S3, 3) if problem == 4 else (S2, 2)
        E, v = c.real('E', (), 1, 10), c.real('v', (), 0, 0.45)
        cls = getattr(mod, 'BatchedElasticModel')
        m = cls(problem, {'E': E, 'v': v}, 'isotropic')
        k = len(o)
        sh = (2, 2, k) if batched else (2, k)
        e = c.real('e', sh, -1, 1)
        la, mu = E * v / ((1 + v) * (1 - 2 * v)), E / (2 * (1 + v))
        tr = sum(e[..., j] for j in range(n))
        ref = torch.stack([2 * mu * e[..., j] + (la * tr if j < n else 0.0) for j in range(k)], dim=-1)
        if kind == 'elastic':
            x = e
        else:
            p = c.real('p', sh, -1, 1)
            # hybridized layers append the total strain to the plastic strain, the others list the total strain first
            x = torch.cat((p, e + p) if mod is hl else (e + p, p), dim=-1)
        keep = x.clone()
        y = m(x)
        c.true('shape', tuple(y.shape) == sh)
        c.eq('stress', y, ref)
        c.eq('input untouched', x, keep)
        c.raises('number of features', RuntimeError, m, torch.zeros(2, k + 1))
        c.raises('not a tensor', RuntimeError, m, [0.0])
    return body


def cubic(mod):
    """elastic symmetries other than isotropy"""
    def body(c):
        v = c.real('c', (9,), 0.1, 5)
        k = ('E1111', 'E1122', 'E1133', 'E2222', 'E2233', 'E3333', 'E1212', 'E2323', 'E1313')
        d = {n: v[i] for i, n in enumerate(k)}
        m = mod.BatchedElasticModel(4, d, 'orthotropic')
        e = c.real('e', (1, 6), -1, 1)
        y = m(e)[0]
        a = [[d['E1111'], d['E1122'], d['E1133']], [d['E1122'], d['E2222'], d['E2233']], [d['E1133'], d['E2233'], d['E3333']]]
        ref = [sum(a[i][j] * e[0, j] for j in range(3)) for i in range(3)]
        ref += [2 * d['E1212'] * e[0, 3], 2 * d['E2323'] * e[0, 4], 2 * d['E1313'] * e[0, 5]]
        c.eq('stress', y, torch.stack(ref))
    return body


def voldev(batched):
    def body(c):
        sh = (2, 2) if batched else (2,)
        x = c.real('x', sh + (7,), -2, 2)
        keep = x.clone()
        m = hl.VolDevCompositionModel()
        y = m(x)
        ref = torch.stack([keep[..., 1 + j] + (keep[..., 0] if j < 3 else 0.0) for j in range(6)], dim=-1)
        c.true('shape', tuple(y.shape) == sh + (6,))
        c.eq('composition', y, ref)
        c.eq('input untouched', x, keep)
        c.eq('again', m(x), ref)
        c.raises('number of features', RuntimeError, m, torch.zeros(2, 6))
        c.raises('not a tensor', RuntimeError, m, [0.0])
        # the composition of the stress features is the stress
        s = c.real('s', (2, 6), -2, 2)
        ds = TimeSeriesDatasetInMemory([{'stress_path': s, 'stress_comps_order': S3}])
        for f in ('vol_stress', 'dev_stress'):
            ds = sf.add_stress_features(ds, f)
        c.eq('stress recovered', m(torch.cat((ds[0]['vol_stress'], ds[0]['dev_stress']), dim=-1)), s)
    return body


def poly(deg, bias, batched):
    def body(c):
        m = tl.PolynomialLinearRegressor(2, poly_degree=deg, is_bias=bias)
        n = deg + 1 if bias else deg
        w = c.real('w', (2, n), -2, 2)
        lay = [k for k in m.modules() if isinstance(k, torch.nn.Linear)]
        c.true('coefficients', len(lay) == 2 and all(tuple(k.weight.shape) == (1, n) and k.bias is None for k in lay))
        for i, k in enumerate(lay):
            del k._parameters['weight']
            k.weight = w[i:i + 1]
        x = c.real('x', (2, 2, 2) if batched else (2, 2), -2, 2)
        y = m(x)
        ref = torch.stack([sum(w[i, k] * x[..., i] ** (k if bias else k + 1) for k in range(n)) for i in range(2)], dim=-1)
        c.true('shape', y.shape == x.shape)
        c.eq('polynomial', y, ref)
        c.raises('not a tensor', RuntimeError, m, [0.0])
    return body


def sym(v, o, n):
    ix = {k: i for i, k in enumerate(o)}
    return [[v[..., ix.get(f'{i + 1}{j + 1}', ix.get(f'{j + 1}{i + 1}'))] for j in range(n)] for i in range(n)]


def features(o):
    """strain invariants, volumetric and deviatoric stress of every time of every sample"""
    def body(c):
        smp, raw = [], []
        for i, t in enumerate((2, 1)):
            e, s = c.real(f'e{i}', (t, len(o)), -2, 2), c.real(f's{i}', (t, len(o)), -2, 2)
            raw.append((e.clone(), s.clone()))
            smp.append({'strain_path': e, 'stress_path': s, 'strain_comps_order': o, 'stress_comps_order': o})
        for f in ('vol_stress', 'dev_stress', 'i1_strain', 'i2_strain'):
            ds = TimeSeriesDatasetInMemory([dict(x) for x in smp])
            ds = (sf.add_stress_features if 'stress' in f else ef.add_strain_features)(ds, f)
            c.true('samples', len(ds) == 2)
            for i, (e, s) in enumerate(raw):
                q = ds[i]
                c.eq('strain kept', q['strain_path'], e)
                c.eq('stress kept', q['stress_path'], s)
                t = e.shape[0]
                E, S = sym(e, o, 3), sym(s, o, 3)
                p = (S[0][0] + S[1][1] + S[2][2]) / 3.0
                i1 = E[0][0] + E[1][1] + E[2][2]
                # second principal invariant: sum of the principal minors
                i2 = sum(E[a][a] * E[b][b] - E[a][b] * E[b][a] for a, b in ((0, 1), (0, 2), (1, 2)))
                if f == 'dev_stress':
                    ref = torch.stack([s[..., k] - (p if x[0] == x[1] else 0.0) for k, x in enumerate(o)], dim=-1)
                else:
                    ref = {'vol_stress': p, 'i1_strain': i1, 'i2_strain': i2}[f].reshape(t, 1)
                c.true('shape', tuple(q[f].shape) == tuple(ref.shape))
                c.eq(f, q[f], ref)
        ds = TimeSeriesDatasetInMemory([dict(x) for x in smp])
        c.raises('unknown feature', RuntimeError, sf.add_stress_features, ds, 'other')
        c.raises('unknown feature', RuntimeError, ef.add_strain_features, ds, 'other')
        ds = TimeSeriesDatasetInMemory([{'strain_path': e, 'stress_path': s}])
        c.raises('component order', RuntimeError, sf.add_stress_features, ds, 'vol_stress')
        c.raises('component order', RuntimeError, ef.add_strain_features, ds, 'i1_strain')
        ds = TimeSeriesDatasetInMemory([{'strain_comps_order': o, 'stress_comps_order': o}])
        c.raises('path', RuntimeError, sf.add_stress_features, ds, 'vol_stress')
        c.raises('path', RuntimeError, ef.add_strain_features, ds, 'i1_strain')
        two = [{'strain_path': e[:, :3], 'stress_path': s[:, :3], 'strain_comps_order': S2, 'stress_comps_order': S2}]
        for f in ('vol_stress', 'dev_stress'):
            c.raises('plane stress state', RuntimeError, sf.add_stress_features, TimeSeriesDatasetInMemory(two), f)
        for f in ('i1_strain', 'i2_strain'):
            c.raises('plane strain state', RuntimeError, ef.add_strain_features, TimeSeriesDatasetInMemory(two), f)
    return body


def cases(tier):
    orders = list(itertools.permutations('abde'))
    if tier == 'quick':
        orders = orders[::5]
    out = []
    for b in (True, False):
        t = ' batched' if b else ''
        for kind in ('identity', 'additive'):
            out.append(Case(f'{kind} combination{t}', composition(orders, kind, b)))
        for mod in (hl, tl):
            nm = mod.__name__.split('.')[-1]
            for p in (1, 4):
                for kind in ('elastic', 'plastic'):
                    out.append(Case(f'elastic layer of {nm}, problem {p}, {kind} input{t}', elastic(mod, p, kind, b)))
        out.append(Case(f'volumetric and deviatoric{t}', voldev(b)))
        for bias in (True, False):
            for deg in (1, 3):
                out.append(Case(f'polynomial {deg} {"with" if bias else "without"} constant{t}', poly(deg, bias, b)))
    out += [Case('residual', residual), Case('setting', setting), Case('orthotropic hybridized_layers', cubic(hl)),
            Case('orthotropic transfer_learning', cubic(tl))]
    out += [Case('scalers of components', scalers_given), Case('parameters of components', parameters)]
    for kind in ('identity', 'additive'):
        for res in (False, True):
            out.append(Case(f'reloaded {kind} {"residual" if res else ""}', reloaded(kind, res, res)))
    for kind in ('min-max', 'mean-std'):
        for i, o in ((True, True), (True, False), (False, True)):
            out.append(Case(f'normalised {kind} {"in" if i else ""}{"out" if o else ""}', normalised(kind, i, o)))
    out.append(Case('features', features(S3)))
    out.append(Case('features permuted', features(('33', '12', '22', '13', '11', '23'))))
    out.append(Case('features nonsymmetric', features(N3)))
    return out
