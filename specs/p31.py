"""Generated material response data sets: every sample is the material response to its strain path"""
import os
import copy
import numpy as np
import pandas
import torch
from unittest import mock
from .common import *
from . import p12
from .p22 import disk
from simulators.fetorch.material.models.standard.elastic import Elastic
import tqdm
tqdm.tqdm = lambda it=(), **k: it       # progress bars off
from user_scripts.synthetic_data import gen_response_dataset as gr, gen_noisy_response_dataset as gn
from utilities.data_scalers import TorchMinMaxScaler

OUTSIDE = ('paths of three or four times, one or two samples, the first two trials of a sample may fail; the material is a '
           'stand-in that depends linearly on the whole strain history with free coefficients (the real elastic and von Mises '
           'models in separate cases); strain and noise generators are stand-ins with free values (see P23); figures and '
           'printed summaries are not checked; files are read through pandas with free values in the cells')
ORD = {1: ('12', '11', '22'), 4: ('13', '22', '11', '23', '33', '12')}
PLAIN = {1: S2, 4: S3}
NAMES = {'elastic': 'Elastic', 'von_mises': 'VonMises', 'drucker_prager': 'DruckerPrager', 'lou_zhang_yoon': 'LouZhangYoon'}


def feats(pt):
    return {'e_strain_mf': len(PLAIN[pt]), 'acc_p_strain': 1, 'missing_var': 1}


class Law:
    """arbitrary history-dependent material with failures chosen freely"""
    def __init__(self, formulation, problem_type, parameters):
        self.pt, self.par = problem_type, parameters
        self.n = 2 if problem_type == 1 else 3
        self.o = PLAIN[problem_type]
        self.ok = formulation == 'infinitesimal'

    def get_strain_type(self):
        return 'infinitesimal'

    def state_init(self):
        z = torch.zeros(len(self.o))
        return {'strain_mf': z, 'stress_mf': z.clone(), 'e_strain_mf': z.clone(), 'acc_p_strain': torch.tensor(0.0),
                'is_su_fail': False}

    def state_update(self, inc, old):
        p = self.par
        d = kelvin(inc, self.o)
        e = old['strain_mf'] + d
        acc = old['acc_p_strain'] + (d * torch.arange(1.0, len(d) + 1)).sum() + old['strain_mf'][0]
        el = p['k'] * e - acc * 0.5
        s = p['a'] * el + p['b'] * old['stress_mf'].flip(0)
        return {'strain_mf': e, 'stress_mf': s, 'e_strain_mf': el, 'acc_p_strain': acc, 'is_su_fail': p['fail']()}, None


class Fails:
    """is the n-th update a failure? free for the listed positions, otherwise no"""
    def __init__(self, c, free=(), always=False):
        self.c, self.free, self.k, self.always, self.memo = c, free, 0, always, {}

    def __call__(self):
        k, self.k = self.k, self.k + 1
        if self.always:
            return True
        if k not in self.free:
            return False
        self.memo[k] = self.c.flag(f'fail{k}')
        return self.memo[k]


def params(c, fail=None):
    return {'k': c.real('k', (), 0.5, 2), 'a': c.real('a', (), -3, 3), 'b': c.real('b', (), -1, 1),
            'fail': fail or (lambda: False)}


def tens(row, order, n):
    m = {}
    for k, o in enumerate(order):
        i, j = int(o[0]) - 1, int(o[1]) - 1
        m[i, j] = m[j, i] = row[k]
    return torch.stack([torch.stack([torch.as_tensor(m[i, j]) for j in range(n)]) for i in range(n)])


def comps(t, order):
    return torch.stack([t[int(o[0]) - 1, int(o[1]) - 1] for o in order])


def step(law, path, order, want=()):
    """reference: rows of stress components and features"""
    n = 2 if law.pt == 1 else 3
    s = law.state_init()
    rows = [torch.zeros(len(order))]
    fe = {f: [torch.zeros(l)] for f, l in want.items()} if want else {}
    for t in range(1, path.shape[0]):
        s, _ = law.state_update(tens(path[t], order, n) - tens(path[t - 1], order, n), s)
        rows.append(comps(unkelvin(s['stress_mf'], PLAIN[law.pt], n), order))
        for f in list(fe):
            if f not in s:
                fe.pop(f)
            elif 'strain_mf' in f:
                fe[f].append(comps(unkelvin(s[f], PLAIN[law.pt], n), order))
            else:
                fe[f].append(torch.as_tensor(s[f]).reshape(1))
    return torch.stack(rows), {f: torch.stack(v) for f, v in fe.items()}


def nppath(c, name, pt, n_time, start=False):
    p = c.npreal(name, (n_time, len(PLAIN[pt])), -1, 1)
    if not start:
        p[0, :] = 0.0
    return p


def tt(p):
    return torch.tensor(p) if not isinstance(p, torch.Tensor) else p


MODS = {'plain': (gr, gr.MaterialResponseDatasetGenerator), 'noisy': (gn, gn.NoisyMaterialResponseDatasetGenerator)}


def stress(kind, pt, n_time, real=None):
    def body(c):
        mod, cls = MODS[kind]
        g = cls('infinitesimal', pt)
        o = ORD[pt]
        t = c.npreal('t', (n_time,), 0, 1)
        if real is None:
            f = Fails(c, (1, 2))
            law = Law('infinitesimal', pt, params(c, f))
            x = nppath(c, 'x', pt, n_time, start=True)
        else:
            f = Fails(c)
            law = real(pt)
            law.pt = pt
            if isinstance(law, Elastic):
                x = nppath(c, 'x', pt, n_time, start=True)
            else:
                d = np.array([{'11': 1.0, '12': 1.0}.get(q, 0.0) for q in o])
                s = c.npreal('s', (n_time,), -0.05, 0.05)
                s[0] = 0.0
                x = np.array([[s[i] * v for v in d] for i in range(n_time)])
        keep = x.copy()
        fe = feats(pt)
        with sym_numpy(c, mod):
            so, sp, st, bad = g.compute_stress_path(o, t, x, law, state_features=fe)
        c.eq('strain path untouched', x, keep)
        c.true('features untouched', fe == feats(pt))
        c.true('component order', tuple(so) == tuple(o))
        failed = any(f.memo.values())
        c.true('failure is reported', bool(bad) == failed)
        if failed:
            return
        if real is None:
            law = Law('infinitesimal', pt, dict(law.par, fail=lambda: False))
        else:
            law = real(pt)
            law.pt = pt
        sig, w = step(law, tt(keep), o, {k: v for k, v in fe.items()})
        c.true('shape', tuple(sp.shape) == (n_time, len(o)))
        c.eq('response to the strain path', sp, sig, tol=1e-6)
        c.true('state features', set(st) == set(w))
        for k in w:
            c.eq(f'state feature {k}', st[k], w[k], tol=1e-6)
    return body


def tensors(kind, pt):
    def body(c):
        mod, cls = MODS[kind]
        n, o = (2, ORD[1]) if pt == 1 else (3, ORD[4])
        v = c.npreal('v', (len(o),), -1, 1)
        full = N2 if pt == 1 else N3
        w = c.npreal('w', (len(full),), -1, 1)
        with sym_numpy(c, mod):
            t = cls.build_tensor_from_comps(n, o, v, is_symmetric=True)
            u = cls.build_tensor_from_comps(n, full, w)
            c.eq('symmetric tensor', t, tens(tt(v), o, n))
            c.eq('components', cls.store_tensor_comps(o, t), v)
            for k, q in enumerate(full):
                c.eq('nonsymmetric tensor', u[int(q[0]) - 1, int(q[1]) - 1], w[k])
            c.eq('nonsymmetric components', cls.store_tensor_comps(full, u), w)
            c.eq('upper part only', cls.build_tensor_from_comps(n, ('12',), v[:1])[1, 0], 0.0)
    return body


class Gen:
    """strain path generator: free values"""
    ctx, made, log = None, None, None

    def __init__(self, strain_formulation, n_dim):
        self.pt = 1 if n_dim == 2 else 4
        Gen.log.append((type(self).__name__, strain_formulation, n_dim))

    def generate_strain_path(self, **kw):
        k = len(Gen.made)
        Gen.log.append(kw)
        n = kw['n_time']
        x = nppath(Gen.ctx, f'path{k}', self.pt, n)
        t = np.array([float(i + 10 * k) for i in range(n)])
        Gen.made.append((x.copy(), t))
        return ORD[self.pt], t, x


class RandomGen(Gen):
    pass


class PropGen(Gen):
    pass


def patched(c, mod, kind='random'):
    Gen.ctx, Gen.made, Gen.log = c, [], []
    st = contextlib.ExitStack()
    st.enter_context(mock.patch.object(mod, 'RandomStrainPathGenerator', RandomGen))
    st.enter_context(mock.patch.object(mod, 'ProportionalStrainPathGenerator', PropGen))
    st.enter_context(sym_numpy(c, mod))
    return st


def sample(c, label, s, order, x, t, sig, w, extra=()):
    c.true(f'{label}: entries', set(s) == {'strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path',
                                           'time_hist'} | set(w) | set(extra))
    c.true(f'{label}: orders', tuple(s['strain_comps_order']) == tuple(order) == tuple(s['stress_comps_order']))
    for k in ('strain_path', 'stress_path', 'time_hist'):
        c.true(f'{label}: precision', s[k].dtype == torch.get_default_dtype())
    c.eq(f'{label}: strain', s['strain_path'], tt(x), tol=1e-6)
    c.eq(f'{label}: stress', s['stress_path'], sig, tol=1e-6)
    c.true(f'{label}: time shape', tuple(s['time_hist'].shape) == (len(t), 1))
    c.eq(f'{label}: time', s['time_hist'].reshape(-1), tt(t))
    for k in w:
        c.eq(f'{label}: {k}', s[k], w[k], tol=1e-6)


def successes(fails, n_inc, n_path, ntrial):
    """which trials succeeded, from the failures that occurred"""
    good, k, t = [], 0, 0
    while len(good) < n_path and t < ntrial:
        ok = True
        for _ in range(n_inc):
            bad = fails.memo.get(k, False)
            k += 1
            if bad:
                ok = False
                break
        if ok:
            good.append(t)
        t += 1
    return good


def generate(kind, pt, model='von_mises', path_type='random', n_path=2, memory=True, free=(0, 2)):
    def body(c):
        mod, cls = MODS[kind]
        g = cls('infinitesimal', pt)
        f = Fails(c, free)
        par = params(c, f)
        law = Law('infinitesimal', pt, dict(par, fail=lambda: False))
        kw = {'n_time': 3, 'strain_bounds': {'x': 1}}
        keep = copy.deepcopy(kw)
        fe = feats(pt)
        with patched(c, mod), disk(c) as d:
            if kind == 'plain':
                built = []

                def make(*a, **k):
                    built.append(Law(*a, **k))
                    return built[-1]
                with contextlib.ExitStack() as st:
                    for nm, cl in NAMES.items():
                        st.enter_context(mock.patch.object(
                            mod, cl, make if nm == model else mock.Mock(side_effect=AssertionError('wrong model'))))
                    ex = {} if memory else {'is_in_memory_dataset': False, 'dataset_directory': d, 'dataset_basename': 'zz'}
                    ds = g.generate_response_dataset(n_path, path_type, kw, model, par, state_features=fe, **ex)
                c.true('model arguments', len(built) == 1 and built[0].ok and built[0].pt == pt and built[0].par is par)
                if not memory:
                    c.true('data set on disk', ds.get_dataset_directory() == os.path.normpath(d) and
                           ds.get_dataset_basename() == 'zz' and len(set(ds.get_dataset_sample_files())) == n_path)
            else:
                ds = g.generate_noiseless_dataset(n_path, path_type, kw, Law('infinitesimal', pt, par), state_features=fe)
            c.true('generator', Gen.log[0] == ({'random': 'RandomGen', 'proportional': 'PropGen'}[path_type], 'infinitesimal',
                                               2 if pt == 1 else 3))
            c.true('generator settings', all(q == keep for q in Gen.log[1:]) and kw == keep)
            c.true('number of samples', len(ds) == n_path)
            good = successes(f, 2, n_path, len(Gen.made))
            for i in range(n_path):
                x, t = Gen.made[good[i]]
                sig, w = step(law, tt(x), ORD[pt], fe)
                sample(c, f'sample {i}', ds[i], ORD[pt], x, t, sig, w)
    return body


def refuse(c):
    for kind in MODS:
        mod, cls = MODS[kind]
        g = cls('infinitesimal', 1)
        f = Fails(c, always=True)
        par = params(c, f)
        law = Law('infinitesimal', 1, par)
        kw = {'n_time': 3}
        with patched(c, mod), mock.patch.object(gr, 'Elastic', Law):
            if kind == 'plain':
                run = lambda *a, **k: g.generate_response_dataset(1, *a, **k)
                c.raises('material that keeps failing', RuntimeError, run, 'random', kw, 'elastic', par)
                c.raises('unknown path type', RuntimeError, run, 'nope', kw, 'elastic', par)
                c.raises('unknown material', RuntimeError, run, 'random', kw, 'nope', par)
                c.raises('no directory', RuntimeError, run, 'random', kw, 'elastic', par, is_in_memory_dataset=False,
                         dataset_basename='x')
                c.raises('no base name', RuntimeError, run, 'random', kw, 'elastic', par, is_in_memory_dataset=False,
                         dataset_directory=os.environ['SYM_SCRATCH'])
            else:
                run = lambda *a, **k: g.generate_noiseless_dataset(1, *a, **k)
                c.raises('material that keeps failing', RuntimeError, run, 'random', kw, law)
                c.raises('unknown path type', RuntimeError, run, 'nope', kw, law)
            c.true('a failing material is given up', len(Gen.made) <= 100)


COLS = ['TIME'] + ['E' + o for o in S3] + ['S' + o for o in S3]


def csv(pt, memory):
    def body(c):
        g = gr.MaterialResponseDatasetGenerator('infinitesimal', pt)
        cells, zero = {}, {}
        names = ['run_10.csv', 'run_9.csv', 'run_2.csv']
        for n in names:
            a = c.npreal(n[:-4], (2, 13), -5, 5)
            zero[n] = n != 'run_9.csv' and bool(c.flag('zero' + n))
            if zero[n]:
                a[:, 7:] = 0.0
            else:
                c.assume(a[0, 7] >= 0.1)
            cells[n] = a

        def read(path, *a, **k):
            m = cells[os.path.basename(path)]
            return pandas.DataFrame(m.copy(), columns=COLS)
        cols = [S3.index(o) for o in PLAIN[pt]]
        pd = mock.Mock(wraps=pandas)
        pd.read_csv = read
        with disk(c) as d, mock.patch.object(gr, 'pandas', pd), sym_numpy(c, gr):
            ex = {} if memory else {'is_in_memory_dataset': False, 'dataset_directory': d, 'dataset_basename': 'zz'}
            ds = g.gen_response_dataset_from_csv([os.path.join(d, n) for n in names], **ex)
            want = [n for n in sorted(names, key=lambda q: int(q[4:-4])) if not zero[n]]
            c.true('one sample for every file with a response', len(ds) == len(want))
            for i, n in enumerate(want):
                m = cells[n]
                sample(c, 'file', ds[i], PLAIN[pt], m[:, [1 + k for k in cols]], m[:, 0], tt(m[:, [7 + k for k in cols]]), {})
    return body


def csv_reject(c):
    g = gr.MaterialResponseDatasetGenerator('infinitesimal', 4)
    pd = mock.Mock(wraps=pandas)
    pd.read_csv = lambda *a, **k: pandas.DataFrame(np.ones((2, 12)))
    with mock.patch.object(gr, 'pandas', pd):
        c.raises('number of columns', RuntimeError, g.gen_response_dataset_from_csv, ['a_1.csv'])
        c.raises('no directory', RuntimeError, g.gen_response_dataset_from_csv, ['a_1.csv'], is_in_memory_dataset=False)
    c.le('dummy', c.real('q', (), 0, 1), 1.0)


class Store:
    """data set given to the generator under test in place of a file"""
    def __init__(self, s):
        self.s = s

    def __len__(self):
        return len(self.s)

    def __getitem__(self, i):
        return self.s[i]


def strains(pt, n=2, model='von_mises'):
    def body(c):
        g = gr.MaterialResponseDatasetGenerator('infinitesimal', pt)
        f = Fails(c, (1, 3))
        par = params(c, f)
        law = Law('infinitesimal', pt, dict(par, fail=lambda: False))
        fe = feats(pt)
        smp = [{'strain_comps_order': ORD[pt], 'strain_path': tt(nppath(c, f'x{i}', pt, 3)),
                'time_hist': c.real(f't{i}', (3, 1), 0, 1)} for i in range(n)]
        keep = [s['strain_path'].clone() for s in smp]
        path = os.path.join(os.environ['SYM_SCRATCH'], 'strains.pkl')
        open(path, 'w').close()
        try:
            with sym_numpy(c, gr), mock.patch.object(gr, 'load_dataset', lambda p: Store(smp)), \
                    contextlib.ExitStack() as st:
                for nm, cl in NAMES.items():
                    st.enter_context(mock.patch.object(
                        gr, cl, Law if nm == model else mock.Mock(side_effect=AssertionError('wrong model'))))
                run = lambda **k: g.gen_response_dataset_from_strain_dataset(path, model, par, state_features=fe)
                try:
                    ds = run()
                except RuntimeError:
                    ds = None
                c.true('failure is reported', (ds is None) == any(f.memo.values()))
                if ds is None:
                    return
        finally:
            os.remove(path)
        c.true('number of samples', len(ds) == n)
        for i in range(n):
            c.eq('strain data untouched', smp[i]['strain_path'], keep[i])
            sig, w = step(law, keep[i], ORD[pt], fe)
            sample(c, f'sample {i}', ds[i], ORD[pt], keep[i], smp[i]['time_hist'].reshape(-1), sig, w)
        c.raises('missing file', RuntimeError, g.gen_response_dataset_from_strain_dataset, path + 'x', 'von_mises', par)
    return body


class Noise:
    def __init__(self, c):
        self.c, self.log = c, []

    def generate_noise_path(self, path, noise_variability='homoscedastic', heteroscedastic_weights=None):
        k = len(self.log)
        z = self.c.npreal(f'z{k}', tuple(path.shape), -0.1, 0.1)
        self.log.append((path, noise_variability, heteroscedastic_weights, z.copy()))
        return z


def noisy(pt, n=1, scale=False, hetero=None, denoise=False, n_time=3, free=(0,)):
    def body(c):
        g = gn.NoisyMaterialResponseDatasetGenerator('infinitesimal', pt)
        m = len(PLAIN[pt])
        f = Fails(c, free)
        par = params(c, f)
        law = Law('infinitesimal', pt, dict(par, fail=lambda: False))
        fe = feats(pt)
        o = ORD[pt]
        smp = []
        for i in range(n):
            if hetero is None:
                x = nppath(c, f'x{i}', pt, n_time)
            else:
                # multiples of one direction: rational norms
                d = np.array([{'11': 1.0, '12': 2.0, '22': 4.0}.get(q, 0.0) for q in o])
                s = c.npreal(f's{i}', (n_time,), 0.1, 1)
                s[0] = 0.0
                x = np.array([[s[t] * v for v in d] for t in range(n_time)])
            y = c.npreal(f'y{i}', (n_time, m), -1, 1)
            smp.append({'strain_comps_order': o, 'strain_path': tt(x), 'stress_comps_order': o, 'stress_path': tt(y),
                        'time_hist': c.real(f't{i}', (n_time, 1), 0, 1)})
        keep = [{k: v.clone() for k, v in s.items() if isinstance(v, torch.Tensor)} for s in smp]
        z = Noise(c)
        kw = {}
        lo, hi = torch.tensor(-2.0), torch.tensor(2.0)
        if scale:
            lo, hi = c.real('lo', (m,), -2, -0.1), c.real('hi', (m,), 0.1, 2)
            kw['strain_data_scaler'] = TorchMinMaxScaler(m, lo, hi)
        if hetero is not None:
            kw['noise_variability'] = 'heteroscedastic'
            if hetero == 'given':
                kw['heteroscedastic_normalizer'] = c.npreal('hn', (1,), 0.5, 2)[0]
        with sym_numpy(c, gn):
            ds = g.generate_noisy_dataset(Store(smp), z, Law('infinitesimal', pt, par), state_features=fe,
                                          is_denoise_strain_path=denoise, **kw)
        c.true('number of samples', len(ds) == n)
        for i in range(n):
            for k, v in keep[i].items():
                c.eq('noiseless data untouched', smp[i][k], v)
        good = successes(f, n_time - 1, n, len(z.log))
        c.true('one noise path per trial', len(z.log) == good[-1] + 1)
        for i in range(n):
            for t in range(0 if i == 0 else good[i - 1] + 1, good[i] + 1):
                p, var, wt, zz = z.log[t]
                c.true('noise shape', tuple(p.shape) == (n_time, m))
                c.true('noise variability', var == ('homoscedastic' if hetero is None else 'heteroscedastic'))
                if hetero is None:
                    c.true('no weights', wt is None)
                else:
                    x = keep[i]['strain_path']
                    sq = [(tens(x[q], o, 2 if pt == 1 else 3) ** 2).sum() for q in range(n_time)]
                    den = kw['heteroscedastic_normalizer'] ** 2 if hetero == 'given' else None
                    c.true('weights per time', len(wt) == n_time)
                    for q in range(n_time):
                        c.le('weights are not negative', 0.0, wt[q])
                        if hetero == 'given':
                            c.eq('weights: strain norm over the normaliser', wt[q] ** 2 * den, sq[q], tol=1e-6)
                        else:
                            for r in range(n_time):
                                c.eq('weights: proportional to the strain norm', wt[q] ** 2 * sq[r], wt[r] ** 2 * sq[q],
                                     tol=1e-6)
                            c.le('weights: at most one', wt[q], 1.0, tol=1e-9)
                    if hetero != 'given':
                        top = wt[0]
                        for q in range(1, n_time):
                            top = top if bool(top >= wt[q]) else wt[q]
                        c.eq('weights: largest is one', top, 1.0, tol=1e-6)
            zz = tt(z.log[good[i]][3])
            zz = torch.cat((torch.zeros(1, m), zz[1:]))
            x = keep[i]['strain_path'] + (zz * (hi - lo) / 2.0 if scale else zz)
            if denoise:
                x = torch.cat((keep[i]['strain_path'][:1], moving(x)[1:]))
            sig, w = step(law, x, o, fe)
            sample(c, f'sample {i}', ds[i], o, x, keep[i]['time_hist'].reshape(-1), sig, w,
                   ('strain_noise_path', 'stress_noise_path'))
            c.eq('stored strain noise', ds[i]['strain_noise_path'], zz)
            c.eq('stored stress noise', ds[i]['stress_noise_path'], sig - keep[i]['stress_path'], tol=1e-6)
    return body


def moving(x, w=5):
    """centred moving average, constant beyond the ends"""
    n = x.shape[0]
    h = w // 2
    return torch.stack([sum(x[min(max(k, 0), n - 1)] for k in range(i - h, i + h + 1)) / w for i in range(n)])


def vm(pt):
    return p12.VonMises('infinitesimal', pt, p12.params('linear', {'s0': 2.0, 'a': 10.0}))


def el(pt):
    return Elastic('infinitesimal', pt, {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.25})


def cases(tier):
    T = tier == 'thorough'
    out = []
    for kind in MODS:
        for pt in (1, 4):
            out.append(Case(f'{kind} tensors {pt}', tensors(kind, pt), {}))
            out.append(Case(f'{kind} response {pt}', stress(kind, pt, 4 if not T else 5), {}))
        out.append(Case(f'{kind} elastic', stress(kind, 4 if kind == 'plain' else 1, 3, el), {}))
        out.append(Case(f'{kind} von Mises', stress(kind, 1, 3, vm), {'cost': 5}))
        out.append(Case(f'{kind} data set', generate(kind, 1), {'cost': 3}))
        out.append(Case(f'{kind} data set proportional 3D', generate(kind, 4, 'elastic', 'proportional', 1, free=(1,)), {}))
    for m in ('drucker_prager', 'lou_zhang_yoon'):
        out.append(Case(f'data set {m}', generate('plain', 1, m, n_path=1, free=(1,)), {}))
    out.append(Case('data set on disk', generate('plain', 1, memory=False, free=(1,)), {}))
    out.append(Case('refuse', refuse, {}))
    for pt in (1, 4):
        out.append(Case(f'csv {pt}', csv(pt, True), {}))
    out.append(Case('csv on disk', csv(1, False), {}))
    out.append(Case('csv reject', csv_reject, {}))
    for m in NAMES:
        out.append(Case(f'strain data set {m}', strains(1, model=m, n=2 if m == 'von_mises' else 1), {}))
    if T:
        out.append(Case('strain data set 3D', strains(4), {}))
    out.append(Case('noisy', noisy(1, n=2, free=(0, 2)), {}))
    out.append(Case('noisy 3D', noisy(4), {}))
    out.append(Case('noisy scaled', noisy(1, scale=True), {'cost': 3}))
    out.append(Case('noisy weighted', noisy(1, n=2, hetero='own', free=()), {'cost': 3}))
    out.append(Case('noisy weighted given', noisy(1, n=1, hetero='given', free=()), {'cost': 3}))
    out.append(Case('noisy denoised', noisy(1, denoise=True, n_time=6 if T else 5, free=()), {}))
    out.append(Case('noisy scaled denoised', noisy(1, denoise=True, scale=True, n_time=5, free=()), {'cost': 3}))
    return out
