"""Data scalers: transforms, fits and their wiring to models"""
import os
import pickle
import contextlib
import torch
from unittest import mock
from .common import *
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
from utilities import fit_data_scalers as fds
from model_architectures.procedures import model_data_scaling as mds
from time_series_data.time_dataset import TimeSeriesDatasetInMemory

OUTSIDE = ('two or three features, tensors of up to 2x2 samples; min-max features of width >= 0.01; the incremental '
           'statistics of scikit-learn are replaced by the exact statistics of the rows it is given (replays use scikit-learn)')
W = 0.01


def minmax(dims, n):
    def body(c):
        lo = c.real('lo', (n,), -10, 10)
        w = c.real('w', (n,), W, 10)
        hi = lo + w
        a = c.real('a', (), -3, 3)
        b = a + c.real('b', (), W, 5)
        x = c.real('x', dims + (n,), -20, 20)
        keep = x.clone()
        for kw, p, q in (({}, -1.0, 1.0), ({'norm_minimum': a, 'norm_maximum': b}, a, b)):
            s = TorchMinMaxScaler(n, minimum=lo, maximum=hi, **kw)
            y = s.transform(x)
            c.true('shape', tuple(y.shape) == dims + (n,))
            c.eq('affine', y, p + (q - p) * (x - lo) / w)
            c.eq('back', s.inverse_transform(y), x)
            z = s.inverse_transform(x)
            c.eq('there', s.transform(z), x)
            c.eq('checked transform is the same', s.transform(x, is_check_data=True), y)
            c.eq('checked inverse is the same', s.inverse_transform(x, is_check_data=True), z)
            ends = torch.stack((lo, hi))
            c.eq('bounds', s.transform(ends), torch.stack((torch.ones(n) * p, torch.ones(n) * q)))
        c.eq('input untouched', x, keep)
        g = s.get_minimum_and_maximum()
        c.eq('minimum', g[0], lo)
        c.eq('maximum', g[1], hi)
    return body


def standard(dims, n):
    def body(c):
        m = c.real('m', (n,), -10, 10)
        d = c.real('d', (n,), 0, 10)
        x = c.real('x', dims + (n,), -20, 20)
        keep = x.clone()
        s = TorchStandardScaler(n, mean=m, std=d)
        y = s.transform(x)
        c.true('shape', tuple(y.shape) == dims + (n,))
        null = [bool(d[j] == 0) for j in range(n)]
        ref = torch.stack([(x[..., j] - m[j]) if null[j] else (x[..., j] - m[j]) / d[j] for j in range(n)], dim=-1)
        c.eq('standardised', y, ref)
        z = s.inverse_transform(x)
        c.eq('inverse', z, x * d + m)
        for j in range(n):
            if not null[j]:
                c.eq('back', s.inverse_transform(y)[..., j], x[..., j])
                c.eq('there', s.transform(z)[..., j], x[..., j])
        c.eq('checked transform is the same', s.transform(x, is_check_data=True), y)
        c.eq('input untouched', x, keep)
        g = s.get_mean_and_std()
        c.eq('mean', g[0], m)
        c.eq('std', g[1], d)
    return body


def fits(dims, n):
    def body(c):
        x = c.real('x', dims + (n,), -5, 5)
        rows = x.reshape(-1, n)
        k = rows.shape[0]
        s = TorchMinMaxScaler(n)
        s.fit(x)
        lo, hi = s.get_minimum_and_maximum()
        for j in range(n):
            for i in range(k):
                c.le('minimum below', lo[j], rows[i, j])
                c.le('maximum above', rows[i, j], hi[j])
            prod = torch.ones(())
            prud = torch.ones(())
            for i in range(k):
                prod = prod * (rows[i, j] - lo[j])
                prud = prud * (hi[j] - rows[i, j])
            c.eq('minimum attained', prod, torch.zeros(()))
            c.eq('maximum attained', prud, torch.zeros(()))
        t = TorchStandardScaler(n)
        for bessel in (False, True):
            t.fit(x, is_bessel=bessel)
            m, d = t.get_mean_and_std()
            mean = sum((rows[i] for i in range(1, k)), rows[0]) / k
            var = sum(((rows[i] - mean) ** 2 for i in range(1, k)), (rows[0] - mean) ** 2) / (k - int(bessel))
            c.eq('mean', m, mean)
            c.eq('variance', d * d, var, tol=1e-6)
            c.le('positive', torch.zeros(n), d)
    return body


class Rows:
    """what scikit-learn promises: statistics of all the rows seen since the last fit"""

    def __init__(self):
        self.rows = []

    def fit(self, x):
        self.rows = []
        return self.partial_fit(x)

    def partial_fit(self, x):
        self.rows += [x[i] for i in range(x.shape[0])]
        return self

    @property
    def mean_(self):
        return sum(self.rows[1:], self.rows[0]) / len(self.rows)

    @property
    def var_(self):
        m = self.mean_
        return sum(((r - m) ** 2 for r in self.rows[1:]), (self.rows[0] - m) ** 2) / len(self.rows)

    @property
    def data_min_(self):
        return torch.stack(self.rows).min(dim=0)[0]

    @property
    def data_max_(self):
        return torch.stack(self.rows).max(dim=0)[0]


def learn(c):
    if not c.symbolic:
        return contextlib.nullcontext()
    st = contextlib.ExitStack()
    for k in ('StandardScaler', 'MinMaxScaler'):
        st.enter_context(mock.patch.object(fds.sklearn.preprocessing, k, Rows))
    return st


class Model(torch.nn.Module):
    def __init__(self, i, o):
        super().__init__()
        self._n_features_in, self._n_features_out = i, o
        self._device_type, self._device = 'cpu', torch.device('cpu')
        self._is_save_model_init_file = True
        self._data_scalers = None
        self.model_directory = os.environ['SYM_SCRATCH']
        self.saved = 0

    def save_model_init_file(self):
        self.saved += 1


def fitted(kind):
    """scalers fitted from a data set describe all of its samples"""
    def body(c):
        lens = (2, 1)
        ds, rows = [], {'features_in': [], 'features_out': []}
        for i, l in enumerate(lens):
            smp = {}
            for f, n in (('features_in', 2), ('features_out', 1)):
                v = c.real(f'{f}{i}', (l, n), -5, 5)
                smp[f] = v
                rows[f] += [v[k] for k in range(l)]
            smp['comps'] = ('11', '22')
            ds.append(smp)
        ds = TimeSeriesDatasetInMemory(ds)
        m = Model(2, 1)
        if kind == 'min-max':
            for f in rows:
                for j in range(rows[f][0].shape[0]):
                    c.assume(rows[f][1][j] - rows[f][0][j] >= W)
        with learn(c):
            mds.fit_data_scalers(m, ds, scaling_type=kind)
        c.true('model file rewritten', m.saved >= 1)
        for f in rows:
            x = torch.stack(rows[f])
            n = x.shape[1]
            y = mds.data_scaler_transform(m, x, f)
            mean = x.sum(dim=0) / 3.0
            var = ((x - mean) ** 2).sum(dim=0) / 3.0
            if kind == 'mean-std':
                s = mds.get_fitted_data_scaler(m, f)
                a, b = s.get_mean_and_std()
                c.eq(f'{f} mean', a, mean, tol=1e-6)
                c.eq(f'{f} variance', b * b, var, tol=1e-6)
                c.le('positive', torch.zeros(n), b)
            else:
                s = mds.get_fitted_data_scaler(m, f)
                lo, hi = s.get_minimum_and_maximum()
                for j in range(n):
                    p = q = torch.ones(())
                    for i in range(3):
                        c.le(f'{f} lower', lo[j], x[i, j], tol=1e-6)
                        c.le(f'{f} upper', x[i, j], hi[j], tol=1e-6)
                        p, q = p * (x[i, j] - lo[j]), q * (hi[j] - x[i, j])
                    c.eq(f'{f} least', p, torch.zeros(()), tol=1e-6)
                    c.eq(f'{f} largest', q, torch.zeros(()), tol=1e-6)
                c.le('in range', y, torch.ones_like(y), tol=1e-6)
                c.le('in range', -y, torch.ones_like(y), tol=1e-6)
                c.eq('back', mds.data_scaler_transform(m, y, f, mode='denormalize'), x, tol=1e-6)
    return body


def given(kind):
    """scalers set from given parameters"""
    def body(c):
        m = Model(2, 1)
        par, ref = {}, {}
        for f, n in (('features_in', 2), ('features_out', 1)):
            p, q = c.real(f'p{f}', (n,), -5, 5), c.real(f'q{f}', (n,), W, 5)
            if kind == 'min-max':
                par[f] = {'minimum': p, 'maximum': p + q, 'norm_minimum': -2.0, 'norm_maximum': 3.0}
                ref[f] = lambda x, p=p, q=q: -2.0 + 5.0 * (x - p) / q
            else:
                par[f] = {'mean': p, 'std': q}
                ref[f] = lambda x, p=p, q=q: (x - p) / q
        mds.set_fitted_data_scalers(m, kind, par)
        c.true('model file rewritten', m.saved >= 1)
        for f, n in (('features_in', 2), ('features_out', 1)):
            for d in ((2,), (2, 2)):
                x = c.real(f'x{f}{len(d)}', d + (n,), -5, 5)
                y = mds.data_scaler_transform(m, x, f, mode='normalize')
                c.eq('normalised', y, ref[f](x))
                c.eq('back', mds.data_scaler_transform(m, y, f, mode='denormalize'), x)
        # another model takes them over
        o = Model(2, 1)
        mds.set_data_scalers(o, mds.get_fitted_data_scaler(m, 'features_in'), mds.get_fitted_data_scaler(m, 'features_out'))
        c.true('model file rewritten', o.saved >= 1)
        x = c.real('z', (1, 2), -5, 5)
        c.eq('same scaler', mds.data_scaler_transform(o, x, 'features_in'), ref['features_in'](x))
        c.raises('mode', RuntimeError, mds.data_scaler_transform, m, x, 'features_in', mode='other')
        c.raises('features', RuntimeError, mds.data_scaler_transform, m, x, 'other')
        c.raises('list', RuntimeError, mds.data_scaler_transform, m, [1.0, 2.0], 'features_in')
        c.raises('kind', RuntimeError, mds.set_fitted_data_scalers, Model(2, 1), 'other', par)
        n = Model(2, 1)
        c.raises('not set', RuntimeError, mds.data_scaler_transform, n, x, 'features_in')
        mds.init_data_scalers(n)
        c.raises('not fitted', RuntimeError, mds.data_scaler_transform, n, x, 'features_in')
        n._data_scalers['features_out'] = mds.get_fitted_data_scaler(m, 'features_out')
        c.raises('not fitted', RuntimeError, mds.data_scaler_transform, n, x, 'features_in')
    return body


def wrong(c):
    x = c.real('x', (2, 2), -5, 5)
    for cls in (TorchMinMaxScaler, TorchStandardScaler):
        for n in (0, -1, 2.0):
            c.raises('feature count', RuntimeError, cls, n)
        s = cls(3)
        for f in (s.fit, s.transform, s.inverse_transform):
            for bad in (x, x[0], [1.0, 2.0, 3.0], torch.ones(1, 1, 1, 3)):
                c.raises('inconsistent tensor', RuntimeError, f, bad)
    a = TorchMinMaxScaler(2)
    for f in (a.set_minimum, a.set_maximum):
        for bad in ([0.0, 1.0], torch.zeros(3)):
            c.raises('bad bound', RuntimeError, f, bad)
    b = TorchStandardScaler(2)
    for f in (b.set_mean, b.set_std):
        for bad in ([0.0, 1.0], torch.zeros(3)):
            c.raises('bad moment', RuntimeError, f, bad)
    # NaNs are caught on request
    lo = c.real('lo', (2,), -1, 1)
    s = TorchMinMaxScaler(2, minimum=lo, maximum=lo)
    same = torch.stack((lo, lo))
    c.raises('NaN detected', RuntimeError, s.transform, same, is_check_data=True)


def stored(c):
    """reading the scalers of a saved model"""
    m = Model(2, 1)
    d = os.path.join(os.environ['SYM_SCRATCH'], 'scal')
    os.makedirs(d, exist_ok=True)
    m.model_directory = d
    f = os.path.join(d, 'model_init_file.pkl')
    if os.path.exists(f):
        os.remove(f)
    c.raises('no file', RuntimeError, mds.load_model_data_scalers_from_file, m)
    s = {'features_in': TorchMinMaxScaler(2, minimum=torch.tensor([0.0, 1.0]), maximum=torch.tensor([2.0, 5.0])),
         'features_out': TorchStandardScaler(1, mean=torch.tensor([0.5]), std=torch.tensor([2.0]))}
    with open(f, 'wb') as h:
        pickle.dump({'model_data_scalers': s}, h)
    mds.load_model_data_scalers_from_file(m)
    x = c.real('x', (2, 2), -5, 5)
    c.eq('input scaler', mds.data_scaler_transform(m, x, 'features_in'),
         torch.stack((x[:, 0] - 1.0, (x[:, 1] - 3.0) / 2.0), dim=1))
    y = c.real('y', (2, 1), -5, 5)
    c.eq('output scaler', mds.data_scaler_transform(m, y, 'features_out'), (y - 0.5) / 2.0)
    m.model_directory = os.path.join(d, 'missing')
    c.raises('no directory', RuntimeError, mds.load_model_data_scalers_from_file, m)


def cases(tier):
    out = [Case('rejections', wrong), Case('stored scalers', stored)]
    for dims in ((1,), (2,), (2, 1), (1, 2), (2, 2)):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            t = f'{"x".join(map(str, dims))} samples, {n} features'
            out.append(Case('min-max ' + t, minmax(dims, n)))
            out.append(Case('standard ' + t, standard(dims, n)))
            if dims != (1,) and (tier != 'quick' or len(dims) < 2 or n < 2):
                out.append(Case('fit ' + t, fits(dims, n)))
    for kind in ('min-max', 'mean-std'):
        out.append(Case('fitted ' + kind, fitted(kind)))
        out.append(Case('given ' + kind, given(kind)))
    return out
