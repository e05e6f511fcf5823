"""Losses, predictions, prediction metrics and denoisers"""
import os
import math
import pickle
import random
import shutil
import contextlib
import numpy as np
import torch
from unittest import mock
from .common import *
from . import p27
from .p22 import disk
from model_architectures.procedures import model_state_files as msf
from model_architectures.rnn_base_model.predict import prediction as rnnp
from model_architectures.hybrid_base_model.predict import prediction as hybp
from model_architectures.rc_base_model.predict import prediction as rcp
from model_architectures.procedures import model_data_scaling as mds, model_prediction as mp
from model_architectures.materials import process_predictions as pp
from time_series_data.time_dataset import TimeSeriesDatasetInMemory, save_dataset
from time_series_data import time_dataset as tds
from utilities import loss_functions as lf, prediction_metrics as pm, output_prediction_metrics as om, data_denoisers as dn
from utilities.data_scalers import TorchStandardScaler, TorchMinMaxScaler

OUTSIDE = ('sequences of two times (denoisers: up to six), up to three samples in batches of one or two, one or two features; the '
           'predicting model is an affine map with free coefficients; discrete Fourier transforms of length 2, 3, 4 and 6 are modelled '
           'by their definition; text output of the metrics is not covered')
MODS = {'rnn': rnnp, 'hybrid': hybp, 'rc': rcp}


@contextlib.contextmanager
def scratch(name='predict'):
    d = os.path.join(os.environ['SYM_SCRATCH'], name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def nosummary(c, mod):
    """the text summary of a prediction is left out"""
    if c.symbolic and hasattr(mod, 'write_prediction_summary_file'):
        with mock.patch.object(mod, 'write_prediction_summary_file', lambda *a, **k: None):
            yield
    else:
        yield


# -- losses ---------------------------------------------------------------------
def loss(kind):
    def body(c):
        n = 1 if kind == 'default' else 2
        x, y = c.real('x', (n, 1), -5, 5), c.real('y', (n, 1), -5, 5)
        x0, y0 = x.clone(), y.clone()
        s = 1e-5 if kind == 'default' else 0.25
        if kind == 'mse':
            f = lf.get_pytorch_loss('mse')
            ref = ((x - y) ** 2).sum() / n
        else:
            f = lf.get_pytorch_loss('mre', zero_handling=kind, small=s) if kind != 'default' else lf.get_pytorch_loss('mre')
            if kind in ('absolute', 'default'):
                for i in range(n):
                    c.assume_ne0(y.reshape(-1)[i])
                ref = torch.where(y.abs() < s, (x - y).abs(), (x - y).abs() / y.abs()).sum() / n
            elif kind == 'clip':
                ref = ((x - y).abs() / torch.where(y.abs() < s, torch.full_like(y, s), y.abs())).sum() / n
            else:
                ref = ((x - y).abs() / (y.abs() + s)).sum() / n
        v = f(x, y)
        c.true('scalar', tuple(v.shape) == ())
        c.eq('value', v, ref)
        c.le('not negative', torch.zeros(()), v)
        c.eq('zero at the target', f(y, y), torch.zeros(()))
        c.eq('prediction unchanged', x, x0)
        c.eq('target unchanged', y, y0)
        if kind == 'absolute':
            z = torch.zeros((2, 1), dtype=torch.float64)
            c.eq('vanishing target', f(x, z), x.abs().sum() / n)
        c.raises('unknown loss', RuntimeError, lf.get_pytorch_loss, 'mae?')
        c.raises('unknown zero handling', RuntimeError, lf.get_pytorch_loss, 'mre', zero_handling='none')
    return body


# -- predictions ----------------------------------------------------------------
class Model(torch.nn.Module):
    """free affine map (coupling the features) and the members the prediction needs"""

    def __init__(self, c, arch, n, inn, out, d, lo=-2):
        super().__init__()
        self.w, self.b = c.real('w', (n, n), lo, 2), c.real('b', (n,), lo, 2)
        self.arch, self.model_directory, self.model_name = arch, d, 'model'
        self.is_model_in_normalized, self.is_model_out_normalized = inn, out
        self._data_scalers, self._is_save_model_init_file, self.shapes = None, False, []

    def set_device(self, d):
        pass

    def get_device(self):
        return torch.device('cpu'), 'cpu'

    def f(self, x):
        return torch.stack([sum(self.w[i, j] * x[..., j] for j in range(x.shape[-1])) + self.b[i]
                            for i in range(x.shape[-1])], -1)

    def forward(self, x, h=None):
        self.shapes.append(tuple(x.shape))
        y = self.f(x)
        return (y, h) if self.arch == 'rnn' else y


def predictions(arch, inn, out, normloss, losst, batch, store, scaler, n=3):
    mod = MODS[arch]

    def body(c):
        nf = 1 if losst == 'mre' else 2
        lo, hi = (0.5, -0.5) if losst == 'mre' else (-3, 3)
        smp = [{'features_in': c.real(f'x{i}', (2, nf), lo, 3), 'features_out': c.real(f'y{i}', (2, nf), -3, hi)}
               for i in range(n)]
        keep = [{k: v.clone() for k, v in s.items()} for s in smp]
        p, q = c.real('p', (2, nf), -2, 2), c.real('q', (2, nf), 0.1, 2)
        if scaler == 'min-max':
            sc = [TorchMinMaxScaler(nf, minimum=p[i], maximum=p[i] + q[i]) for i in range(2)]
            nor = lambda z, i: 2.0 * (z - p[i]) / q[i] - 1.0
            den = lambda z, i: p[i] + 0.5 * (z + 1.0) * q[i]
        else:
            sc = [TorchStandardScaler(nf, mean=p[i], std=q[i]) for i in range(2)]
            nor = lambda z, i: (z - p[i]) / q[i]
            den = lambda z, i: p[i] + z * q[i]
        with scratch() as d, sym_numpy(c, mod), nosummary(c, mod):
            m = Model(c, arch, nf, inn, out, d, 0.1 if losst == 'mre' else -2)
            if inn or out or normloss:
                mds.set_data_scalers(m, sc[0], sc[1])
            kw = {'loss_kwargs': {'zero_handling': 'regularizer', 'small': 0.5}} if losst == 'mre' else {}
            sub, avg = mod.predict(TimeSeriesDatasetInMemory(smp), d, model=m, predict_directory=d if store else None,
                                   loss_type=losst, is_normalized_loss=normloss, batch_size=batch, **kw)
            losses = []
            for i in range(n):
                y = m.f(nor(smp[i]['features_in'], 0) if inn else smp[i]['features_in'])
                y = den(y, 1) if out else y
                t = smp[i]['features_out']
                a, b = (nor(y, 1), nor(t, 1)) if normloss else (y, t)
                if losst == 'mse':
                    losses.append(((a - b) ** 2).sum() / (2 * nf))
                else:
                    losses.append(((a - b).abs() / (b.abs() + 0.5)).sum() / (2 * nf))
                if store:
                    r = mp.load_sample_predictions(os.path.join(sub, f'prediction_sample_{i}.pkl'))
                    c.true('sample shapes', tuple(r['features_out'].shape) == tuple(r['targets'].shape) == (2, nf))
                    c.eq('predicted features', r['features_out'], y)
                    c.eq('targets', r['targets'], t)
                    nature, typ, val, isn = r['prediction_loss_data']
                    c.true('loss description', nature == 'features_out' and typ == losst and isn == normloss)
                    c.eq('sample loss', val, losses[-1])
            c.eq('average loss', avg, sum(losses) / n)
            if store:
                files = sorted(f for f in os.listdir(sub) if f.endswith('.pkl'))
                c.true('one file per sample', files == [f'prediction_sample_{i}.pkl' for i in range(n)])
                c.true('results directory', os.path.dirname(sub) == os.path.normpath(d))
                sub2, _ = mod.predict(TimeSeriesDatasetInMemory(smp[:1]), d, model=m, predict_directory=d)
                c.true('earlier predictions are kept', sub2 != sub and os.path.isdir(sub) and
                       sorted(f for f in os.listdir(sub) if f.endswith('.pkl')) == files)
                r = mp.load_sample_predictions(os.path.join(sub, 'prediction_sample_0.pkl'))
                y = m.f(nor(smp[0]['features_in'], 0) if inn else smp[0]['features_in'])
                c.eq('earlier prediction content', r['features_out'], den(y, 1) if out else y)
            else:
                c.true('nothing stored', sub is None)
            sizes = [min(batch, n - k) for k in range(0, n, batch)]
            c.true('batched as requested', m.shapes[:len(sizes)] == [(2, k, nf) for k in sizes])
            for s, k in zip(smp, keep):
                for key in k:
                    c.eq('data set unchanged', s[key], k[key])
            c.raises('unknown loss nature', RuntimeError, mod.predict, TimeSeriesDatasetInMemory(smp), d, model=m,
                     loss_nature='other')
            c.raises('model directory', RuntimeError, mod.predict, TimeSeriesDatasetInMemory(smp), d + '_none', model=m)
            c.raises('prediction directory', RuntimeError, mod.predict, TimeSeriesDatasetInMemory(smp), d, model=m,
                     predict_directory=d + '_none')
    return body


def stored(arch):
    """predictions of a stored model state, which leave the model directory as it was"""
    mod = MODS[arch]

    def body(c):
        rec = p27.Rec(c, 3)
        x = c.real('x', (2, 1), -3, 3)
        ds = TimeSeriesDatasetInMemory([{'features_in': x, 'features_out': x}])
        with disk(c) as d, scratch() as pd, sym_numpy(c, mod), nosummary(c, mod):
            m = p27.Model(rec, arch, d)
            v = {}
            for k, a in (('default', ()), ('init', ('init',)), (0, ('epoch', 0)), (3, ('epoch', 3)), (5, ('epoch', 5)), ('best', ('best', 3, False))):
                v[k] = c.real(f'v.{k}', (1,), -3, 3)
                m.p.data.copy_(v[k])
                msf.save_model_state(m, *a)
            v[None], v['last'] = v['default'], v[5]
            before = sorted(os.listdir(d))

            class Factory:
                @staticmethod
                def init_model_from_file(*a, **k):
                    c.true('model directory', (list(a) + list(k.values())) == [d])
                    return p27.Model(rec, arch, d)
            with mock.patch.object(mod, {'rnn': 'GRURNNModel', 'hybrid': 'HybridModel', 'rc': 'RecurrentConstitutiveModel'}[arch], Factory):
                for k in (None, 'init', 0, 3, 'best', 'last', 5):
                    sub, avg = mod.predict(ds, d, predict_directory=pd, model_load_state=k)
                    r = mp.load_sample_predictions(os.path.join(sub, 'prediction_sample_0.pkl'))
                    c.eq('prediction of the requested state', r['features_out'], x + v[k])
                    c.eq('average loss', torch.as_tensor(avg).reshape(()), (v[k] ** 2).sum())
                    c.true('model directory unchanged', sorted(os.listdir(d)) == before)
                c.raises('state missing', RuntimeError, mod.predict, ds, d, predict_directory=pd, model_load_state=9)
            c.true('evaluation mode', not any(e[1] for e in rec.of('forward')))
            c.true('each prediction has its directory', len(os.listdir(pd)) == 7)
    return body


def sample_loss(arch):
    mod = MODS[arch]

    def body(c):
        x = c.real('x', (2, 1), -3, 3)
        c.true('no ground truth', mod.compute_sample_prediction_loss(None, lf.get_pytorch_loss('mse'), x, None) is None)
        p, q = c.real('p', (2, 1), -2, 2), c.real('q', (2, 1), 0.1, 2)
        y = c.real('y', (2, 1), -3, 3)
        x0, y0 = x.clone(), y.clone()
        with scratch() as d:
            m = Model(c, arch, 1, False, False, d)
            mds.set_data_scalers(m, TorchStandardScaler(1, mean=p[0], std=q[0]), TorchStandardScaler(1, mean=p[1], std=q[1]))
            f = mod.compute_sample_prediction_loss
            c.eq('physical', f(m, lf.get_pytorch_loss('mse'), x, y), ((x - y) ** 2).sum() / 2.0)
            c.eq('normalised', f(m, lf.get_pytorch_loss('mse'), x, y, is_normalized_loss=True),
                 (((x - y) / q[1]) ** 2).sum() / 2.0)
            c.eq('prediction unchanged', x, x0)
            c.eq('target unchanged', y, y0)
    return body


# -- metrics --------------------------------------------------------------------
def metrics(c):
    n, nf = 2, 2
    pred = [c.real(f'x{i}', (2, nf), -3 if i else 0.1, 3) for i in range(n)]
    targ = [c.real(f'y{i}', (2, nf), 0.1, 3) * (1.0 if i else -1.0) for i in range(n)]
    with scratch() as d:
        for i in range(n):
            mp.save_sample_predictions(d, i, {'features_out': pred[i], 'targets': targ[i]})
        open(os.path.join(d, 'summary.dat'), 'w').close()
        sq = []
        for i in range(n):
            r = pm.compute_prediction_metrics(os.path.join(d, f'prediction_sample_{i}.pkl'), ['mse', 'rmse', 'mav', 'mav_gt'])
            mse = ((pred[i] - targ[i]) ** 2).sum(0) / 2.0
            c.true('requested metrics', list(r) == ['mse', 'rmse', 'mav', 'mav_gt'])
            c.eq('mean squared error', r['mse'], mse)
            c.eq('root mean squared error', r['rmse'] ** 2, mse)
            c.le('root is not negative', torch.zeros(2), r['rmse'])
            c.eq('mean absolute prediction', r['mav'], pred[i].abs().sum(0) / 2.0)
            c.eq('mean absolute target', r['mav_gt'], targ[i].abs().sum(0) / 2.0)
            sq.append((r['rmse'], r['mav_gt']))
        k, m = om.compute_directory_prediction_metrics(d, ['rmse', 'nrmse'])
        c.true('number of samples', k == n)
        c.eq('mean error', m['rmse'], sum(r for r, _ in sq) / n)
        c.eq('mean normalised error', m['nrmse'], sum(r / a for r, a in sq) / n)
        paths, ids = om.get_samples_prediction_files(d)
        c.true('prediction files', sorted(ids) == [0, 1] and sorted(os.path.basename(p) for p in paths) ==
               ['prediction_sample_0.pkl', 'prediction_sample_1.pkl'])
        c.true('no samples', om.compute_mean_prediction_metrics([], ['rmse'])['rmse'].numel() == 0)
        res = om.compute_processes_prediction_metrics({'a': d}, ['rmse'])
        c.true('processes', res['a']['n_sample'] == n)
        c.eq('process metrics', res['a']['mean_metrics_results']['rmse'], m['rmse'])
        f0 = os.path.join(d, 'prediction_sample_0.pkl')
        c.raises('unknown metric', RuntimeError, pm.compute_prediction_metrics, f0, ['none'])
        c.raises('unknown mean metric', RuntimeError, om.compute_mean_prediction_metrics, [f0], ['mse?'])
        c.raises('file missing', RuntimeError, pm.compute_prediction_metrics, f0 + '_', ['mse'])
        for bad in ({'features_out': pred[0], 'targets': None}, {'features_out': pred[0]}, {'targets': targ[0]},
                    {'features_out': [1.0], 'targets': targ[0]}, [1]):
            mp.save_sample_predictions(d, 9, bad)
            c.raises('incomplete results', RuntimeError, pm.compute_prediction_metrics,
                     os.path.join(d, 'prediction_sample_9.pkl'), ['mse'])


def arrays(kind):
    def body(c):
        pred = [c.real(f'x{i}', (2, 3), -3, 3) for i in (0, 1, 2)]
        targ = [c.real(f'y{i}', (2, 3), -3, 3) for i in (0, 1, 2)]
        time = [c.real(f't{i}', (2, 1), 0, 3) for i in (0, 1, 2)]
        with scratch() as d, sym_numpy(c, pp):
            ds = os.path.join(d, 'base', '5_testing')
            pr = os.path.join(d, 'base', 'predictions')
            os.makedirs(ds)
            os.makedirs(pr)

            def put(where, off):
                for i in (2, 0, 1):
                    mp.save_sample_predictions(where, i, {'features_out': pred[i] + off, 'targets': targ[i],
                                                          'stress_comps_order': ('11', '22')})
            put(pr, 0.0)
            open(os.path.join(pr, 'summary.dat'), 'w').close()
            labels = ('a',) if kind == 'acc_p_strain' else ('a', 'b')
            cols = [2] if kind == 'acc_p_strain' else [0, 1]

            def numpyish(a):
                return a
            for ids in ([1], [2, 0]):
                got = pp.build_prediction_data_arrays(pr, kind, labels, samples_ids=list(ids))
                c.true('one array per component', len(got) == len(cols))
                for g, k in zip(got, cols):
                    want = torch.cat([torch.stack([targ[i][:, k], pred[i][:, k]], 1) for i in ids])
                    c.eq('targets and predictions', torch.as_tensor(g), want)
            got = pp.build_prediction_data_arrays(pr, kind, labels)
            c.true('all samples', all(tuple(g.shape) == (6, 2) for g in got))
            for g, k in zip(got, cols):
                want = sum((i + 1.0) * 0.0 + targ[i][:, k].sum() for i in range(3))
                c.eq('all targets', torch.as_tensor(g)[:, 0].sum(), want)
                c.eq('all predictions', torch.as_tensor(g)[:, 1].sum(), sum(pred[i][:, k].sum() for i in range(3)))
            c.raises('sample missing', RuntimeError, pp.build_prediction_data_arrays, pr, kind, labels, [7])
            c.raises('invalid samples', RuntimeError, pp.build_prediction_data_arrays, pr, kind, labels, (1,))
            c.raises('unknown type', RuntimeError, pp.build_prediction_data_arrays, pr, 'none', labels)
            c.raises('directory missing', RuntimeError, pp.build_prediction_data_arrays, pr + '_', kind, labels)
            # histories against time
            data = TimeSeriesDatasetInMemory([{'time_hist': t} for t in time])
            with mock.patch.object(pp, 'load_dataset', lambda f: data):
                f = os.path.join(ds, 'dataset.pkl')
                got = pp.build_time_series_predictions_data(f, pr, kind, labels, samples_ids=[2, 0])
                for g, k in zip(got, cols):
                    c.true('requested samples', set(g) == {'2', '0'})
                    for i in (2, 0):
                        c.eq('time, target, prediction', torch.as_tensor(g[str(i)]),
                             torch.stack([time[i][:, 0], targ[i][:, k], pred[i][:, k]], 1))
                uq = os.path.join(d, 'base', 'uncertainty_quantification')
                for m, off in ((0, 1.0), (10, 3.0), (2, 2.0)):
                    w = os.path.join(uq, f'model_{m}', '7_prediction', 'in_distribution')
                    os.makedirs(w)
                    put(w, off)
                got = pp.build_time_series_predictions_data(f, os.path.join(uq, 'model_0', '7_prediction', 'in_distribution', 'x'), kind,
                                                            labels, is_uncertainty_quantification=True)
                for g, k in zip(got, cols):
                    c.true('all samples', set(g) == {'0', '1', '2'})
                    for i in range(3):
                        c.eq('time, target, predictions of each model', torch.as_tensor(g[str(i)]),
                             torch.stack([time[i][:, 0], targ[i][:, k]] + [pred[i][:, k] + o for o in (1.0, 2.0, 3.0)], 1))
                c.raises('sample out of range', RuntimeError, pp.build_time_series_predictions_data, f, pr, kind, labels, [3])
                c.raises('unknown type', RuntimeError, pp.build_time_series_predictions_data, f, pr, 'none', labels)
    return body


# -- denoisers ------------------------------------------------------------------
class Cx:
    """complex tensor as a pair, enough for spectral filters"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    shape = property(lambda s: s.re.shape)

    def __mul__(self, o):
        if isinstance(o, Cx):
            return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        return Cx(self.re * o, self.im * o)
    __rmul__ = __mul__

    def __add__(self, o):
        return Cx(self.re + o.re, self.im + o.im) if isinstance(o, Cx) else Cx(self.re + o, self.im)
    __radd__ = __add__

    def clone(self):
        return Cx(self.re.clone(), self.im.clone())

    def abs(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def __getitem__(self, i):
        return Cx(self.re[i], self.im[i])

    def __setitem__(self, i, v):
        self.re[i] = v.re if isinstance(v, Cx) else v
        self.im[i] = v.im if isinstance(v, Cx) else 0.0

    def masked_fill(self, m, v):
        return Cx(self.re.masked_fill(m, v), self.im.masked_fill(m, 0.0))

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = getattr(func, '__name__', '')
        a = args
        if n in ('mul', 'multiply', '__mul__', '__rmul__'):
            return a[0] * a[1] if isinstance(a[0], Cx) else a[1] * a[0]
        if n == 'where':
            p, q = [(z.re, z.im) if isinstance(z, Cx) else (z, torch.zeros(())) for z in a[1:3]]
            return Cx(torch.where(a[0], p[0], torch.as_tensor(q[0])), torch.where(a[0], p[1], torch.as_tensor(q[1])))
        if n == 'zeros_like':
            return Cx(torch.zeros_like(a[0].re), torch.zeros_like(a[0].im))
        if n == 'real':
            return a[0].re
        if n == 'clone':
            return a[0].clone()
        return NotImplemented


COS = {k: v for k, v in zip(range(12), [1, 3 ** .5 / 2, .5, 0, -.5, -3 ** .5 / 2, -1, -3 ** .5 / 2, -.5, 0, .5, 3 ** .5 / 2])}


def cs(num, den):
    """cos and sin of 2 pi num/den for den in 1, 2, 3, 4, 6, 12"""
    k = (num * (12 // den)) % 12
    return float(COS[k]), float(COS[(k - 3) % 12])


def dft(t, sign):
    n = t.shape[0]
    re, im = (t.re, t.im) if isinstance(t, Cx) else (t, torch.zeros_like(t))
    R, I = [], []
    for k in range(n):
        r = i = 0.0
        for j in range(n):
            co, si = cs(k * j, n)
            si = si * sign
            r = r + re[j] * co - im[j] * si
            i = i + re[j] * si + im[j] * co
        R.append(r)
        I.append(i)
    z = Cx(torch.stack(R), torch.stack(I))
    return z if sign < 0 else z * (1.0 / n)


@contextlib.contextmanager
def spectral(c):
    if not c.symbolic:
        yield
        return

    def f(sign):
        def g(t, n=None, dim=-1, norm=None):
            assert n is None and dim in (0, -2) and norm is None, 'transform not modelled'
            return dft(t, sign)
        return g
    with mock.patch.object(torch.fft, 'fft', f(-1)), mock.patch.object(torch.fft, 'ifft', f(1)):
        yield


def denoiser(method, n, window=None, order=None, dtype=torch.float64, cycles=1):
    def body(c):
        x = c.real('x', (n, 2), -3, 3, dtype=dtype)
        x0 = x.clone()
        D = dn.Denoiser()
        tol = 1e-9 if dtype == torch.float64 else 1e-4
        if method == 'frequency_low_pass':
            f = c.real('cut', (), 0.0, 0.6)
            if c.symbolic:
                f = f.item()
            cut = f if c.symbolic else float(f)
            for k in range(n):
                c.assume(abs(torch.as_tensor(f) - min(k, n - k) / n) >= 1e-3)
            with spectral(c):
                y = D.denoise(x, method, {'cutoff_frequency': cut}, n_denoise_cycle=cycles)
            ref = torch.zeros((n, 2), dtype=torch.float64)
            rows = [torch.zeros(2, dtype=torch.float64) for _ in range(n)]
            for k in range(n):
                if not bool(min(k, n - k) / n <= cut):
                    continue
                for t in range(n):
                    for j in range(n):
                        rows[t] = rows[t] + x[j] * cs(k * (t - j), n)[0] / n
            ref = torch.stack(rows)
        else:
            par = {'window_size': window}
            if order is not None:
                par['poly_order'] = order
            y = D.denoise(x, method, par, n_denoise_cycle=cycles)
            ref = x
            left = window // 2
            if order is None:
                w = np.full(window, 1.0 / window)
            else:
                # least squares polynomial through the window, evaluated in its middle
                s = np.arange(window) - (window - 1) / 2.0
                V = np.vander(s, order + 1, increasing=True)
                w = np.linalg.pinv(V)[0]
            for _ in range(cycles):
                ref = torch.stack([sum(ref[min(max(t - left + j, 0), n - 1)] * float(w[j]) for j in range(window))
                                   for t in range(n)])
        c.true('shape', tuple(y.shape) == (n, 2))
        c.true('precision', y.dtype == dtype)
        c.close('filtered features', y, ref, tol)
        c.eq('input unchanged', x, x0)
        if cycles == 1 and method != 'frequency_low_pass':
            k = c.real('k', (), -3, 3, dtype=dtype)
            par = dict(par)
            z = D.denoise(torch.ones((n, 1), dtype=dtype) * k, method, par)
            c.close('constant features are kept', z, torch.ones((n, 1)) * k, tol)
            if n >= window and (order or 0) >= 1:
                s = torch.arange(n, dtype=dtype).reshape(-1, 1) * k
                z = D.denoise(s, method, par)
                lo, hi = window // 2, n - (window - 1 - window // 2)
                mid = ((window - 1) / 2.0 - window // 2)
                c.close('trends are kept', z[lo:hi], s[lo:hi] + mid * k, 1e-8 if dtype == torch.float64 else 1e-4)
        c.raises('unknown method', RuntimeError, D.denoise, x, 'none')
        c.raises('not a tensor', RuntimeError, D.denoise, [1.0], method)
        c.raises('not a sequence of features', RuntimeError, D.denoise, x[0], method)
    return body


def cases(tier):
    out = [Case(f'loss {k}', loss(k)) for k in ('mse', 'absolute', 'clip', 'regularizer', 'default')]
    for arch in MODS:
        out.append(Case(f'{arch}: sample loss', sample_loss(arch)))
        out.append(Case(f'{arch}: stored states', stored(arch)))
        for inn in (0, 1):
            for o in (0, 1):
                for nl in (0, 1):
                    out.append(Case(f'{arch}: predictions, normalised in {inn} out {o} loss {nl}',
                                    predictions(arch, bool(inn), bool(o), bool(nl), 'mse', 2, bool((inn + o + nl) % 2),
                                                'min-max' if inn else 'mean-std')))
        out.append(Case(f'{arch}: predictions, relative error', predictions(arch, False, False, False, 'mre', 1, True, 'mean-std', 2)))
        out.append(Case(f'{arch}: predictions, one batch', predictions(arch, True, True, False, 'mse', 3, True, 'min-max')))
    out.append(Case('metrics', metrics))
    for k in ('stress_comps', 'p_strain_comps', 'acc_p_strain'):
        out.append(Case(f'prediction arrays {k}', arrays(k)))
    f32 = torch.float32
    for dt, tag in ((torch.float64, ''), (f32, ' single precision')):
        for w in (1, 2, 3, 4):
            out.append(Case(f'moving average {w}{tag}', denoiser('moving_average', 4, w, dtype=dt)))
        for w, o in ((3, 1), (3, 2), (5, 2), (4, 1)):
            out.append(Case(f'Savitzky-Golay {w} {o}{tag}', denoiser('savitzky_golay', 6, w, o, dtype=dt)))
        for n in (2, 3, 4, 6):
            out.append(Case(f'low pass {n}{tag}', denoiser('frequency_low_pass', n, dtype=dt)))
    out.append(Case('moving average twice', denoiser('moving_average', 4, 3, cycles=2)))
    out.append(Case('Savitzky-Golay twice', denoiser('savitzky_golay', 5, 3, 1, cycles=2)))
    out.append(Case('low pass twice', denoiser('frequency_low_pass', 4, cycles=2)))
    return out
