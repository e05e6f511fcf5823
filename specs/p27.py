"""Training: best states, early stopping, state files and histories"""
import os
import re
import copy
import pickle
import shutil
import contextlib
import numpy as np
import torch
from unittest import mock
from .common import *
from .p22 import disk
from model_architectures.rnn_base_model.train import training as rnnt
from model_architectures.hybrid_base_model.train import training as hybt
from model_architectures.rc_base_model.train import training as rct
from model_architectures.rnn_base_model.predict import prediction as rnnp
from model_architectures.hybrid_base_model.predict import prediction as hybp
from model_architectures.rc_base_model.predict import prediction as rcp
from model_architectures.procedures import model_state_files as msf, model_training as mt
from time_series_data.time_dataset import TimeSeriesDatasetInMemory
from utilities.data_scalers import TorchStandardScaler
from utilities import optimizers as opt

OUTSIDE = ('two to four epochs of one or two batches; the optimiser and the loss are arbitrary (any parameters after each step, any '
           'non-negative losses); gradients are those of torch and are not checked; torch.save/torch.load store a copy under the path')
MODS = {'rnn': (rnnt, rnnp, 'GRURNNModel'), 'hybrid': (hybt, hybp, 'HybridModel'), 'rc': (rct, rcp, 'RecurrentConstitutiveModel')}


class Sub:
    is_explicit_parameters = True

    def __init__(self, m):
        self.m = m
        self.is_normalized_parameters = m.norm

    def get_model_parameters(self):
        return {'p': self.m.p}

    def get_model_parameters_bounds(self):
        return {'p': (10.0, 20.0) if self.m.norm else (-1.0, 1.0)}

    def get_model_parameters_norm_bounds(self):
        return {'p': (-1.0, 1.0) if self.m.norm else (10.0, 20.0)}


class Model(torch.nn.Module):
    """one parameter, y = p + x; the interface of the three model families"""

    def __init__(self, rec, arch, d, inn=False, out=False, norm=False, nan=False):
        super().__init__()
        self.p = torch.nn.Parameter(rec.par('p.init').clone())
        self.rec, self.arch, self.model_directory, self.model_name = rec, arch, d, 'model'
        self.is_model_in_normalized, self.is_model_out_normalized = inn, out
        self._data_scalers = {'features_in': None, 'features_out': None}
        self._is_save_model_init_file = False
        self.norm, self.nan = norm, nan

    def set_device(self, d):
        pass

    def get_device(self):
        return torch.device('cpu'), 'cpu'

    def forward(self, x, h=None):
        self.rec.event('forward', self.training, x, value(self))
        y = x + self.p.detach()
        if self.nan:
            y = y * float('nan')
        return (y, h) if self.arch == 'rnn' else y

    def get_hybridized_models(self):
        return [Sub(self)] if self.arch == 'hybrid' else []

    def get_detached_model_parameters(self, is_normalized_out=False):
        self.rec.flags.add(is_normalized_out)
        v = self.p.detach()[0].clone()
        return {'p': v.item()}

    def get_model_parameters_bounds(self):
        return {'p': (-1.0, 1.0)}

    def enforce_parameters_bounds(self):
        self.rec.event('bounds')
        self.p.data.copy_(clamp(self.p.data))

    def enforce_parameters_constraints(self):
        self.rec.event('constraints')
        self.p.data.copy_(self.p.data * 0.5)


def clamp(v):
    return torch.where(v < -1.0, -torch.ones_like(v), torch.where(v > 1.0, torch.ones_like(v), v))


def value(m):
    return m.p.detach().clone()


class Opt:
    """arbitrary optimiser: any parameter value after each step"""

    def __init__(self, rec, params):
        self.rec, self.params, self.k = rec, list(params), 0
        self.param_groups = [{'lr': 1.0}]

    def zero_grad(self, *a, **k):
        self.rec.event('zero')

    def step(self, *a, **k):
        self.rec.event('step')
        self.k += 1
        for p in self.params:
            # larger range than the bounds
            p.data.copy_(self.rec.par(f'p.{self.k}'))

    def state_dict(self):
        return {'k': self.k}

    def load_state_dict(self, s):
        self.k = s['k']
        self.rec.event('optimizer state', s['k'])


class Rec:
    def __init__(self, c, rng=3, lo=None):
        self.c, self.events, self.range, self.lo, self.nloss, self.nval, self.flags = c, [], rng, lo or -rng, 0, 0, set()

    def event(self, *e):
        self.events.append(e)

    def par(self, name):
        return self.c.real(name, (1,), self.lo, self.range)

    def loss(self, out, target):
        k, self.nloss = self.nloss, self.nloss + 1
        v = self.c.real(f'loss.{k}', (), 0.1, 10)
        self.event('loss', v, out, target)
        return v

    def val(self, out, target):
        k, self.nval = self.nval, self.nval + 1
        v = self.c.real(f'val.{k}', (), 0.1, 10)
        self.event('val', v, out, target)
        return v

    def of(self, kind):
        return [e for e in self.events if e[0] == kind]


@contextlib.contextmanager
def harness(c, arch, rec, d, scalers=None, **mk):
    tr, pr, name = MODS[arch]
    made = []

    class Factory:
        def __new__(cls, **kw):
            m = Model(rec, arch, d, **mk)
            made.append(m)
            return m

        @staticmethod
        def init_model_from_file(*a, **kw):
            m = Model(rec, arch, d, **mk)
            if scalers:
                m._data_scalers = dict(scalers)
            made.append(m)
            return m

    def fit(model, dataset, *a, **k):
        rec.event('fit', model, dataset)
        model._data_scalers = dict(scalers)

    def patch(m, n, v):
        if hasattr(m, n):
            st.enter_context(mock.patch.object(m, n, v))
    with contextlib.ExitStack() as st:
        st.enter_context(sym_numpy(c, tr, pr))
        patch(tr, name, Factory)
        patch(tr, 'get_pytorch_loss', lambda t, **k: rec.loss)
        patch(pr, 'get_pytorch_loss', lambda t, **k: rec.val)
        patch(tr, 'get_pytorch_optimizer', lambda algorithm, params, **k: Opt(rec, params))
        patch(tr, 'fit_data_scalers', fit)
        patch(tr, 'get_model_summary', lambda *a, **k: '')
        patch(tr, 'write_training_summary_file', lambda *a, **k: rec.event('summary', a, k))
        st.enter_context(mock.patch.object(torch.Tensor, 'backward', lambda self, *a, **k: rec.event('backward', self.detach().clone())))
        yield made


def states(d):
    out = {}
    for f in os.listdir(d):
        g = re.match(r'^model(_optim)?(?:-(init|\d+))?(-best)?\.pt$', f)
        if g:
            out.setdefault('optim' if g[1] else 'model', set()).add((g[2] or '') + (g[3] or ''))
    return out


def data(c, n, tag=''):
    return [{'features_in': c.real(f'x{tag}{i}', (1, 1), -3, 3), 'features_out': c.real(f'y{tag}{i}', (1, 1), -3, 3)} for i in range(n)]


def load(c, rec, arch, d, which, **k):
    """what a user gets by loading a state, without removing any file"""
    m = Model(rec, arch, d)
    m.p.data.copy_(c.real('other', (1,), -3, 3))
    e = msf.load_model_state(m, model_load_state=which, is_remove_posterior=False)
    return e, value(m)


def simulate(vals, trigger, tol):
    """documented early stopping criterion: consecutive validations without (sufficient) improvement of the best loss"""
    best, k, n = None, None, 0
    for i, v in enumerate(vals):
        if best is None:
            best, k = v, i
        elif bool(v < best):
            n = 0 if bool((best - v) / best > tol) else n + 1
            best, k = v, i
        else:
            n += 1
        if n >= trigger:
            return i, k
    return None, k


def training(arch, epochs, batches, stop=None, save_every=None, inn=False, out=False, normloss=False, norm=False, params=None, clampd=False):
    tr = MODS[arch][0]

    def body(c):
        rec = Rec(c, 3 if clampd else 0.875, 0.125 if params else None)
        p, q = c.real('mean', (2, 1), -2, 2), c.real('std', (2, 1), 0.1, 2)
        sc = {'features_in': TorchStandardScaler(1, mean=p[0], std=q[0]), 'features_out': TorchStandardScaler(1, mean=p[1], std=q[1])}
        n = batches
        smp = data(c, n)
        vs = data(c, 2, 'v')
        with disk(c) as d, harness(c, arch, rec, d, sc, inn=inn, out=out, norm=norm) as made:
            kw = {}
            if stop:
                trigger, tol, freq = stop
                kw = dict(is_early_stopping=True, early_stopping_kwargs=dict(
                    validation_dataset=TimeSeriesDatasetInMemory(vs), validation_frequency=freq, trigger_tolerance=trigger,
                    improvement_tolerance=tol))
            if arch == 'rc':
                kw.update(is_params_stopping=params is not None, is_normalized_loss=normloss)
                if params:
                    kw.update(params_stopping_kwargs=dict(params))
            ds = TimeSeriesDatasetInMemory(smp)
            model, best_loss, best_epoch = tr.train_model(epochs, ds, {'model_directory': d}, 1.0, batch_size=1, save_every=save_every, **kw)
            c.true('one model', len(made) == 1 and made[0] is model)
            # order of a training step
            steps = [e for e in rec.events if e[0] in ('zero', 'backward', 'step', 'bounds', 'constraints', 'loss')]
            nstep, fresh, pending = 0, True, False
            for e in steps:
                if e[0] == 'zero':
                    c.true('gradients are not dropped', not pending)
                    fresh = True
                elif e[0] == 'backward':
                    c.true('gradients are of this batch only', fresh)
                    fresh, pending = False, True
                elif e[0] == 'step':
                    c.true('one step per gradient', pending)
                    pending = False
                    nstep += 1
                elif e[0] == 'loss':
                    c.true('every gradient is used', not pending)
            ls = rec.of('loss')
            c.true('one step per batch', nstep == len(ls) and nstep % n == 0)
            for b, l in zip(rec.of('backward'), ls):
                c.eq('gradient of the loss', b[1], l[1])
            ran = nstep // n
            # parameters in force after every step
            par, raw = [], rec.par('p.init')
            post = {'rnn': lambda v: v, 'hybrid': clamp, 'rc': lambda v: clamp(v) * 0.5}[arch]
            cur = clamp(raw) * 0.5 if arch == 'rc' else raw
            init = cur
            seq = [cur]
            for k in range(nstep):
                cur = post(rec.par(f'p.{k + 1}'))
                seq.append(cur)
            for k, l in enumerate(ls):
                s = smp[k % n]
                x = (s['features_in'] - p[0]) / q[0] if inn else s['features_in']
                y = x + seq[k]
                t = s['features_out']
                if out:
                    t = (t - p[1]) / q[1]
                elif normloss:
                    t, y = (t - p[1]) / q[1], (y - p[1]) / q[1]
                c.eq('loss of the model output', l[2].reshape(-1), y.reshape(-1))
                c.eq('loss against the targets', l[3].reshape(-1), t.reshape(-1))
            c.true('scalers are fitted to the data', [e[2] is ds for e in rec.of('fit')] == [True] * (1 if inn or out or normloss else 0))
            fw = [e[1] for e in rec.of('forward')]
            c.true('training mode', sum(1 for f in fw if f) == nstep)
            avg = [sum(l[1] for l in ls[e * n:(e + 1) * n]) / n for e in range(ran)]
            # validation
            stopped, vbest, vals, vep = None, None, [], []
            if stop:
                ve = rec.of('val')
                c.true('validation samples', len(ve) % 2 == 0)
                vals = [(ve[2 * i][1] + ve[2 * i + 1][1]) / 2.0 for i in range(len(ve) // 2)]
                vep = list(range(0, ran, freq))
                c.true('validation frequency', len(vals) == len(vep))
                si, bi = simulate(vals, trigger, tol)
                for i, e in enumerate(vep):
                    for j in range(2):
                        s = vs[j]
                        x = (s['features_in'] - p[0]) / q[0] if inn else s['features_in']
                        y, t = x + seq[(e + 1) * n], s['features_out']
                        if out:
                            t = (t - p[1]) / q[1]
                        elif normloss:
                            t, y = (t - p[1]) / q[1], (y - p[1]) / q[1]
                        c.eq('validation of the current model', ve[2 * i + j][2].reshape(-1), y.reshape(-1))
                        c.eq('validation targets', ve[2 * i + j][3].reshape(-1), t.reshape(-1))
                if si is not None:
                    stopped, vbest = vep[si], vep[bi]
                    c.true('training stops when triggered', ran == stopped + 1)
            conv = None
            hist = [init[0]] + [sum(seq[e * n + 1 + k][0] for k in range(n)) / n for e in range(ran)]
            if arch == 'rc' and params is not None:
                conv = [e for e in range(ran) if converged(hist[:e + 2], params)]
                c.true('no training after convergence', not conv or conv[0] == ran - 1)
            if stopped is None and not conv:
                c.true('all epochs', ran == epochs + 1)
            else:
                c.true('number of epochs', ran <= epochs + 1)
            # results
            for a in avg:
                c.le('best loss', best_loss, a)
            c.eq('epoch of the best loss', best_loss, avg[best_epoch])
            ep, v = load(c, rec, arch, d, 'best')
            if stopped is not None:
                c.true('best epoch after early stopping', ep == vbest)
                c.eq('model restored to the best validation', value(model), seq[(vbest + 1) * n])
            else:
                for a in avg:
                    c.le('best state has the lowest loss', avg[ep], a)
                c.eq('trained model', value(model), seq[-1])
            c.eq('best state', v, seq[(ep + 1) * n])
            el, vl = load(c, rec, arch, d, 'last')
            c.true('last epoch', el == ran - 1)
            c.eq('last state is the returned model', vl, value(model))
            ei, vi = load(c, rec, arch, d, 'init')
            c.eq('initial state', vi, raw)
            st = states(d)
            c.true('single best state', [sum(1 for f in st[k] if f.endswith('-best')) for k in ('model', 'optim')] == [1, 1])
            want = {str(ran - 1), f'{ep}-best'}
            if save_every:
                want |= {str(e) for e in range(0, ran, save_every) if stopped is None or e <= vbest}
            c.true('state files', st['model'] == want | {'init'} and st['optim'] == want)
            o = torch.load(os.path.join(d, f'model_optim-{ep}-best.pt'))
            c.true('optimiser of the best state', o['epoch'] == ep and o['state']['k'] == (ep + 1) * n)
            if save_every and stopped is None:
                for e in range(0, ran, save_every):
                    c.eq('saved epoch', load(c, rec, arch, d, e)[1], seq[(e + 1) * n])
                    o = torch.load(os.path.join(d, f'model_optim-{e}.pt'))
                    c.true('optimiser of a saved epoch', o['epoch'] == e and o['state']['k'] == (e + 1) * n)
            nat, typ, th, vh = mt.read_loss_history_from_file(os.path.join(d, 'loss_history_record.pkl'))
            c.true('loss description', nat == 'features_out' and typ == 'mse')
            c.true('loss history length', len(th) == ran)
            for a, b in zip(th, avg):
                c.eq('loss history', torch.as_tensor(a).reshape(()), b)
            lt, lh = mt.read_lr_history_from_file(os.path.join(d, 'loss_history_record.pkl'))
            c.true('learning rates', lt is None and lh == [1.0] * ran)
            if stop:
                c.true('validation history length', len(vh) == vep[-1] + 1)
                for e, a in enumerate(vh):
                    c.eq('validation history', torch.as_tensor(a).reshape(()), vals[e // freq])
            else:
                c.true('no validation history', vh is None)
            if arch != 'rnn':
                ph, pb = tr.read_parameters_history_from_file(os.path.join(d, 'parameters_history_record.pkl'))
                c.true('bounds stored', pb == {'p': (-1.0, 1.0)})
                c.true('history length', len(ph['p']) == len(hist))
                for a, b in zip(ph['p'], hist):
                    c.eq('parameter history', torch.as_tensor(a).reshape(()), b)
                bp, pb = tr.read_best_parameters_from_file(os.path.join(d, 'parameters_best.pkl'))
                c.true('bounds stored', pb == {'p': (-1.0, 1.0)})
                c.eq('best parameters', torch.as_tensor(bp['p']).reshape(1), v)
                c.true('physical parameters stored', rec.flags == {False})
                if arch == 'hybrid' or clampd:
                    c.le('bounds hold', v.abs(), torch.ones(1))
            for s in smp + vs:
                c.true('data set', set(s) == {'features_in', 'features_out'})
    return body


def converged(h, par):
    """documented criterion: the last changes are all below the tolerance and the history is long enough"""
    tol, trig, mn = par['convergence_tolerance'], par['trigger_tolerance'], par.get('min_hist_length', 0)
    if len(h) <= trig or len(h) <= mn:
        return False
    for a, b in zip(h[-trig - 1:-1], h[-trig:]):
        r = (b - a).abs()
        if bool(a.abs() > 1e-8):
            r = r / a.abs()
        if not bool(r < tol):
            return False
    return True


def convergence(n, trig, mn):
    def body(c):
        v = torch.stack([c.real('v', (n,), 0.01, 2), -c.real('w', (n,), 0.01, 2)])
        h = {'a': [v[0, i].item() if c.symbolic else float(v[0, i]) for i in range(n)],
             'b': [v[1, i].item() if c.symbolic else float(v[1, i]) for i in range(n)]}
        is_c, status = rct.check_model_parameters_convergence(h, convergence_tolerance=0.1, trigger_tolerance=trig, min_hist_length=mn)
        par = dict(convergence_tolerance=0.1, trigger_tolerance=trig)
        one = [converged(list(v[k]), par) for k in range(2)]
        c.true('all parameters converged', bool(is_c) == (all(one) and n > mn))
        c.true('status of each parameter', [bool(status[k]['is_converged']) for k in 'ab'] == one)
        for k, key in enumerate('ab'):
            s = status[key]
            if n == 1:
                c.true('unknown change', s['absolute_change'] is None and s['relative_change'] is None)
            else:
                c.eq('absolute change', torch.as_tensor(s['absolute_change']).reshape(()), (v[k, -1] - v[k, -2]).abs())
                c.eq('relative change', torch.as_tensor(s['relative_change']).reshape(()), (v[k, -1] - v[k, -2]).abs() / v[k, -2].abs())
        z = {'a': [0.0, 0.05, 0.05 + 0.0]}
        c.true('vanishing parameter: absolute change', bool(rct.check_model_parameters_convergence(
            z, convergence_tolerance=0.1, trigger_tolerance=2)[0]))
    return body


def resume(arch, which, before):
    """training continues from a stored state and drops later states"""
    tr = MODS[arch][0]

    def body(c):
        rec = Rec(c, 1)
        with disk(c) as d, harness(c, arch, rec, d) as made:
            old = {}
            m = Model(rec, arch, d)
            o = Opt(rec, [])
            msf.save_model_state(m, 'init')
            for e in before:
                old[e] = c.real(f'old{e}', (1,), -1, 1)
                m.p.data.copy_(old[e])
                mt.save_training_state(m, o, 'epoch', epoch=e)
                if e == 1:
                    mt.save_training_state(m, o, 'best', epoch=e)
            kw = {'is_params_stopping': False} if arch == 'rc' else {}
            rec.events.clear()
            model, *_ = tr.train_model(1, TimeSeriesDatasetInMemory(data(c, 1)), {'model_directory': d}, 1.0, model_load_state=which,
                                       save_every=1, **kw)
            start = old[{'best': 1, 'last': before[-1]}.get(which, which)]
            if arch == 'rc':
                start = start * 0.5
            c.eq('starts from the stored state', rec.of('forward')[0][3], start)
            c.true('no refitting', not rec.of('fit'))
            if which != 'last':
                st = states(d)
                c.true('later states are dropped', all(int(f) <= 1 for f in st['model'] if f.isdigit()))
    return body


def files(c):
    """state files: what is saved is what is loaded, later epochs are removed, one best state"""
    rec = Rec(c, 1)
    with disk(c) as d:
        m = Model(rec, 'rnn', d)
        v = {}

        def put(k, *a, **kw):
            v[k] = c.real(f'v.{k}', (1,), -3, 3)
            m.p.data.copy_(v[k])
            msf.save_model_state(m, *a, **kw)
        put('default')
        put('init', 'init')
        for e in (0, 2, 10):
            put(str(e), 'epoch', epoch=e)
        open(os.path.join(d, 'model_optim-99.pt'), 'w').close()
        open(os.path.join(d, 'other-99.pt'), 'w').close()
        get = lambda w, **k: load(c, rec, 'rnn', d, w, **k)
        c.true('states', states(d)['model'] == {'', 'init', '0', '2', '10'})
        e, x = get(None)
        c.true('default epoch', e is None)
        c.eq('default state', x, v['default'])
        e, x = get('init')
        c.true('initial epoch', e == 0)
        c.eq('initial state', x, v['init'])
        for k in (0, 2, 10):
            e, x = get(k)
            c.true('epoch', e == k)
            c.eq('epoch state', x, v[str(k)])
        e, x = get('last')
        c.true('last epoch', e == 10)
        c.eq('last state', x, v['10'])
        c.raises('no best state', RuntimeError, get, 'best')
        put('b2', 'best', epoch=2, is_remove_posterior=False)
        c.true('later states kept', '10' in states(d)['model'])
        put('b3', 'best', epoch=10)
        c.true('one best state', {f for f in states(d)['model'] if 'best' in f} == {'10-best'})
        e, x = get('best')
        c.true('best epoch', e == 10)
        c.eq('best state', x, v['b3'])
        # without epoch
        put('b', 'best')
        c.true('best state without epoch', {f for f in states(d)['model'] if 'best' in f} == {'-best'} or
               os.path.isfile(os.path.join(d, 'model-best.pt')))
        e, x = get('best')
        c.true('best state without epoch', e is None)
        c.eq('best state', x, v['b'])
        open(os.path.join(d, 'model-5-best.pt'), 'w').close()
        c.raises('two best states', RuntimeError, get, 'best')
        put('b4', 'best', epoch=2)
        c.true('one best state', {f for f in states(d)['model'] if 'best' in f} == {'2-best'})
        c.true('later states dropped', states(d)['model'] == {'', 'init', '0', '2', '2-best'})
        c.true('other files are kept', {'model_optim-99.pt', 'other-99.pt'} <= set(os.listdir(d)))
        put('2', 'epoch', epoch=2)
        c.eq('overwritten state', get(2)[1], v['2'])
        put('7', 'epoch', epoch=7)
        m2 = Model(rec, 'rnn', d)
        e = msf.load_model_state(m2, 2)
        c.true('loaded epoch', e == 2)
        c.eq('loaded state', value(m2), v['2'])
        c.true('later states dropped', states(d)['model'] == {'', 'init', '0', '2', '2-best'})
        put('8', 'epoch', epoch=8)
        c.true('best epoch', msf.load_model_state(m2, 'best') == 2)
        c.true('later states dropped', states(d)['model'] == {'', 'init', '0', '2', '2-best'})
        c.true('initial epoch', msf.load_model_state(m2, 'init') == 0)
        c.true('later states dropped', states(d)['model'] == {'', 'init', '0', '2-best'})
        c.raises('missing epoch', RuntimeError, get, 5)
        # optimiser states
        o = Opt(rec, [])
        for e in (0, 3, 5):
            o.k = 10 + e
            mt.save_training_state(m, o, 'epoch', epoch=e)
        os.remove(os.path.join(d, 'model_optim-99.pt')) if os.path.exists(os.path.join(d, 'model_optim-99.pt')) else None
        o.k = 7
        mt.save_training_state(m, o, 'best', epoch=5)
        c.true('optimiser states', states(d)['optim'] == {'0', '3', '5', '5-best'})
        mt.save_training_state(m, o, 'best', epoch=3)
        c.true('later optimiser states dropped', states(d)['optim'] == {'0', '3', '3-best'})
        c.true('later model states dropped', {f for f in states(d)['model'] if f.isdigit()} == {'0', '3'})
        c.true('optimiser state', torch.load(os.path.join(d, 'model_optim-3.pt')) == {'state': {'k': 13}, 'epoch': 3})
        c.true('optimiser state', torch.load(os.path.join(d, 'model_optim-3-best.pt')) == {'state': {'k': 7}, 'epoch': 3})
        c.raises('not a model', RuntimeError, msf.save_model_state, object())
        c.raises('not a model', RuntimeError, msf.load_model_state, object())
        m2.model_directory = d + '_none'
        c.raises('directory missing', RuntimeError, msf.save_model_state, m2)
        c.raises('directory missing', RuntimeError, msf.load_model_state, m2)


def histories(c):
    """loss history round trip"""
    rec = Rec(c, 1)
    t, v = c.real('t', (3,), 0, 9), c.real('v', (3,), 0, 9)
    with disk(c) as d:
        m = Model(rec, 'rnn', d)
        f = os.path.join(d, 'loss_history_record.pkl')
        for val in (None, [v[i] for i in range(3)]):
            for lr in (None, [0.5, 0.25]):
                mt.save_loss_history(m, 7, 'features_out', 'mre', [t[i] for i in range(3)], lr_scheduler_type='explr' if lr else None,
                                     lr_history_epochs=lr, validation_loss_history=val)
                a, b, th, vh = mt.read_loss_history_from_file(f)
                c.true('description', (a, b) == ('features_out', 'mre'))
                c.eq('training', torch.stack(list(th)), t)
                c.true('validation', (vh is None) == (val is None))
                if val:
                    c.eq('validation', torch.stack(list(vh)), v)
                if lr:
                    c.true('learning rates', mt.read_lr_history_from_file(f) == ('explr', lr))
                else:
                    c.raises('no learning rates', RuntimeError, mt.read_lr_history_from_file, f)
        c.raises('file missing', RuntimeError, mt.read_loss_history_from_file, f + '_')
        c.raises('file missing', RuntimeError, mt.read_lr_history_from_file, f + '_')


def nonfinite(c):
    rec = Rec(c, 1)
    with disk(c) as d, harness(c, 'rc', rec, d, nan=True):
        c.raises('non-finite output', RuntimeError, rct.train_model, 1, TimeSeriesDatasetInMemory(data(c, 1)), {'model_directory': d}, 1.0)


def schedulers(c):
    p = torch.nn.Parameter(torch.zeros(1))
    o = opt.get_pytorch_optimizer('adam', [p], lr=0.5)
    c.true('optimiser', isinstance(o, torch.optim.Adam) and o.param_groups[0]['lr'] == 0.5)
    c.raises('unknown optimiser', RuntimeError, opt.get_pytorch_optimizer, 'none', [p])
    for k, kw, t in (('steplr', dict(step_size=2, gamma=0.5), torch.optim.lr_scheduler.StepLR),
                     ('explr', dict(gamma=0.5), torch.optim.lr_scheduler.ExponentialLR),
                     ('linlr', {}, torch.optim.lr_scheduler.LinearLR)):
        c.true('scheduler', type(opt.get_learning_rate_scheduler(o, k, **kw)) is t)
    c.raises('step size missing', RuntimeError, opt.get_learning_rate_scheduler, o, 'steplr')
    c.raises('decay missing', RuntimeError, opt.get_learning_rate_scheduler, o, 'explr')
    c.raises('unknown scheduler', RuntimeError, opt.get_learning_rate_scheduler, o, 'none')


def cases(tier):
    deep = tier == 'thorough'
    out = [Case('state files', files), Case('loss histories', histories), Case('non-finite output', nonfinite),
           Case('schedulers', schedulers, {'tiny': True})]
    for n, t, m in ((1, 1, 0), (2, 1, 0), (3, 2, 0), (3, 1, 3), (2, 2, 0)):
        out.append(Case(f'parameter convergence {n} {t} {m}', convergence(n, t, m)))
    for arch in MODS:
        out.append(Case(f'{arch}: three epochs', training(arch, 2, 1, save_every=1)))
        out.append(Case(f'{arch}: two batches', training(arch, 1, 2, save_every=2, inn=True, out=True)))
        out.append(Case(f'{arch}: parameters out of bounds', training(arch, 1, 1, clampd=True, norm=arch == 'hybrid', inn=True)))
        if arch == 'hybrid':
            out.append(Case(f'{arch}: parameters out of physical bounds', training(arch, 1, 1, clampd=True, out=True)))
        out.append(Case(f'{arch}: early stopping 1', training(arch, 2, 1, stop=(1, 0.25, 1))))
        out.append(Case(f'{arch}: early stopping 2', training(arch, 3, 1, stop=(2, 0.0, 1), save_every=1) if deep else
                        training(arch, 2, 1, stop=(2, 0.0, 1), save_every=1)))
        out.append(Case(f'{arch}: early stopping every second epoch', training(arch, 2, 1, stop=(1, 0.1, 2), out=True)))
        for w, b in ((1, (0, 1, 2)), ('best', (0, 1, 2)), ('last', (0, 2, 10))):
            out.append(Case(f'{arch}: resume {w}', resume(arch, w, b)))
    out.append(Case('rc: normalised loss', training('rc', 1, 1, normloss=True, stop=(1, 0.0, 1))))
    cv = dict(convergence_tolerance=0.5, trigger_tolerance=1)
    out.append(Case('rc: parameter convergence', training('rc', 2, 1, params=cv)))
    out.append(Case('rc: early stopping or parameter convergence', training('rc', 2 if deep else 1, 1, params=cv, stop=(1, 0.0, 1))))
    return out
