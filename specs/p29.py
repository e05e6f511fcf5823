"""Learning material models from specimen data (material model finder training)"""
import os
import re
import contextlib
import torch
from unittest import mock
from .common import *
from .p22 import disk
from .p27 import Rec, Opt, clamp, converged
from material_model_finder.train import training as tr
from material_model_finder.model.material_discovery import MaterialModelFinder
from material_model_finder.utilities import torch_parameters as tp
from model_architectures.procedures import model_state_files as msf, model_training as mt
from simulators.fetorch.structure import structure_state
from simulators.fetorch.structure.structure_state import StructureMaterialState

OUTSIDE = ('up to three epochs, two materials with one parameter each; the loss and the optimiser are arbitrary (any positive loss, any '
           'parameters after each update; the loss itself is P20); torch.save/torch.load store a copy under the path')


class Mat(torch.nn.Module):
    """a material model with one named parameter, bounds and a constraint"""
    rec = None

    def __init__(self, **kw):
        super().__init__()
        self.model_name, self.model_directory = kw['model_name'], kw['model_directory']
        self.norm = kw['is_normalized_parameters']
        self.is_explicit_parameters, self.is_normalized_parameters = True, self.norm
        self.p = torch.nn.Parameter(Mat.rec.par('init.' + kw['material_model_name']).clone())
        self._device_type = 'cpu'

    def set_device(self, d):
        pass

    def get_model_parameters(self):
        return {'E': self.p}

    def get_model_parameters_bounds(self):
        return {'E': (10.0, 14.0) if self.norm else (-1.0, 1.0)}

    def get_model_parameters_norm_bounds(self):
        return {'E': (-1.0, 1.0)}

    def get_detached_model_parameters(self, is_normalized_out=False):
        v = self.p.detach()[0].clone()
        if self.norm and not is_normalized_out:
            v = 12.0 + 2.0 * v
        return {'E': v.item()}

    def enforce_parameters_constraints(self):
        self.p.data.copy_(self.p.data * 0.5)


class Spec:
    """a specimen (the loss is a stand-in)"""
    time_hist = torch.arange(2.0)

    def check_dirichlet_bc_mesh_hist(self, *a, **k):
        pass


class Two(Opt):
    """arbitrary optimiser: any value of every parameter after each update"""

    def __init__(self, rec, params, kw):
        super().__init__(rec, params)
        self.kw = kw

    def step(self, *a, **k):
        self.rec.event('step')
        self.k += 1
        for i, p in enumerate(self.params):
            p.data.copy_(self.rec.par(f'p{i}.{self.k}'))


class Sched:
    def __init__(self, rec):
        self.rec, self.n = rec, 0

    def get_last_lr(self):
        return [2.0 ** -self.n]

    def step(self):
        self.rec.event('scheduler')
        self.n += 1


def states(d, name):
    out = set()
    for f in os.listdir(d):
        g = re.match(r'^' + name + r'(?:-(init|\d+))?(-best)?\.pt$', f)
        if g:
            out.add((g[1] or '') + (g[2] or ''))
    return out


def specimen(d, norms):
    ms = StructureMaterialState('infinitesimal', 1, 2)
    for i, n in enumerate(norms):
        kw = {'n_features_in': 3, 'n_features_out': 3, 'learnable_parameters': {}, 'material_model_name': f'm{i}',
              'state_features_out': {}, 'is_auto_sync_parameters': True, 'is_check_su_fail': False, 'model_directory': d,
              'is_normalized_parameters': n, 'is_model_in_normalized': False, 'is_model_out_normalized': False, 'device_type': 'cpu'}
        with mock.patch.object(structure_state, 'RecurrentConstitutiveModel', Mat):
            ms.init_elements_model('rc_m', {}, [i + 1], {}, model_kwargs=kw)
    return ms


def training(epochs, norms, explicit=True, params=None, save_every=None, wide=False, sched=False, scale=None):
    def body(c):
        rec = Mat.rec = Rec(c, 3 if wide else 0.875)
        seen, opts = [], []

        def forward(self, sequential_mode='sequential_element'):
            rec.event('forward', self.training)
            seen.append([p.detach().clone() for p in self.parameters()])
            return rec.loss(None, None)

        def optimizer(algorithm, params, **k):
            o = Two(rec, params, k)
            opts.append(o)
            return o
        with disk(c) as d, contextlib.ExitStack() as st:
            ms = specimen(d, norms)
            n = len(norms)
            st.enter_context(sym_numpy(c, tr))
            for obj, nm, v in ((MaterialModelFinder, 'forward', forward), (tr, 'get_pytorch_optimizer', optimizer),
                               (tr, 'get_model_summary', lambda *a, **k: ''),
                               (tr, 'write_training_summary_file', lambda *a, **k: rec.event('summary')),
                               (tr, 'get_learning_rate_scheduler', lambda optimizer, scheduler_type, **k: Sched(rec)),
                               (torch.Tensor, 'backward', lambda self, *a, **k: rec.event('backward', self.detach().clone()))):
                st.enter_context(mock.patch.object(obj, nm, v))
            kw = {}
            if params:
                kw['params_stopping_kwargs'] = dict(params)
            if sched:
                kw['lr_scheduler_type'] = 'explr'
            model, best_loss, best_epoch = tr.train_model(
                epochs, Spec(), ms, {'model_directory': d, 'model_name': 'finder'}, 1.0, is_explicit_model_parameters=explicit,
                is_params_stopping=params is not None, save_every=save_every, loss_scaling_factor=scale, **kw)
            c.true('finder', isinstance(model, MaterialModelFinder) and model.get_material_models() is ms.get_material_models())
            c.true('parameters of all materials are learnt', len(opts) == 1 and len(opts[0].params) == n and opts[0].kw['lr'] == 1.0)
            mats = [ms.get_material_models()[str(i + 1)] for i in range(n)]
            idx = [[k for k, p in enumerate(opts[0].params) if p is m.p][0] for m in mats]
            # one update per epoch, on the gradient of this epoch's loss
            fresh, pending, ran = True, False, 0
            for e in rec.events:
                if e[0] == 'zero':
                    c.true('gradients are not dropped', not pending)
                    fresh = True
                elif e[0] == 'backward':
                    c.true('gradients are of this epoch only', fresh)
                    fresh, pending = False, True
                elif e[0] == 'step':
                    c.true('one update per gradient', pending)
                    pending = False
                    ran += 1
                elif e[0] == 'loss':
                    c.true('every gradient is used', not pending)
            ls = [e[1] for e in rec.of('loss')]
            c.true('one update per epoch', ran == len(ls) == len(rec.of('backward')) and ran >= 1)
            for b, l in zip(rec.of('backward'), ls):
                c.eq('gradient of the loss', b[1], l)
            c.true('training mode', all(e[1] for e in rec.of('forward')))
            # parameters in force
            post = (lambda v: clamp(v) * 0.5) if explicit else (lambda v: v)
            raw = [rec.par(f'init.m{i}') for i in range(n)]
            seq = [[post(v) for v in raw]] + [[post(rec.par(f'p{idx[i]}.{k + 1}')) for i in range(n)] for k in range(ran)]
            for k in range(ran):
                for i in range(n):
                    c.eq('loss of the current parameters', seen[k][idx[i]], seq[k][i])
            phys = lambda k, i: (12.0 + 2.0 * seq[k][i][0]) if norms[i] else seq[k][i][0]
            hist = {f'model_{i + 1}_E': [phys(k + 1, i) for k in range(ran)] for i in range(n)}
            # end of training
            if params and explicit:
                conv = [e for e in range(ran) if all(converged(h[:e + 1], params) for h in hist.values())]
                c.true('no training after convergence', not conv or conv[0] == ran - 1)
                c.true('all epochs', bool(conv) or ran == epochs + 1)
                c.true('number of epochs', ran <= epochs + 1)
            else:
                c.true('all epochs', ran == epochs + 1)
            for m, v in zip(mats, seq[-1]):
                c.eq('learnt parameters', m.p.detach(), v)
            # best epoch
            for l in ls:
                c.le('best loss', best_loss, l)
            c.eq('epoch of the best loss', best_loss, ls[best_epoch])
            fst = states(d, 'finder')
            best = [f for f in fst if f.endswith('-best')]
            c.true('single best state', len(best) == 1)
            ep = int(best[0].split('-')[0])
            for l in ls:
                c.le('best state has the lowest loss', ls[ep], l)
            want = {str(ran - 1), f'{ep}-best'}
            if save_every:
                want |= {str(e) for e in range(0, ran, save_every)}
            c.true('finder states', fst == want and states(d, 'finder_optim') == want)
            o = torch.load(os.path.join(d, f'finder_optim-{ep}-best.pt'))
            c.true('optimiser of the best state', o['epoch'] == ep and o['state']['k'] == ep + 1)
            # every material has its own directory with the same states
            dirs = [m.model_directory for m in mats]
            c.true('own directories', len(set(map(os.path.normpath, dirs))) == n and all(os.path.isdir(x) for x in dirs))
            for i, m in enumerate(mats):
                c.true('material states', states(m.model_directory, m.model_name) == want | {'init'})
                for which, v, e in (('init', raw[i], 0), ('best', seq[ep + 1][i], ep), ('last', seq[ran][i], ran - 1)) + tuple(
                        (e, seq[e + 1][i], e) for e in (range(0, ran, save_every) if save_every else ())):
                    q = specimen(d, norms).get_material_models()[str(i + 1)]
                    q.model_directory = m.model_directory
                    q.p.data.copy_(c.real('other', (1,), -3, 3))
                    c.true('epoch of a material state', msf.load_model_state(q, which, is_remove_posterior=False) == e)
                    c.eq(f'material state {which}', q.p.detach(), v)
            # records
            f = os.path.join(d, 'loss_history_record.pkl')
            _, _, th, vh = mt.read_loss_history_from_file(f)
            c.true('loss history length', len(th) == ran and vh is None)
            for a, b in zip(th, ls):
                c.eq('loss history', torch.as_tensor(a).reshape(()), b)
            lt, lh = mt.read_lr_history_from_file(f)
            c.true('learning rates', (lt, lh) == (None, [1.0] * ran) or (sched and lt == 'explr' and len(lh) == ran))
            c.true('scheduler', len(rec.of('scheduler')) == (ran if sched else 0))
            if explicit:
                bounds = {f'model_{i + 1}_E': (10.0, 14.0) if norms[i] else (-1.0, 1.0) for i in range(n)}
                ph, pb = tr.read_parameters_history_from_file(os.path.join(d, 'parameters_history_record.pkl'))
                c.true('bounds stored', pb == bounds)
                c.true('parameters', set(ph) == set(hist))
                for k in hist:
                    c.true('history length', len(ph[k]) == ran)
                    for a, b in zip(ph[k], hist[k]):
                        c.eq('parameter history', torch.as_tensor(a).reshape(()), b)
                bp, pb = tr.read_best_parameters_from_file(os.path.join(d, 'parameters_best.pkl'))
                c.true('bounds stored', pb == bounds and set(bp) == set(hist))
                for k in hist:
                    c.eq('best parameters', torch.as_tensor(bp[k]).reshape(()), hist[k][ep])
            else:
                c.true('no parameter records', not any(x.startswith('parameters_') for x in os.listdir(d)))
            for g in (tr.read_parameters_history_from_file, tr.read_best_parameters_from_file):
                c.raises('file missing', RuntimeError, g, os.path.join(d, 'none.pkl'))
            c.raises('unknown optimiser', RuntimeError, tr.train_model, epochs, Spec(), ms,
                     {'model_directory': d, 'model_name': 'finder'}, 1.0, opt_algorithm='other')
    return body


class Nest(torch.nn.Module):
    def __init__(self, v):
        super().__init__()
        self.a = torch.nn.Parameter(v[0])
        self.sub = torch.nn.Module()
        self.sub.b = torch.nn.Parameter(v[1])
        self.sub.inner = torch.nn.Module()
        self.sub.inner.c = torch.nn.Parameter(v[2])
        self.sub.inner.d = torch.nn.Parameter(v[3])


def nested(c):
    v = c.real('v', (4,))
    m = Nest(v)
    d = tp.get_model_parameter_dict(m)
    c.true('names', set(d.keys()) == {'a', 'sub'} and set(d['sub'].keys()) == {'b', 'inner'} and set(d['sub']['inner'].keys()) == {'c', 'd'})
    for g, w, k in ((d['a'], m.a, 0), (d['sub']['b'], m.sub.b, 1), (d['sub']['inner']['c'], m.sub.inner.c, 2),
                    (d['sub']['inner']['d'], m.sub.inner.d, 3)):
        c.true('the parameter itself', g is w)
        c.eq('value', g.detach(), v[k])


def cases(tier):
    cv = dict(convergence_tolerance=0.5, trigger_tolerance=1)
    out = [Case('single epoch', training(0, (False,))),
           Case('two epochs, two materials', training(1, (True, False), save_every=1)),
           Case('three epochs', training(2, (False,), save_every=2)),
           Case('bounds and constraints', training(1, (False,), wide=True)),
           Case('bounds and constraints, two materials', training(0, (False, True), wide=True)),
           Case('implicit parameters', training(1, (False, False), explicit=False, save_every=1)),
           Case('scheduler', training(1, (True,), sched=True)),
           Case('parameter convergence', training(2, (True,), params=cv)),
           Case('nested parameters', nested)]
    if tier != 'quick':
        out += [Case('four epochs', training(3, (False,), save_every=1)), Case('three epochs, two materials', training(2, (True, False))),
                Case('parameter convergence, two materials', training(1, (True, False), params=cv)),
                Case('implicit parameters, convergence on', training(2, (False,), explicit=False, params=cv))]
    return out
