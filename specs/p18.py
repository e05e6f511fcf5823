"""Recurrent constitutive model: path response = stepping the material model"""
import os
import torch
from .common import *
from .plast import *
from . import p12, p13, p14
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from model_architectures.rc_base_model.model.recurrent_model import RecurrentConstitutiveModel as RCM

OUTSIDE = 'paths of two or three increments (thorough: one more), batches of two, linear hardening, E=100, v=0.25'
# strain directions with a rational von Mises norm (keeps constants simple)
DIRS = {1: torch.tensor([[1.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 0.0]]),
        4: torch.tensor([[1.5, 1.0, 0.5], [1.0, 0.0, 1.0], [0.5, 1.0, 0.0]])}
CLS = {'elastic': Elastic, 'von_mises': p12.VonMises, 'von_mises_vmap': p12.VonMisesVMAP,
       'von_mises_mixed': p13.VonMisesMixed, 'von_mises_mixed_vmap': p13.VonMisesMixedVMAP,
       'drucker_prager': p14.DruckerPrager, 'drucker_prager_vmap': p14.DruckerPragerVMAP}


def pars(name):
    if name == 'elastic':
        return {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.25}
    if 'mixed' in name:
        return p13.params(p13.lin(2.0, 10.0), p13.lin(0.0, 30.0))
    if 'von' in name:
        return p12.params('linear', {'s0': 2.0, 'a': 10.0})
    return p14.params(get_hardening_law('linear'), {'s0': torch.tensor(2.0), 'a': torch.tensor(10.0)})


def wrapper(name, pt, nout, feats=None, **kw):
    k = 3 if pt == 1 else 6
    return RCM(k, nout, {}, 'infinitesimal', pt, name, pars(name), None,
               state_features_out=feats or {}, is_save_model_init_file=False, **kw)


def tens(v, pt):
    n = 2 if pt == 1 else 3
    m = {}
    for q, o in enumerate(order(pt)):
        i, j = int(o[0]) - 1, int(o[1]) - 1
        m[i, j] = m[j, i] = v[q]
    return torch.stack([torch.stack([m[i, j] for j in range(n)]) for i in range(n)])


def vec(t, pt):
    return torch.stack([t[int(o[0]) - 1, int(o[1]) - 1] for o in order(pt)])


def reference(name, pt, path, feats):
    """step the material model through the path"""
    m = CLS[name]('infinitesimal', pt, pars(name))
    n = 2 if pt == 1 else 3
    k = n * (n + 1) // 2
    s = m.state_init()
    rows = [torch.zeros(k + sum(feats.values()))]
    for t in range(1, path.shape[0]):
        s, _ = m.state_update(tens(path[t], pt) - tens(path[t - 1], pt), s)
        w = [vec(unkelvin(s['stress_mf'], order(pt), n), pt)]
        for f, l in feats.items():
            if f not in s:
                w.append(torch.zeros(l))
            elif 'strain_mf' in f:
                w.append(vec(unkelvin(s[f], order(pt), n), pt))
            else:
                w.append(torch.as_tensor(s[f]).to(torch.float64).reshape(l))
        rows.append(torch.cat(w))
    return torch.stack(rows)


def path(c, tag, pt, steps, free, pre=()):
    """zero initial strain, then arbitrary values (free) or arbitrary sizes along one direction"""
    n = 2 if pt == 1 else 3
    k = n * (n + 1) // 2
    if free:
        v = [c.real(f'{tag}{t}', (k,), -0.05, 0.05) for t in range(steps)]
    else:
        v = [c.real(f'{tag}{t}', (), -0.05, 0.05) * vec(DIRS[pt], pt) for t in range(steps)]
    return torch.stack([torch.zeros(k)] + [q * vec(DIRS[pt], pt) for q in pre] + v)


def respond(name, pt, steps, feats, free, pre=()):
    def body(c):
        n = 2 if pt == 1 else 3
        m = wrapper(name, pt, n * (n + 1) // 2 + sum(feats.values()), feats)
        x = path(c, 'x', pt, steps, free, pre)
        keep = x.clone()
        y = m(x)
        c.eq('strain path untouched', x, keep)
        want = reference(name, pt, x, feats)
        c.true('shape', tuple(y.shape) == tuple(want.shape))
        c.eq('response steps through the path', y, want, tol=1e-6)
        z = m(x)
        c.eq('no memory between calls', z, y)
        if len(x) > 2:
            short = m(x[:-1])
            c.eq('no look ahead', short, y[:-1])
    return body


def batch(name, pt, steps, feats, free=False):
    def body(c):
        n = 2 if pt == 1 else 3
        m = wrapper(name, pt, n * (n + 1) // 2 + sum(feats.values()), feats)
        a, b = path(c, 'x', pt, steps, free), path(c, 'z', pt, steps, free)
        y = m(torch.stack((a, b), dim=1))
        ya, yb = m(a), m(b)
        c.true('shape', tuple(y.shape) == (steps + 1, 2, ya.shape[1]))
        c.eq('first path of the batch', y[:, 0], ya, tol=1e-6)
        c.eq('second path of the batch', y[:, 1], yb, tol=1e-6)
    return body


def reject(c):
    x = c.real('x', (3,), -0.01, 0.01)
    p = torch.stack((torch.zeros(3), x))
    m = wrapper('elastic', 1, 4)
    c.raises('wrong number of output features', RuntimeError, m, p)
    c.raises('not a tensor', RuntimeError, m, [[0.0, 0.0, 0.0]])
    m = wrapper('von_mises_vmap', 1, 4)
    c.raises('wrong number of output features', RuntimeError, m, p)
    c.raises('unknown model', RuntimeError, RCM, 3, 3, {}, 'infinitesimal', 1, 'nope', pars('elastic'), None,
             is_save_model_init_file=False)
    c.raises('unknown directory', RuntimeError, RCM, 3, 3, {}, 'infinitesimal', 1, 'elastic', pars('elastic'),
             '/nonexistent/dir', is_save_model_init_file=False)


def stuck_law(par, acc, is_check_data=False):
    return 2.0 + 10.0 * acc, torch.tensor(1e6)


def failure(c):
    """a state update that fails is not passed on silently"""
    pr = dict(p12.params('linear', {}), hardening_law=stuck_law)
    m = RCM(3, 3, {}, 'infinitesimal', 1, 'von_mises', pr, None, is_save_model_init_file=False, is_check_su_fail=True)
    t = c.real('t', (), 0.0, 0.05)
    x = torch.stack((torch.zeros(3), t * torch.tensor([1.0, -1.0, 0.0])))
    # yield at t = 0.01443...
    c.assume(torch.logical_or(t > 0.016, t < 0.0144))
    if bool(t > 0.016):
        c.raises('failed update reported', RuntimeError, m, x)
    else:
        y = m(x)
        c.eq('elastic response', y[1], 80.0 * x[1])


def failure_kept(c):
    """without the check a failed path does not raise, also after reloading"""
    d = os.path.join(os.environ['SYM_SCRATCH'], 'rcf')
    os.makedirs(d, exist_ok=True)
    pr = dict(p12.params('linear', {}), hardening_law=stuck_law)
    m = RCM(3, 3, {}, 'infinitesimal', 1, 'von_mises', pr, d, is_check_su_fail=False)
    r = RCM.init_model_from_file(model_directory=d)
    t = c.real('t', (), 0.016, 0.05)
    x = torch.stack((torch.zeros(3), t * torch.tensor([1.0, -1.0, 0.0])))
    y, z = m(x), r(x)
    c.true('shape', tuple(y.shape) == tuple(z.shape))
    c.true('restored model responds the same', bool(torch.isnan(y).any()) == bool(torch.isnan(z).any()))


def failure_batch(c):
    """one failing path among several is reported, whichever it is"""
    pr = dict(p12.params('linear', {}), hardening_law=stuck_law)
    m = RCM(3, 3, {}, 'infinitesimal', 1, 'von_mises', pr, None, is_save_model_init_file=False, is_check_su_fail=True)
    t = [c.real(f't{i}', (), 0.0, 0.05) for i in range(2)]
    u = [c.real(f'u{i}', (), 0.0, 0.01) for i in range(2)]
    w = torch.tensor([1.0, -1.0, 0.0])
    x = torch.stack([torch.stack((torch.zeros(3), t[i] * w, u[i] * w)) for i in range(2)], dim=1)
    for s in t:
        c.assume(torch.logical_or(s > 0.016, s < 0.0144))
    if bool(t[0] > 0.016) or bool(t[1] > 0.016):
        c.raises('failed update reported', RuntimeError, m, x)
    else:
        c.eq('elastic response', m(x), 80.0 * x)


def unsynced(name):
    """material parameters are taken over from the learnable ones only when asked, also after reloading"""
    def body(c):
        d = os.path.join(os.environ['SYM_SCRATCH'], 'rcu')
        os.makedirs(d, exist_ok=True)
        lp = {'E': {'initial_value': 120.0, 'bounds': (50.0, 150.0)}}
        m = RCM(3, 3, lp, 'infinitesimal', 1, name, pars(name), d, is_auto_sync_parameters=False)
        r = RCM.init_model_from_file(model_directory=d)
        ref = wrapper(name, 1, 3)
        x = path(c, 'x', 1, 1, False, (0.03125,))
        y = m(x)
        c.eq('own parameters', y, ref(x))
        c.eq('restored model responds the same', r(x), y)
        m.sync_material_model_parameters()
        q = RCM(3, 3, {}, 'infinitesimal', 1, name, dict(pars(name), E=120.0), None, is_save_model_init_file=False)
        c.eq('learnable parameters after synchronisation', m(x), q(x), tol=1e-6)
    return body


def saved(name):
    def body(c):
        d = os.path.join(os.environ['SYM_SCRATCH'], 'rc')
        os.makedirs(d, exist_ok=True)
        feats = {'acc_p_strain': 1}
        lp = {'E': {'initial_value': 100.0, 'bounds': (50.0, 150.0)}}
        m = RCM(3, 4, lp, 'infinitesimal', 1, name, pars(name), d, state_features_out=feats,
                is_normalized_parameters=True, is_save_model_init_file=True)
        r = RCM.init_model_from_file(model_directory=d)
        x = path(c, 'x', 1, 1, False, (0.03125,))
        c.eq('restored model responds the same', r(x), m(x))
        c.true('settings restored', r.is_normalized_parameters and r.get_material_model_name() == name)
        c.raises('no file', RuntimeError, RCM.init_model_from_file, os.path.join(d, 'nope'))
    return body


def cases(tier):
    k = 0 if tier == 'quick' else 1
    out = [Case('rejections', reject), Case('failed updates', failure), Case('failed updates unchecked', failure_kept),
           Case('failed updates batch', failure_batch)]
    for pt in (1, 4):
        out.append(Case(f'elastic {pt}', respond('elastic', pt, 3, {}, True)))
        out.append(Case(f'elastic {pt} strain output', respond('elastic', pt, 2, {'e_strain_mf': 3 if pt == 1 else 6}, True)))
        out.append(Case(f'elastic {pt} batch', batch('elastic', pt, 2, {}, True)))
        for name in ('von_mises', 'von_mises_mixed', 'drucker_prager'):
            for v in ('', '_vmap'):
                o = {'tiny': '1e-7'} if v else {}
                f = {'acc_p_strain': 1, 'e_strain_mf': 3 if pt == 1 else 6} if pt == 1 else {'acc_p_strain': 1}
                out.append(Case(f'{name}{v} {pt}', respond(name + v, pt, 1 + k, f, False, () if k else (0.03125,)), dict(o),
                                bounds='one strain direction'))
                if pt == 1 or k:
                    out.append(Case(f'{name}{v} {pt} batch', batch(name + v, pt, 1 + k, {'acc_p_strain': 1}), dict(o),
                                    bounds='one strain direction'))
    for v in ('', '_vmap'):
        out.append(Case(f'saved model von_mises{v}', saved('von_mises' + v), {'tiny': '1e-7'} if v else {}))
    for name in ('elastic', 'von_mises', 'drucker_prager'):
        out.append(Case(f'not synchronised {name}', unsynced(name)))
    return out
