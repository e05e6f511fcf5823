"""State update contract: caller-owned data, layout, precision"""
import torch
from .common import *
from .plast import *
from . import p12, p13, p14
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.hardening import get_hardening_law
from utilities import type_conversion as tc

OUTSIDE = 'linear hardening laws, one trial strain direction, E=100, v=0.25; rounding of float32'
DIR = torch.tensor([[1.0, 0.5, 0.0], [0.5, -0.5, 0.0], [0.0, 0.0, 0.25]])


def make(kind, pt, **kw):
    if kind == 'Elastic':
        return Elastic('infinitesimal', pt, {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.25}, **kw)
    if kind.startswith('VonMisesMixed'):
        return getattr(p13, kind)('infinitesimal', pt, p13.params(p13.lin(2.0, 10.0), p13.lin(0.0, 30.0)), **kw)
    if kind.startswith('VonMises'):
        return getattr(p12, kind)('infinitesimal', pt, p12.params('linear', {'s0': 2.0, 'a': 10.0}), **kw)
    return getattr(p14, kind)('infinitesimal', pt, p14.params(
        get_hardening_law('linear'), {'s0': torch.tensor(2.0), 'a': torch.tensor(10.0)}), **kw)


KINDS = ('Elastic', 'VonMises', 'VonMisesVMAP', 'VonMisesMixed', 'VonMisesMixedVMAP',
         'DruckerPrager', 'DruckerPragerVMAP')


def flat(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update({f'{k}.{a}': b for a, b in flat(v).items()})
        else:
            out[k] = v
    return out


def unchanged(c, what, d, ref):
    """same keys, same values"""
    c.true(what + ' keys', set(d) == set(ref))
    for k in ref:
        if isinstance(ref[k], torch.Tensor):
            c.true(f'{what} dtype', d[k].dtype == ref[k].dtype and d[k].shape == ref[k].shape)
            if ref[k].dtype == torch.bool:
                c.true(what, torch.all(d[k] == ref[k]))
            else:
                c.eq(what, d[k], ref[k])
        else:
            c.true(what, d[k] is ref[k] or d[k] == ref[k])


def state(c, m, kind, pt, dtype):
    """any previous state on one strain direction"""
    n = 2 if pt == 1 else 3
    s = dict(m.state_init())
    if kind == 'Elastic':
        inc = c.real('i', (), -0.02, 0.02, dtype=dtype)
        s['e_strain_mf'] = kelvin(c.real('t', (), -0.05, 0.05, dtype=dtype) * DIR[:n, :n].to(dtype), order(pt))
    else:
        inc = c.real('i', (), -0.02, 0.02, dtype=dtype)
        t = c.real('t', (), 0.001, 0.05, dtype=dtype)
        s['e_strain_mf'] = kelvin((t - inc) * DIR[:n, :n].to(dtype), order(pt))
        s['acc_p_strain'] = c.real('a', (), 0, 1, dtype=dtype)
        if pt == 1:
            s['e_strain_33'] = t * DIR[2, 2]
    k = n * (n + 1) // 2
    s['strain_mf'] = c.real('so', (k,), -0.5, 0.5, dtype=dtype)
    s['stress_mf'] = c.real('sg', (k,), -1, 1, dtype=dtype)
    if 'back_stress_mf' in s:
        b = c.real('b', (), -1, 1, dtype=dtype)
        s['back_stress_mf'] = kelvin(b * DIR[:n, :n].to(dtype), order(pt))
        if pt == 1:
            s['back_stress_33'] = b * DIR[2, 2]
    return s, inc * DIR[:n, :n].to(dtype)


def contract(kind, pt):
    def body(c):
        m = make(kind, pt)
        s, inc = state(c, m, kind, pt, torch.float64)
        ref, rinc = snap(s), inc.clone()
        pref = snap(flat(m.get_model_parameters()))
        new, D = m.state_update(inc, s)
        first = snap(new)
        unchanged(c, 'previous state untouched', s, ref)
        c.eq('strain increment untouched', inc, rinc)
        unchanged(c, 'model parameters untouched', flat(m.get_model_parameters()), pref)
        unchanged_layout(c, new, m.state_init(), torch.float64)
        again, D2 = m.state_update(inc, s)
        unchanged(c, 'same input, same result', again, first)
        if D is not None:
            c.eq('same input, same tangent', D2, D)
    return body


def unchanged_layout(c, new, init, dtype):
    c.true('state variables as initialised', set(new) == set(init))
    for k, v in init.items():
        if not isinstance(v, torch.Tensor):
            c.true('kind of ' + k, isinstance(new[k], bool) == isinstance(v, bool))
            continue
        c.true('shape of ' + k, tuple(new[k].shape) == tuple(v.shape))
        c.true('type of ' + k, new[k].dtype == (torch.bool if v.dtype == torch.bool else dtype))


def precision(kind, pt):
    def body(c):
        keep = torch.get_default_dtype()
        m64 = make(kind, pt)
        s64, inc64 = state(c, m64, kind, pt, torch.float64)
        try:
            torch.set_default_dtype(torch.float32)
            m = make(kind, pt)
            s, inc = {}, inc64.to(torch.float32)
            for k, v in s64.items():
                s[k] = v.to(torch.float32) if isinstance(v, torch.Tensor) and v.dtype != torch.bool else v
            ref, rinc = snap(s), inc.clone()
            pref = snap(flat(m.get_model_parameters()))
            new, D = m.state_update(inc, s)
            c.true('default precision restored', torch.get_default_dtype() == torch.float32)
            unchanged(c, 'previous state untouched', s, ref)
            c.true('increment untouched', inc.dtype == torch.float32)
            unchanged(c, 'model parameters untouched', flat(m.get_model_parameters()), pref)
            unchanged_layout(c, new, m.state_init(), torch.float32)
            if D is not None:
                c.true('tangent precision', D.dtype == torch.float32)
        finally:
            torch.set_default_dtype(keep)
        want, _ = m64.state_update(inc64, s64)
        for k, v in want.items():
            if not isinstance(v, torch.Tensor):
                c.true('same flags in both precisions', new[k] == v)
            elif v.dtype == torch.bool:
                if c.symbolic:
                    c.true('same flags in both precisions', new[k] == v)
            else:
                c.close('same values in both precisions', new[k].to(torch.float64), v, 1e-3)
    return body


def convert(c):
    """conversions of (nested) dictionaries"""
    x, y = c.real('x', (2,)), c.real('y', ())
    fn = get_hardening_law('linear')

    def data():
        return {'t': x.clone(), 'f': y.clone(), 'i': torch.tensor(3), 'b': torch.tensor(True), 's': 'txt',
                'l': fn, 'n': {'t': (2.0 * x), 'm': {'f': y + 1.0, 's': 'deep'}, 'none': None}}
    want = flat(data())
    for name, dt in (('float32', torch.float32), ('float64', torch.float64)):
        f = getattr(tc, 'convert_dict_to_' + name)
        other = torch.float64 if dt == torch.float32 else torch.float32
        src = data()
        src = f(src, is_inplace=False)
        for inplace in (False, True):
            d = data()
            d = {k: v for k, v in d.items()}
            if other == torch.float32:
                d = tc.convert_dict_to_float32(d, is_inplace=False)
            before, inner, deep = dict(d), dict(d['n']), dict(d['n']['m'])
            r = f(d, is_inplace=inplace)
            fr = flat(r)
            c.true('all keys kept', set(fr) == set(want))
            for k, v in want.items():
                if isinstance(v, torch.Tensor) and v.dtype.is_floating_point:
                    c.true('converted ' + k, fr[k].dtype == dt)
                    c.eq('value kept ' + k, fr[k].to(torch.float64), v, tol=1e-3)
                elif isinstance(v, torch.Tensor):
                    c.true('left alone ' + k, fr[k].dtype == v.dtype and bool(fr[k] == v))
                else:
                    c.true('left alone ' + k, fr[k] is v or fr[k] == v)
            if inplace:
                c.true('converted in place', r is d)
            else:
                c.true('source dictionary untouched', r is not d and all(d[k] is before[k] for k in before)
                       and set(d) == set(before))
                c.true('nested dictionaries untouched', all(d['n'][k] is inner[k] for k in inner)
                       and all(d['n']['m'][k] is deep[k] for k in deep))
        t = getattr(tc, 'convert_tensor_to_' + name)
        c.true('tensor converted', t(x.to(other)).dtype == dt)
        c.true('integers kept', t(torch.tensor([1, 2])).dtype == torch.int64)
        c.true('flags kept', t(torch.tensor(True)).dtype == torch.bool)
        c.true('non tensors kept', t('s') == 's')


def numbers(c):
    """numbers become tensors, everything else stays"""
    x = c.real('x', (2,))
    fn = get_hardening_law('linear')
    for inplace in (True, False):
        inner = {'s0': 2, 'pts': x, 'deep': {'q': 0.25}}
        d = {'E': 100.0, 'n': 3, 'sym': 'isotropic', 'law': fn, 'x': x, 'hp': inner, 'none': None}
        r = tc.convert_dict_to_tensor(d, is_inplace=inplace)
        c.true('in place', (r is d) == inplace)
        c.true('keys', set(flat(r)) == {'E', 'n', 'sym', 'law', 'x', 'none', 'hp.s0', 'hp.pts', 'hp.deep.q'})
        f = flat(r)
        for k, v in (('E', 100.0), ('n', 3), ('hp.s0', 2), ('hp.deep.q', 0.25)):
            c.true('number ' + k, isinstance(f[k], torch.Tensor) and float(f[k]) == v)
        c.true('others', f['sym'] == 'isotropic' and f['law'] is fn and f['none'] is None)
        c.eq('tensor', f['x'], x)
        c.eq('tensor', f['hp.pts'], x)
        if not inplace:
            c.true('source kept', d['E'] == 100.0 and not isinstance(d['E'], torch.Tensor)
                   and inner['s0'] == 2 and not isinstance(inner['s0'], torch.Tensor)
                   and inner['deep']['q'] == 0.25 and not isinstance(inner['deep']['q'], torch.Tensor))


def cases(tier):
    out = [Case('precision conversion of dictionaries', convert), Case('numbers to tensors', numbers)]
    for kind in KINDS:
        o = {'tiny': '1e-7'} if 'VMAP' in kind else {}
        for pt in (1, 4):
            out.append(Case(f'{kind} {pt} contract', contract(kind, pt), dict(o)))
            out.append(Case(f'{kind} {pt} precision', precision(kind, pt), dict(o, val_tol=1e-3)))
    return out
