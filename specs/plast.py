"""shared parts of the plasticity specifications (independent of the repository code)"""
import torch
from .common import *


def order(pt):
    return S2 if pt == 1 else S3


def old_state(c, model, pt, scale, acc_hi=1.0, radial=None):
    """arbitrary previous state and strain increment, parametrised by the trial elastic strain
    (old elastic strain = trial - increment)"""
    s = dict(model.state_init())
    n = 2 if pt == 1 else 3
    inc = symt(c, 'd', n, -scale, scale)
    t = None if radial is None else c.real('t', (), 0.001, scale)
    et = symt(c, 'et', n, -scale, scale) if radial is None else t * radial[:n, :n]
    s['e_strain_mf'] = kelvin(et - inc, order(pt))
    s['strain_mf'] = c.real('so', (n * (n + 1) // 2,), -10 * scale, 10 * scale)
    s['stress_mf'] = c.real('sg', (n * (n + 1) // 2,), -1, 1)
    s['acc_p_strain'] = c.real('ao', (), 0, acc_hi)
    if pt == 1:
        s['e_strain_33'] = c.real('eo33', (), -scale, scale) if radial is None else t * radial[2, 2]
    return s, inc


def full(v, v33, pt):
    """3x3 tensor from the stored in-plane (plus 33) or 3D form"""
    if pt == 1:
        return embed(unkelvin(v, S2, 2), v33)
    return unkelvin(v, S3, 3)


def inc3(inc, pt):
    return embed(inc) if pt == 1 else inc


def hooke(E, v, e):
    lam, mu = E * v / ((1.0 + v) * (1.0 - 2.0 * v)), E / (2.0 * (1.0 + v))
    return 2.0 * mu * e + lam * tr(e) * torch.eye(3)


def comps(t):
    """the six different components of a symmetric tensor"""
    return torch.stack([t[0, 0], t[1, 1], t[2, 2], t[0, 1], t[1, 2], t[0, 2]])


def snap(s):
    return {k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in s.items()}


class AnyLaw:
    """an arbitrary hardening law: every new argument gets free values (yield stress, slope),
    the same argument always the same ones"""

    def __init__(self, c, n, ylo=0.5, yhi=10.0, hlo=0.0, hhi=200.0, tag=''):
        self.c, self.n, self.b, self.seen, self.tag = c, n, (ylo, yhi, hlo, hhi), [], tag

    def __call__(self, par, acc, is_check_data=False):
        a = torch.as_tensor(acc).reshape(())
        for arg, y, h in self.seen:
            if same_value(self.c, arg, a):
                return y, h
        k = len(self.seen)
        if k >= self.n:
            # bound on the number of different arguments (iterations)
            self.c.assume(torch.tensor(False))
        y = self.c.real(f'y{self.tag}{k}', (), self.b[0], self.b[1])
        h = self.c.real(f'h{self.tag}{k}', (), self.b[2], self.b[3])
        self.seen.append((a.clone(), y, h))
        return y, h

    def value(self, acc):
        return self(None, acc)[0]


def same_value(c, a, b):
    """identical on the current path (by normal form), no forking"""
    if c.symbolic:
        from symtorch import explore, expr as X, tensor as T
        e = explore.CUR.simplify(X.eq(T.A(a).reshape(-1)[0], T.A(b).reshape(-1)[0]))
        return e is X.TRUE
    x, y = float(a), float(b)
    return x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)) or (x != x and y != y)


def initial(make, pt, extra=()):
    """the initial state: no strain, no stress, no plastic flow, nothing shared"""
    def body(c):
        x = c.real('x', ())
        n = 3 if pt == 1 else 6
        m = make(pt)

        def check(s):
            for k in ('e_strain_mf', 'strain_mf', 'stress_mf') + tuple(extra):
                c.eq('zero initial ' + k, s[k], torch.zeros(s[k].shape if k in extra else (n,)) * x)
            c.eq('zero plastic strain', s['acc_p_strain'], torch.zeros(()) * x)
            c.true('flags', not any(bool(v) for k, v in s.items() if k.startswith('is_')) and {'is_plast', 'is_su_fail'} <= set(s))
            c.true('33 components', ('e_strain_33' in s and 'stress_33' in s) == (pt == 1))
        s = m.state_init()
        check(s)
        for k in ('e_strain_mf', 'strain_mf', 'stress_mf') + tuple(extra):
            s[k] += 1.0
            check(dict(s, **{k: s[k] - 1.0}))
            s[k] -= 1.0
        s['e_strain_mf'] += 1.0
        check(m.state_init())
    return body
