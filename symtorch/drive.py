"""Driver: explores a case (a body over symbolic inputs), discharges its
assertions with z3, replays counterexamples on the real code."""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import torch
import z3
from . import expr as X, num, explore, tensor as T
from .explore import Explorer, Inconclusive, PathInfeasible, Budget, STATS
from .poly import TooBig

REPO = os.environ.get('HOOKEAI_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'hookeai')


class Case:
    def __init__(self, name, body, opts=None, bounds='', group=None, tier='quick'):
        self.name, self.body, self.opts, self.bounds = name, body, dict(opts or {}), bounds
        self.tier = tier


class Reject(Exception):
    """replay input outside the assumptions"""


class Fail(Exception):
    pass


# ---------------------------------------------------------------------------------
class Ctx:
    """symbolic side of the specification interface"""
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.asserts = []      # (label, kind, a, b, E condition, tol)
        self.inputs = {}       # name -> (lo, hi) for reals, 'bool'
        self.outs = []

    # inputs
    def real(self, name, shape=(), lo=None, hi=None, ne0=False, dtype=torch.float64):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(tuple(shape)):
            n = name + ''.join(f'_{k}' for k in i)
            v = X.var(n)
            if n not in self.inputs:
                self.inputs[n] = (lo, hi)
                self.ex.bounds[n] = tuple(
                    None if b is None or type(X.const(b).val) is not Fraction else X.const(b).val
                    for b in (lo, hi))
                if lo is not None:
                    self.ex.assume(X.le(X.const(lo), v))
                if hi is not None:
                    self.ex.assume(X.le(v, X.const(hi)))
                if ne0:
                    self.ex.assume(X.not_(X.eq(v, X.ZERO)))
            a[i] = v
        return T.make(a, dtype)

    def npreal(self, name, shape=(), lo=None, hi=None):
        return self.real(name, shape, lo, hi).numpy()

    def flag(self, name):
        """symbolic boolean, decided by forking; returns a python bool"""
        v = X.boolvar(name)
        self.inputs[name] = 'bool'
        return self.ex.decide(v)

    def choice(self, name, n):
        """symbolic integer in 0..n-1, decided by forking"""
        for i in range(n - 1):
            if self.flag(f'{name}.is{i}'):
                return i
        return n - 1

    def sym_const(self, t):
        return t

    def assume(self, cond):
        a = T.A(cond).reshape(-1)
        for e in a:
            e = X.r2b(e)
            if e.isbool and e.op == 'and':
                pass
            e = self.ex.simplify(e)
            self.ex.assume(e)

    def assume_ne0(self, t):
        for e in T.A(t).reshape(-1):
            self.ex.assume_ne0(e)

    # assertions
    def _pair(self, a, b):
        a, b = T.real_e(T.A(a)), T.real_e(T.A(b))
        if a.shape != b.shape:
            if a.ndim == 0 or b.ndim == 0:
                a, b = np.broadcast_arrays(a, b)
            else:
                self.asserts.append(('shape', 'true', None, None, X.FALSE, None))
                return [], []
        return a.reshape(-1), b.reshape(-1)

    def eq(self, label, a, b, tol=None):
        """a equals b (exactly, over the reals; tol applies to the float replay)"""
        x, y = self._pair(a, b)
        for u, v in zip(x, y):
            if X.is_special(u) or X.is_special(v):
                self.asserts.append((label, 'true', u, v, X.bconst(u is v), tol))
            else:
                self.asserts.append((label, 'eq', u, v, X.eq(u, v), tol))

    def close(self, label, a, b, tol):
        """|a - b| <= tol for every value"""
        x, y = self._pair(a, b)
        t = T.A(tol).reshape(-1)
        for i, (u, v) in enumerate(zip(x, y)):
            k = t[i] if len(t) > 1 else t[0]
            if X.is_special(u) or X.is_special(v):
                self.asserts.append((label, 'true', u, v, X.bconst(u is v), tol))
                continue
            d = X.sub(u, v)
            self.asserts.append((label, 'close', u, v,
                                 X.and_(X.le(d, k), X.le(X.neg(k), d)), k))

    def le(self, label, a, b, tol=None):
        x, y = self._pair(a, b)
        for u, v in zip(x, y):
            self.asserts.append((label, 'le', u, v, X.le(u, v), tol))

    def true(self, label, cond):
        if isinstance(cond, (bool, np.bool_)):
            self.asserts.append((label, 'true', None, None, X.bconst(bool(cond)), None))
            return
        for e in T.A(cond).reshape(-1):
            self.asserts.append((label, 'true', None, None, X.r2b(e), None))

    def finite(self, label, a):
        for e in T.A(a).reshape(-1):
            self.asserts.append((label, 'true', None, None, X.bconst(not X.is_special(e)), None))

    def isnan(self, label, a):
        for e in T.A(a).reshape(-1):
            self.asserts.append((label, 'true', None, None, X.bconst(e is X.NAN), None))

    def same(self, label, a, b):
        """structural equality of non-tensor values"""
        self.true(label, bool(a == b))

    def jac(self, f, x):
        """y = f(x) and dy/dx, x a tensor of input variables"""
        y = f(x)
        xs = T.A(x)
        ys = T.A(y)
        out = np.empty(ys.shape + xs.shape, dtype=object)
        for j in np.ndindex(xs.shape):
            memo = {}
            for i in np.ndindex(ys.shape):
                out[i + j] = X.diff(ys[i], xs[j], memo)
        return y, T.make(out, torch.float64)

    def jacat(self, f, x):
        """dy/dx of y = f(x) (no branching) at the point x, any tensor"""
        vs = [X.var(f'jac!{j}') for j in range(x.numel())]
        explore.CUR.trust_roots = True
        try:
            ys = T.A(f(T.make(np.array(vs, dtype=object).reshape(tuple(x.shape)), torch.float64)))
        finally:
            explore.CUR.trust_roots = False
        env = {v.id: a for v, a in zip(vs, T.A(x).reshape(-1))}
        out, sm = np.empty(ys.shape + tuple(x.shape), dtype=object), {}
        for j, v in zip(np.ndindex(tuple(x.shape)), vs):
            memo = {}
            for i in np.ndindex(ys.shape):
                out[i + j] = X.subst(X.diff(ys[i], v, memo), env, sm)
        return T.make(out, torch.float64)

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.true(label, True)
            return
        except Inconclusive:
            raise
        self.true(label, False)

    def note(self, *a):
        pass


class RCtx:
    """replay side: same interface over float64 and the unpatched code"""
    symbolic = False

    def __init__(self, env, rng=None, tol=1e-7):
        self.env = env
        self.rng = rng
        self.fails = []
        self.vals = []
        self.tol = tol

    def _get(self, n, lo, hi):
        if n in self.env:
            return float(self.env[n])
        if self.rng is not None:
            a = -3.0 if lo is None else float(lo)
            b = 3.0 if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 6.0
            if hi is None and lo is not None:
                b = a + 6.0
            v = self.rng.uniform(a, b)
        else:
            a, b = (lo, hi)
            v = 0.0
            if lo is not None and v < float(lo):
                v = float(lo)
            if hi is not None and v > float(hi):
                v = float(hi)
        self.env[n] = v
        return v

    def real(self, name, shape=(), lo=None, hi=None, ne0=False, dtype=torch.float64):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape)
        for i in np.ndindex(tuple(shape)):
            n = name + ''.join(f'_{k}' for k in i)
            a[i] = self._get(n, lo, hi)
        return torch.tensor(a, dtype=dtype)

    def npreal(self, name, shape=(), lo=None, hi=None):
        return self.real(name, shape, lo, hi).numpy()

    def flag(self, name):
        if name not in self.env:
            self.env[name] = bool(self.rng.random() < 0.5) if self.rng else False
        return bool(self.env[name])

    choice = Ctx.choice

    def sym_const(self, t):
        return t

    def assume(self, cond):
        if not bool(torch.as_tensor(cond).all()):
            raise Reject()

    def assume_ne0(self, t):
        if bool((torch.as_tensor(t) == 0).any()):
            raise Reject()

    def _pair(self, label, a, b):
        a = torch.as_tensor(np.asarray(a, dtype=np.float64) if not isinstance(a, torch.Tensor) else a)
        b = torch.as_tensor(np.asarray(b, dtype=np.float64) if not isinstance(b, torch.Tensor) else b)
        a, b = a.detach().to(torch.float64), b.detach().to(torch.float64)
        if a.shape != b.shape:
            if a.dim() == 0 or b.dim() == 0:
                a, b = torch.broadcast_tensors(a, b)
            else:
                self.fails.append((label, f'shapes {tuple(a.shape)} vs {tuple(b.shape)}'))
                return None, None
        return a.reshape(-1), b.reshape(-1)

    def _rec(self, label, i, u, v, bad):
        self.vals.append((label, u, v))
        if bad:
            self.fails.append((label, f'[{i}] {u!r} vs {v!r}'))

    def eq(self, label, a, b, tol=None):
        x, y = self._pair(label, a, b)
        if x is None:
            return
        xl, yl = x.tolist(), y.tolist()
        sc = max([abs(v) for v in xl + yl if math.isfinite(v)] + [0.0])
        t = (tol or self.tol) * sc + 1e-10
        for i, (u, v) in enumerate(zip(xl, yl)):
            if not (math.isfinite(u) and math.isfinite(v)):
                bad = not (u == v or (u != u and v != v))
            else:
                bad = abs(u - v) > t
            self._rec(label, i, u, v, bad)

    def close(self, label, a, b, tol):
        x, y = self._pair(label, a, b)
        if x is None:
            return
        tt = torch.as_tensor(tol, dtype=torch.float64).reshape(-1).tolist()
        for i, (u, v) in enumerate(zip(x.tolist(), y.tolist())):
            t = tt[i] if len(tt) > 1 else tt[0]
            bad = not (abs(u - v) <= t * (1 + 1e-6) + 1e-9 * max(abs(u), abs(v)) + 1e-12) \
                and not (u != u and v != v)
            self._rec(label, i, u, v, bad)

    def le(self, label, a, b, tol=None):
        x, y = self._pair(label, a, b)
        if x is None:
            return
        for i, (u, v) in enumerate(zip(x.tolist(), y.tolist())):
            t = (tol or self.tol) * max(abs(u), abs(v)) + 1e-10 \
                if math.isfinite(u) and math.isfinite(v) else 0.0
            self._rec(label, i, u, v, not (u <= v + t))

    def true(self, label, cond):
        c = torch.as_tensor(cond).reshape(-1).tolist()
        for i, v in enumerate(c):
            self._rec(label, i, bool(v), True, not v)

    def finite(self, label, a):
        self.true(label, torch.isfinite(torch.as_tensor(a)))

    def isnan(self, label, a):
        self.true(label, torch.isnan(torch.as_tensor(a)))

    def same(self, label, a, b):
        self.true(label, bool(a == b))

    def jac(self, f, x):
        y = f(x.clone())
        J = torch.zeros(tuple(y.shape) + tuple(x.shape), dtype=torch.float64)
        J = J.reshape(max(y.numel(), 1), -1)
        h = 1e-6 * max(1e-3, float(x.abs().max()))
        for j in range(x.numel()):
            xp, xm = x.clone().reshape(-1), x.clone().reshape(-1)
            xp[j] += h
            xm[j] -= h
            yp, ym = f(xp.reshape(x.shape)), f(xm.reshape(x.shape))
            d = (yp - ym) / (2 * h)
            # a kink within the difference stencil: the point is no witness
            kink = float(((yp - y) / h - (y - ym) / h).abs().max()) if y.numel() else 0.0
            if not kink <= 1e-2 * max(float(d.abs().max()), 1e-6):
                raise Reject()
            J[:, j] = d.reshape(-1).detach()
        return y, J.reshape(tuple(y.shape) + tuple(x.shape))

    def jacat(self, f, x):
        return self.jac(f, x)[1]

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.true(label, True)
            return
        self.true(label, False)

    def note(self, *a):
        pass


# ---------------------------------------------------------------------------------
def zval(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def model_env(path, m, inputs):
    env = {}
    for n, b in inputs.items():
        if b == 'bool':
            r = m.eval(z3.Bool('b_' + n), model_completion=True)
            env[n] = bool(z3.is_true(r))
            continue
        i = path.nfs.akey.get(('v', n))
        if i is None or i not in path.zvars:
            lo, hi = b
            v = 0.0
            if lo is not None and v < float(lo):
                v = float(lo)
            if hi is not None and v > float(hi):
                v = float(hi)
            env[n] = v
        else:
            v = float(zval(m, path.zvars[i]))
            lo, hi = b
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
            env[n] = v
    return env


def reset_global():
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(0)
    np.random.seed(0)
    random.seed(0)


def replay(case, env, rng=None):
    """run the body on the real code; returns (status, detail, ctx)
    status: ok | fail | exception | reject"""
    reset_global()
    c = RCtx(env, rng)
    try:
        case.body(c)
    except Reject:
        return 'reject', None, c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(SRC)]
        loc = f'{os.path.relpath(inrepo[-1].filename, REPO)}:{inrepo[-1].name}' if inrepo else 'harness'
        return 'exception', f'{type(e).__name__}: {e} at {loc}', c
    if c.fails:
        return 'fail', c.fails, c
    return 'ok', None, c


class FnTrace:
    """collect the names of /repo functions executed"""

    def __init__(self):
        self.names = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(SRC):
                self.names.add(os.path.relpath(co.co_filename, SRC) + ':' + co.co_qualname)


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'pass'      # pass | violation | inconclusive
        self.detail = []
        self.paths = 0
        self.infeasible = 0
        self.witnesses = 0
        self.validated = 0
        self.boundary = 0
        self.asserts = 0
        self.identities = 0
        self.cex = None
        self.fns = set()
        self.wall = 0.0
        self.bounds = ''
        self.stats = {}


def robust(conds, env, memo, eps=1e-6):
    for c in conds:
        k, neg = c, False
        while k.op == 'not':
            k, neg = k.args[0], not neg
        if k.op in ('<', '<=', '=='):
            a = X.evalf(k.args[0], env, memo)
            b = X.evalf(k.args[1], env, memo)
            if not (math.isfinite(a) and math.isfinite(b)):
                return False
            s = eps * max(abs(a), abs(b), 1e-6)
            if k.op == '==':
                if not neg:
                    return False
                if abs(a - b) <= s:
                    return False
            else:
                d = b - a
                if neg:
                    d = -d
                if d <= s:
                    return False
        elif k.op == 'bv':
            if bool(env.get(k.val, False)) == neg:
                return False
        elif k.op in ('and', 'or', 'true', 'false'):
            if bool(X.evalf(k, env, memo)) == neg:
                return False
    return True


def run_case(case, deadline=None, known=None):
    t_start = time.time()
    res = Result(case.name)
    res.bounds = case.bounds
    opts = case.opts
    s0 = dict(STATS)
    budget = opts.get('wall_s', 400)
    X.TINY = Fraction(opts['tiny']) if 'tiny' in opts else None
    deadline = min(deadline or 1e18, t_start + budget)
    stack = [[]]
    first = True
    try:
        while stack:
            if time.time() > deadline:
                inconclusive(case, res, 'time budget exhausted with paths unexplored')
                break
            prefix = stack.pop()
            if res.paths + res.infeasible >= opts.get('max_paths', 3000):
                inconclusive(case, res, f'more than {opts.get("max_paths", 3000)} paths')
                break
            reset_global()
            exr = Explorer(prefix, opts, [])
            explore.CUR = exr
            ctx = Ctx(exr)
            tracer = FnTrace() if first else None
            err = None
            try:
                with T.Patched():
                    if tracer:
                        sys.setprofile(tracer)
                    try:
                        case.body(ctx)
                    finally:
                        if tracer:
                            sys.setprofile(None)
                            res.fns |= tracer.names
            except PathInfeasible:
                res.infeasible += 1
                stack.extend(exr.alts)
                continue
            except Budget as e:
                inconclusive(case, res, f'path budget: {e}')
                break
            except Inconclusive as e:
                err = ('inc', e)
            except TooBig as e:
                err = ('inc', Inconclusive('normal form too large'))
            except RecursionError as e:
                err = ('inc', e)
            except Exception as e:
                err = ('exc', e)
            stack.extend(exr.alts)
            first = False
            res.paths += 1
            if err is not None:
                if os.environ.get('SYM_DEBUG'):
                    traceback.print_exception(err[1])
                if err[0] == 'inc':
                    inconclusive(case, res, f'{type(err[1]).__name__}: {err[1]}')
                    break
                if not handle_exception(case, res, exr, ctx, err[1]):
                    break
                continue
            prove(case, res, exr, ctx)
            if res.status != 'pass':
                break
    finally:
        explore.CUR = None
    if res.status == 'pass' and res.paths == 0:
        inconclusive(case, res, 'vacuous: no feasible path')
    if res.status == 'pass' and res.witnesses == 0:
        # look for a concrete input inside the assumptions
        rng = random.Random(1)
        for _ in range(200):
            st, d, c = replay(case, {}, rng)
            if st == 'ok':
                res.witnesses += 1
                break
            if st in ('fail', 'exception'):
                violation(case, res, st, d, c.env, 'concrete witness run')
                break
        else:
            inconclusive(case, res, 'vacuous: no witness found')
    if res.status == 'pass' and res.asserts == 0:
        inconclusive(case, res, 'no assertion reached')
    res.wall = time.time() - t_start
    res.stats = {k: STATS[k] - s0.get(k, 0) for k in STATS}
    for k in ('_raw_unknown', '_raw_s', '_probed'):
        res.__dict__.pop(k, None)
    return res


def violation(case, res, kind, detail, env, how):
    res.status = 'violation'
    res.cex = {'case': case.name, 'kind': kind, 'how': how,
               'inputs': {k: (v if isinstance(v, bool) else float(v)) for k, v in env.items()},
               'detail': [str(d) for d in detail][:12] if isinstance(detail, list) else [str(detail)]}


def inconclusive(case, res, why):
    """the solver gave no verdict: look for a concrete failure before giving up"""
    if res.status == 'violation':
        return
    if falsify(case, res, why):
        return
    res.status = 'inconclusive'
    res.detail.append(why)


def falsify(case, res, why, n=None):
    """search concrete inputs within the assumptions for a failing run of the real code"""
    n = n or case.opts.get('falsify', 60)
    rng = random.Random(12345)
    t0 = time.time()
    for _ in range(n):
        if time.time() - t0 > 60:
            break
        st, d, c = replay(case, {}, rng)
        if st in ('fail', 'exception'):
            violation(case, res, st, d, c.env, f'concrete run ({why})')
            return True
    return False


def handle_exception(case, res, exr, ctx, e):
    """an exception escaped on a path: replay a witness of the path"""
    r, m = exr.check([], 10000, want_model=True)
    if r == z3.unsat:
        res.infeasible += 1
        res.paths -= 1
        return True
    tb = ''.join(traceback.format_exception_only(type(e), e)).strip()
    if r == z3.sat:
        env = model_env(exr, m, ctx.inputs)
        st, d, c = replay(case, dict(env))
        if st in ('exception', 'fail'):
            violation(case, res, st, d, c.env, 'path witness')
            return False
    fr = traceback.extract_tb(e.__traceback__)[-1]
    inconclusive(case, res, f'exception in symbolic execution not reproduced: {tb} '
                            f'({os.path.basename(fr.filename)}:{fr.lineno})')
    return False


def margin_cond(a, m):
    """negated assertion with margin m"""
    label, kind, u, v, cond, tol = a
    if m is None or u is None or v is None or kind == 'true':
        return X.not_(cond)
    k = X.const(m)
    d = X.sub(u, v)
    if kind == 'eq':
        return X.or_(X.lt(k, d), X.lt(d, X.neg(k)))
    if kind == 'close':
        kk = X.add(tol, X.mul(k, tol)) if isinstance(tol, X.E) else X.const(tol)
        return X.or_(X.lt(kk, d), X.lt(d, X.neg(kk)))
    if kind == 'le':
        return X.lt(k, d)
    return X.not_(cond)


def prove(case, res, exr, ctx):
    opts = case.opts
    tmo = opts.get('prove_ms', 20000)
    pend = []
    for a in ctx.asserts:
        res.asserts += 1
        STATS['asserts'] += 1
        c = exr.simplify(a[4])
        if c is X.TRUE:
            res.identities += 1
            continue
        pend.append(a[:4] + (c,) + a[5:])
    # feasibility witness and translation validation
    wit = None
    r, m = exr.check([], opts.get('witness_ms', 8000), want_model=True)
    if r == z3.unsat:
        res.infeasible += 1
        res.paths -= 1
        return
    if r == z3.sat:
        wit = model_env(exr, m, ctx.inputs)
        res.witnesses += 1
        validate(case, res, exr, ctx, wit)
        if res.status != 'pass':
            return
    # one query: some assertion fails on this path
    if not opts.get('noraw'):
        raw_check(case, res, exr, ctx)
        if res.status != 'pass':
            return
    if not pend:
        return

    def query(asserts, lets, ms, margin=None, want=False):
        atoms, roots = set(), set()
        zs = []
        for a in asserts:
            e = margin_cond(a, margin)
            zs.append(exr.zbool(e, atoms, roots))
        return exr.check([z3.Or(zs)], ms, lets=lets, atoms=atoms, roots=roots, want_model=want)

    try:
        haslet = any(k == 'let' for k, _, _ in exr.nfs.atoms)
        r, m = z3.unknown, None
        if len(pend) <= opts.get('batch', 40):
            r, m = query(pend, not haslet, tmo, want=True)
            if r != z3.unsat and haslet:
                r, m = query(pend, True, tmo, want=True)
        if r == z3.unsat:
            return
        left = pend
        if r == z3.unknown:
            left = []
            for a in pend:
                r1, m1 = query([a], not haslet, tmo, want=True)
                if r1 != z3.unsat and haslet:
                    r1, m1 = query([a], True, tmo, want=True)
                if r1 == z3.unsat:
                    continue
                left.append((a, r1, m1))
                if r1 == z3.sat:
                    break
            if not left:
                return
            sat = [x for x in left if x[1] == z3.sat]
            if sat:
                m, r = sat[0][2], z3.sat
                left = [sat[0][0]]
            else:
                left = [x[0] for x in left]
    except TooBig:
        inconclusive(case, res, 'normal form too large while proving')
        return
    labels = sorted({a[0] for a in left})
    if r == z3.sat:
        env = model_env(exr, m, ctx.inputs)
        st, d, c = replay(case, dict(env))
        if st in ('fail', 'exception'):
            violation(case, res, st, d, c.env, 'solver model')
            return
        for mg in (Fraction(1), Fraction(1, 100), Fraction(1, 10**4), Fraction(1, 10**6)):
            r2, m2 = query(left, True, min(tmo, 10000), margin=mg, want=True)
            if r2 == z3.sat:
                env2 = model_env(exr, m2, ctx.inputs)
                st, d, c = replay(case, dict(env2))
                if st in ('fail', 'exception'):
                    violation(case, res, st, d, c.env, f'solver model (margin {mg})')
                    return
        inconclusive(case, res, f'counterexample did not reproduce: {labels} at {env}')
        return
    inconclusive(case, res, f'solver unknown on {labels}')


def validate(case, res, exr, ctx, env):
    """symbolic outputs evaluated at the witness vs the real run at the witness"""
    st, d, c = replay(case, dict(env))
    memo = {}
    rb = robust(exr.conds, env, memo)
    if not rb:
        res.boundary += 1
        if st in ('fail', 'exception') and case.opts.get('strict_boundary'):
            violation(case, res, st, d, c.env, 'path witness')
        elif st in ('fail', 'exception') and not getattr(res, '_probed', False):
            # a failure at a boundary may be rounding: look at inputs in the interior
            res._probed = True
            falsify(case, res, 'failure at a path boundary', 12)
        return
    if st in ('fail', 'exception'):
        violation(case, res, st, d, c.env, 'path witness')
        return
    if st != 'ok':
        return
    res.validated += 1
    if case.opts.get('novalidate'):
        return
    sv = [(a[0], a[2], a[3]) for a in ctx.asserts if a[1] in ('eq', 'close', 'le')
          and a[2] is not None and not X.is_special(a[2]) and not X.is_special(a[3])]
    rv = [v for v in c.vals if not isinstance(v[1], bool)]
    if len(sv) != len(rv):
        return
    tol = case.opts.get('val_tol', 1e-5)
    for (l, u, v), (l2, u2, v2) in zip(sv, rv):
        for p, q in ((u, u2), (v, v2)):
            w = X.evalf(p, env, memo)
            if w != w:
                continue
            if abs(w - q) > tol * max(abs(w), abs(q)) + 1e-7:
                inconclusive(case, res, f'encoding mismatch on {l}: {w} vs real {q} at {env}')
                return


# ---- raw cross-check: z3 decides the un-normalised assertions -----------------------
def zraw(e, memo, aux):
    r = memo.get(e.id)
    if r is not None:
        return r
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if x.id in memo:
            continue
        if not done:
            st.append((x, True))
            st.extend((y, False) for y in x.args if y.id not in memo)
            continue
        a = [memo[y.id] for y in x.args]
        op = x.op
        if op == 'c':
            v = x.val
            if type(v) is Fraction:
                z = z3.Q(v.numerator, v.denominator)
            else:
                z = None
                for k, w in v.d.items():
                    t = z3.Q(w.numerator, w.denominator)
                    if k != 1:
                        key = ('root', k)
                        if key not in memo:
                            memo[key] = z3.Real(f'rt{k}')
                            aux += [memo[key] > 0, memo[key] * memo[key] == k]
                        t = t * memo[key]
                    z = t if z is None else z + t
        elif op == 'v':
            z = z3.Real('x_' + x.val)
        elif op == 'bv':
            z = z3.Bool('b_' + x.val)
        elif op == '+':
            z = a[0] + a[1]
        elif op == '*':
            z = a[0] * a[1]
        elif op == '/':
            z = z3.Real(f'q{x.id}')
            aux += [z * a[1] == a[0], a[1] != 0]
        elif op == 'sqrt':
            z = z3.Real(f's{x.id}')
            aux += [z >= 0, z * z == a[0]]
        elif op == 'fn':
            z = z3.Function(f'f_{x.val}', *([z3.RealSort()] * (len(a) + 1)))(*a)
        elif op == 'ite':
            z = z3.If(a[0], a[1], a[2])
        elif op == '<':
            z = a[0] < a[1]
        elif op == '<=':
            z = a[0] <= a[1]
        elif op == '==':
            z = a[0] == a[1]
        elif op == 'not':
            z = z3.Not(a[0])
        elif op == 'and':
            z = z3.And(a[0], a[1])
        elif op == 'or':
            z = z3.Or(a[0], a[1])
        elif op in ('true', 'false'):
            z = z3.BoolVal(op == 'true')
        else:
            raise ValueError(op)
        memo[x.id] = z
    return memo[e.id]


def raw_check(case, res, exr, ctx):
    """hand z3 the assertions as executed, without the normaliser"""
    if res.__dict__.setdefault('_raw_unknown', 0) >= 2 or \
            res.__dict__.setdefault('_raw_s', 0.0) > case.opts.get('raw_s', 10):
        STATS['raw_unknown'] = STATS.get('raw_unknown', 0) + 1
        return
    t0 = time.time()
    try:
        memo, aux = {}, []
        zs = [z3.Not(zraw(a[4], memo, aux)) for a in ctx.asserts if a[4] is not X.TRUE]
        cs = [zraw(c, memo, aux) for c in exr.conds]
    except (ValueError, RecursionError, z3.Z3Exception):
        STATS['raw_unknown'] = STATS.get('raw_unknown', 0) + 1
        return
    if not zs:
        STATS['raw_unsat'] = STATS.get('raw_unsat', 0) + 1
        return
    s = z3.Solver()
    s.set('timeout', case.opts.get('raw_ms', 1500))
    s.add(cs + aux + [z3.Or(zs)])
    STATS['queries'] += 1
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    res._raw_s += time.time() - t0
    if r == z3.unsat:
        STATS['unsat'] += 1
        STATS['raw_unsat'] = STATS.get('raw_unsat', 0) + 1
    elif r == z3.unknown:
        STATS['unknown'] += 1
        res._raw_unknown += 1
        STATS['raw_unknown'] = STATS.get('raw_unknown', 0) + 1
    else:
        STATS['sat'] += 1
        m = s.model()
        env = {}
        for n, b in ctx.inputs.items():
            if b == 'bool':
                env[n] = z3.is_true(m.eval(z3.Bool('b_' + n), model_completion=True))
            else:
                v = float(zval(m, z3.Real('x_' + n)))
                v = max(v, float(b[0])) if b[0] is not None else v
                env[n] = min(v, float(b[1])) if b[1] is not None else v
        st, d, c = replay(case, dict(env))
        if st in ('fail', 'exception'):
            violation(case, res, st, d, c.env, 'solver model')
            return
        # not reproduced in float64 at this model: the normalised query decides
        STATS['raw_unknown'] = STATS.get('raw_unknown', 0) + 1
