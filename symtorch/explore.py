"""Path exploration by re-execution, with z3 deciding feasibility and assertions."""
import os
import time
from fractions import Fraction
import z3
from . import expr as X, num
from .poly import NF, TooBig, pconst, pkey, padd, BITS, FMASK

CUR = None          # current Explorer run (None outside symbolic execution)
STATS = {'queries': 0, 'solver_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0,
         'identities': 0, 'paths': 0, 'forks': 0, 'asserts': 0}


DUMP = os.environ.get('SYM_DUMP')


class PathInfeasible(BaseException):
    pass


class Inconclusive(Exception):
    pass


class Budget(BaseException):
    pass


def decide(c):
    if c is X.TRUE:
        return True
    if c is X.FALSE:
        return False
    if CUR is None:
        raise RuntimeError('symbolic decision outside exploration')
    return CUR.decide(c)


def nonzero(b):
    if b.op == 'c':
        return num.sign(b.val) != 0
    if CUR is None:
        return True
    return CUR.nonzero(b)


def nonneg(a):
    if CUR is None:
        return True
    return CUR.nonneg(a)


def fork_where():
    return CUR is not None and CUR.opts.get('fork_where', True)


def syntactic_sign(p):
    """+1 if p>0 surely, 0 if p>=0 surely, None unknown (no variable facts)"""
    if not p:
        return 0
    strict = False
    for m, c in p.items():
        if num.sign(c) < 0:
            return None
        mm = m
        while mm:
            if (mm & FMASK) & 1:
                return None
            mm >>= BITS
        if m == 0:
            strict = True
    return 1 if strict else 0


class Path:
    """one execution path: its conditions, normal forms and solver queries"""

    def __init__(self, opts):
        self.opts = opts
        self.conds = []        # E booleans that hold on the path
        self.zvars = {}
        self.roots = {}
        self.possig = {}
        self.known = {}
        self.nfs = NF(limit=opts.get('nf_limit', 20000),
                      let_limit=opts.get('let_limit', 400),
                      positive=self._positive)
        self.zc = []           # translated path conditions
        self.zc_n = 0
        self.axioms = []       # extra z3 axioms per atom kind
        self.bounds = {}       # declared bounds of the input variables
        self._iv = {}

    # ---- z3 translation ------------------------------------------------------
    def _root(self, n):
        v = self.roots.get(n)
        if v is None:
            v = z3.Real(f'root_{n}')
            self.roots[n] = v
        return v

    def _root_defs(self, ns):
        out = []
        for n in ns:
            v = self._root(n)
            import math
            lo = Fraction(math.isqrt(n * 10**16), 10**8)
            out += [v * v == n, v > z3.Q(lo.numerator, lo.denominator),
                    v < z3.Q(lo.numerator + 1 if lo.denominator == 10**8 else
                             int(lo * 10**8) + 1, 10**8 if lo.denominator != 10**8 else lo.denominator)]
        return out

    def zconst(self, c, roots):
        if type(c) is Fraction:
            return z3.Q(c.numerator, c.denominator)
        t = None
        for k, v in c.d.items():
            w = z3.Q(v.numerator, v.denominator)
            if k != 1:
                roots.add(k)
                w = w * self._root(k)
            t = w if t is None else t + w
        return t

    def zatom(self, i, atoms):
        atoms.add(i)
        v = self.zvars.get(i)
        if v is None:
            v = z3.Real(f'a{i}_{self.nfs.atoms[i][2]}')
            self.zvars[i] = v
        return v

    def zpoly(self, p, atoms, roots, fold=True):
        if not p:
            return z3.RealVal(0)
        if fold and self.nfs.rules and len(p) > 5:
            p = self.fold(p)
        terms = []
        for m, c in p.items():
            fs = []
            if not (c == 1 and m):
                fs.append(self.zconst(c, roots))
            i, mm = 0, m
            while mm:
                e = mm & FMASK
                for _ in range(e):
                    fs.append(self.zatom(i, atoms))
                mm >>= BITS
                i += 1
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def fold(self, p):
        """rewrite multiples of a radicand by the square of its root (equivalent, shorter)"""
        f = self.nfs
        for i in sorted(f.rules, reverse=True):
            rad = f.rules[i]
            if len(rad) < 4 or len(rad) > len(p):
                continue
            p = f.fold(p, rad, 2 << (BITS * i))
        return p

    def zbool(self, e, atoms, roots):
        op = e.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'bv':
            return z3.Bool('b_' + str(e.val))
        if op == 'not':
            return z3.Not(self.zbool(e.args[0], atoms, roots))
        if op in ('and', 'or'):
            # flatten
            parts, st = [], [e]
            while st:
                x = st.pop()
                if x.op == op:
                    st.extend(x.args)
                else:
                    parts.append(self.zbool(x, atoms, roots))
            return z3.And(parts) if op == 'and' else z3.Or(parts)
        n, d = self.cmpnf(e)
        if op == '==':
            return self.zpoly(n, atoms, roots) == 0
        n, sg = self._signed(n, d)
        t = self.zpoly(n, atoms, roots)
        if sg < 0:
            t = -t
        return t < 0 if op == '<' else t <= 0

    def cmpnf(self, e):
        """normal form of lhs - rhs"""
        a, b = e.args
        f = self.nfs
        return f.fadd(f.nf(a), f.nf(b), Fraction(-1))

    def _signed(self, n, d):
        """polynomial and sign s with sign(n/d) = sign(s*poly)"""
        sg = 1
        f = self.nfs
        for k, e in d.items():
            if e % 2 == 0:
                continue
            s = self._positive(f.factors[k], f)
            if s is None:
                n = f.pmul(n, f.factors[k])
            else:
                sg *= s
        return n, sg

    def defs(self, atoms, roots, lets=True, done=None, roots_def=True):
        """definitions of the atoms (transitively)"""
        out = []
        done = set() if done is None else done
        f = self.nfs
        work = list(atoms)
        cg = -1
        while True:
            if not work:
                nf = sum(f.atoms[i][0] == 'fn' for i in done)
                if nf < 2 or nf == cg:
                    break
                cg, new = nf, set()
                out += self.congruence(done, new, roots)
                work.extend(j for j in new if j not in done)
                if not work:
                    break
                continue
            i = work.pop()
            if i in done:
                continue
            done.add(i)
            kind, data, name = f.atoms[i]
            new = set()
            v = self.zatom(i, new)
            if kind == 'sqrt':
                out.append(v >= 0)
                if roots_def or len(data[0]) < 4:
                    out.append(v * v == self.zpoly(data[0], new, roots, fold=False))
            elif kind == 'sqrtq':
                (n, d), _ = data
                out += [v >= 0, v * v * self.zpoly(f.denpoly(d), new, roots)
                        == self.zpoly(n, new, roots)]
            elif kind == 'let':
                if not lets:
                    continue
                n, d = data
                if d:
                    out.append(v * self.zpoly(f.denpoly(d), new, roots)
                               == self.zpoly(n, new, roots))
                else:
                    out.append(v == self.zpoly(n, new, roots))
            elif kind == 'ite':
                c, a, b = data.args
                zc = self.zbool(c, new, roots)
                for br, val in ((zc, a), (z3.Not(zc), b)):
                    n, d = f.nf(val)
                    if d:
                        q = v * self.zpoly(f.denpoly(d), new, roots) == self.zpoly(n, new, roots)
                    else:
                        q = v == self.zpoly(n, new, roots)
                    out.append(z3.Implies(br, q))
            elif kind == 'fn':
                out += self.fn_axioms(data, v, new, roots)
            work.extend(j for j in new if j not in done)
        return out

    MONO = ('exp', 'tanh', 'sigmoid', 'log', 'atan', 'erf')

    def congruence(self, done, new, roots):
        """equal arguments give equal values (and order for monotone functions)"""
        f = self.nfs
        groups = {}
        for i in sorted(done):
            kind, data, name = f.atoms[i]
            if kind == 'fn':
                groups.setdefault((data.val, len(data.args)), []).append((i, data))
        out = []
        for (name, k), xs in groups.items():
            if len(xs) * (len(xs) - 1) > 120:
                continue
            for p in range(len(xs)):
                for q in range(p):
                    (i, a), (j, b) = xs[p], xs[q]
                    va, vb = self.zatom(i, set()), self.zatom(j, set())
                    ds = []
                    for x, y in zip(a.args, b.args):
                        n, d = f.fadd(f.nf(x), f.nf(y), Fraction(-1))
                        if n:
                            ds.append((n, d))
                    if any(len(n) == 1 and 0 in n for n, d in ds if not d):
                        if name not in self.MONO:
                            continue
                    if name in self.MONO:
                        n, d = ds[0] if ds else ({}, {})
                        n, sg = self._signed(n, d)
                        t = self.zpoly(n, new, roots)
                        t = -t if sg < 0 else t
                        out += [z3.Implies(t > 0, va > vb), z3.Implies(t < 0, va < vb),
                                z3.Implies(t == 0, va == vb)]
                    else:
                        out.append(z3.Implies(z3.And([self.zpoly(n, new, roots) == 0
                                                      for n, d in ds] or [z3.BoolVal(True)]),
                                              va == vb))
        return out

    def fn_axioms(self, x, v, new, roots):
        n = x.val
        if n == 'exp':
            return [v > 0]
        if n == 'sigmoid':
            return [v > 0, v < 1]
        if n == 'tanh':
            return [v > -1, v < 1]
        if n in ('sin', 'cos'):
            out = [v >= -1, v <= 1]
            o = X._TABLE.get(('fn', (x.args[0].id,), 'cos' if n == 'sin' else 'sin'))
            if o is not None:
                nn, d = self.nfs.nf(o)
                if not d:
                    w = self.zpoly(nn, new, roots)
                    out.append(v * v + w * w == 1)
            return out
        if n == 'pow':
            f = self.nfs
            na, da = f.nf(x.args[0])
            if not da:
                za = self.zpoly(na, new, roots)
                out = [z3.Implies(za > 0, v > 0)]
                e = x.args[1]
                if e.op == 'c' and isinstance(e.val, Fraction) and e.val.numerator == 1 and e.val.denominator <= 6:
                    p = v
                    for _ in range(e.val.denominator - 1):
                        p = p * v
                    return [v >= 0, p == za]
                nb, db = f.nf(x.args[1])
                if not db:
                    zb = self.zpoly(nb, new, roots)
                    out.append(z3.Implies(z3.And(za == 0, zb > 0), v == 0))
                return out
        return []

    def _path_z(self):
        """translate new path conditions; returns (constraints, atoms, roots)"""
        if not hasattr(self, '_pz'):
            self._pz, self._pa, self._pr = [], set(), set()
        while self.zc_n < len(self.conds):
            c = self.conds[self.zc_n]
            self.zc_n += 1
            self._pz.append(self.zbool(c, self._pa, self._pr))
        return self._pz, self._pa, self._pr

    # ---- queries -------------------------------------------------------------------
    def interval(self, p):
        """enclosure of a polynomial over the declared input bounds, or None"""
        f = self.nfs
        lo = hi = Fraction(0)
        for m, c in p.items():
            a = b = None
            i, mm = 0, m
            while mm:
                e = mm & FMASK
                if e:
                    kind, data, name = f.atoms[i]
                    bd = self.bounds.get(name) if kind == 'v' else None
                    if bd is None or bd[0] is None or bd[1] is None:
                        return None
                    l, h = Fraction(bd[0]), Fraction(bd[1])
                    if e % 2 == 0:
                        k = [l ** e, h ** e]
                        l, h = (Fraction(0) if l <= 0 <= h else min(k)), max(k)
                    else:
                        l, h = l ** e, h ** e
                    if a is None:
                        a, b = l, h
                    else:
                        k = [a * l, a * h, b * l, b * h]
                        a, b = min(k), max(k)
                mm >>= BITS
                i += 1
            if type(c) is Fraction:
                cl = ch = c
            else:
                cl = ch = Fraction(0)
                for k, v in c.d.items():
                    import math
                    r = Fraction(math.isqrt(k * 10**40), 10**20)
                    w = sorted((v * r, v * (r + Fraction(1, 10**20))))
                    cl, ch = cl + w[0], ch + w[1]
            if a is None:
                lo, hi = lo + cl, hi + ch
            else:
                k = [cl * a, cl * b, ch * a, ch * b]
                lo, hi = lo + min(k), hi + max(k)
        return lo, hi

    def root_facts(self, atoms):
        """enclosures of the squares of long square roots and of their differences"""
        f = self.nfs
        ids = sorted(i for i in atoms if i in f.rules and len(f.rules[i]) >= 4)
        out = []
        for n, i in enumerate(ids):
            for j in [None] + ids[:n]:
                key = (i, j)
                if key not in self._iv:
                    d = f.rules[i]
                    if j is not None:
                        d = padd(d, f.rules[j], Fraction(-1))
                        if len(d) > len(f.rules[j]):
                            self._iv[key] = None
                            continue
                    self._iv[key] = self.interval(d)
                iv = self._iv[key]
                if iv is None:
                    continue
                q = self.zatom(i, set()) * self.zatom(i, set())
                if j is not None:
                    q = q - self.zatom(j, set()) * self.zatom(j, set())
                out += [q >= z3.Q(iv[0].numerator, iv[0].denominator),
                        q <= z3.Q(iv[1].numerator, iv[1].denominator)]
        return out

    def abstractable(self):
        return any(len(r) >= 4 for r in self.nfs.rules.values())

    def check(self, extra, timeout_ms, lets=True, atoms=(), roots=(), want_model=False):
        """satisfiability of path /\\ extra (z3 terms)"""
        pz, pa, pr = self._path_z()
        at = set(pa) | set(atoms)
        ro = set(pr) | set(roots)
        if extra and self.abstractable():
            # without the definitions of long square roots (a weaker premise): unsat carries over
            r2 = set(ro)
            done = set()
            ds = self.defs(at, r2, lets, done=done, roots_def=False)
            ds += self.root_facts(done)
            r, _ = self._solve(list(pz) + ds + self._root_defs(r2) + list(extra),
                               min(timeout_ms, self.opts.get('abs_ms', 2000)), False)
            if r == z3.unsat:
                return r, None
        ds = self.defs(at, ro, lets)
        cs = list(pz) + ds + self._root_defs(ro) + list(extra)
        return self._solve(cs, timeout_ms, want_model)

    def _solve(self, cs, timeout_ms, want_model):
        t0 = time.time()
        STATS['queries'] += 1
        res, model = z3.unknown, None
        for kind in self.opts.get('solvers', ('nra', 'smt')):
            if kind == 'nra':
                s = z3.SolverFor('QF_NRA')
            elif kind == 'lra':
                s = z3.SolverFor('QF_LRA')
            elif kind == 'nlsat':
                s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs',
                            'nlsat').solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(timeout_ms))
            s.add(cs)
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res != z3.unknown:
                if res == z3.sat and want_model:
                    model = s.model()
                break
        STATS['solver_s'] += time.time() - t0
        STATS[str(res)] = STATS.get(str(res), 0) + 1
        if DUMP and time.time() - t0 > 1:
            with open(f'{DUMP}/{STATS["queries"]}.txt', 'w') as f:
                f.write(f'{res} {time.time() - t0:.1f}s\n' + '\n'.join(str(c) for c in cs))
        return res, model

    def _positive(self, p, f):
        s = syntactic_sign(p)
        if s == 1:
            return 1
        sn = syntactic_sign({m: num.neg(c) for m, c in p.items()})
        if sn == 1:
            return -1
        k = pkey(p)
        # facts only grow along a path: positive answers are cached for good
        r = self.possig.get(k)
        if r is not None:
            if r[0] is not None or r[1] == len(self.conds):
                return r[0]
        if getattr(self, '_inpos', False):
            return None
        self._inpos = True
        try:
            atoms, roots = set(), set()
            t = self.zpoly(p, atoms, roots)
            ans = None
            if self.check([t <= 0], 700, atoms=atoms, roots=roots)[0] == z3.unsat:
                ans = 1
            elif self.check([t >= 0], 700, atoms=atoms, roots=roots)[0] == z3.unsat:
                ans = -1
        finally:
            self._inpos = False
        self.possig[k] = (ans, len(self.conds))
        return ans

    def simplify(self, c):
        """constant-fold a boolean by normal forms; returns E"""
        op = c.op
        if op == 'not':
            return X.not_(self.simplify(c.args[0]))
        if op == 'and':
            return X.and_(self.simplify(c.args[0]), self.simplify(c.args[1]))
        if op == 'or':
            return X.or_(self.simplify(c.args[0]), self.simplify(c.args[1]))
        if op in ('<', '<=', '=='):
            try:
                n, d = self.cmpnf(c)
            except TooBig:
                return c
            k = pconst(n)
            if k is not None:
                STATS['identities'] += 1
                if op == '==':
                    return X.bconst(k == 0)
                if k == 0:
                    return X.bconst(op == '<=')
                if not d:
                    s = num.sign(k)
                    return X.bconst(s < 0)
            elif not d and op != '==':
                s = syntactic_sign(n)
                if s is not None and (s == 1 or (s == 0 and op == '<')):
                    return X.FALSE
                s = syntactic_sign({m: num.neg(v) for m, v in n.items()})
                if s is not None and (s == 1 or (s == 0 and op == '<=')):
                    return X.TRUE
        return c

    def feasible(self, c):
        """z3 verdict on path /\\ c"""
        atoms, roots = set(), set()
        try:
            z = self.zbool(c, atoms, roots)
        except TooBig:
            return z3.unknown
        return self.check([z], self.opts.get('feas_ms', 3000), atoms=atoms, roots=roots)[0]


class Explorer(Path):
    """one run of the body along a decision prefix"""

    def __init__(self, prefix, opts, base):
        super().__init__(opts)
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.nz = set()
        for b in base:
            self.assume(b)
        self.nonzero_assumed = []

    def assume(self, c):
        if c is X.TRUE:
            return
        if c is X.FALSE:
            raise PathInfeasible()
        self.conds.append(c)
        self.known[c.id] = True
        if c.op == 'not':
            self.known[c.args[0].id] = False

    def decide(self, c):
        k = self.known.get(c.id)
        if k is not None:
            return k
        if c.op == 'not':
            return not self.decide(c.args[0])
        # conjunction/disjunction: decide the parts (simpler atoms)
        if c.op == 'and':
            return self.decide_const(c.args[0]) and self.decide_const(c.args[1])
        if c.op == 'or':
            return self.decide_const(c.args[0]) or self.decide_const(c.args[1])
        s = self.simplify(c)
        if s is X.TRUE or s is X.FALSE:
            self.known[c.id] = s is X.TRUE
            return s is X.TRUE
        c0 = c
        pos = len(self.trace)
        if pos < len(self.prefix):
            val, forced = self.prefix[pos]
        else:
            if len(self.trace) > self.opts.get('max_decisions', 400):
                raise Budget('too many decisions on a path')
            rt = self.feasible(c)
            rf = z3.sat if rt == z3.unsat else self.feasible(X.not_(c))
            if rt == z3.unsat and rf == z3.unsat:
                raise PathInfeasible()
            if rt == z3.unsat:
                val, forced = False, True
            elif rf == z3.unsat:
                val, forced = True, True
            else:
                val, forced = True, False
                # explore the other side later
                self.alts.append(self.trace + [(False, False)])
                STATS['forks'] += 1
        self.trace = self.trace + [(val, forced)]
        self.known[c0.id] = val
        if not forced:
            self.conds.append(c if val else X.not_(c))
        return val

    def decide_const(self, c):
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        return self.decide(c)

    def factor_ids(self, b):
        try:
            n, d = self.nfs.nf(b)
            c, den = self.nfs.factor(n)
        except TooBig:
            return None
        return set(den)

    def assume_ne0(self, b):
        if b.op == 'c':
            if num.sign(b.val) == 0:
                raise PathInfeasible()
            return
        self.assume(X.not_(X.eq(b, X.ZERO)))
        f = self.factor_ids(b)
        if f:
            self.nz |= f

    def nonzero(self, b):
        if self.trust_roots:
            return True
        f = self.factor_ids(b)
        if f and f <= self.nz:
            return True
        r = self._nonzero(b)
        if r and f:
            self.nz |= f
        return r

    def _nonzero(self, b):
        if self.opts.get('assume_nonzero'):
            z = X.eq(b, X.ZERO)
            if self.known.get(z.id) is None:
                s = self.simplify(z)
                if s is X.TRUE:
                    return False
                if s is not X.FALSE:
                    self.nonzero_assumed.append(b)
                    self.conds.append(X.not_(z))
                self.known[z.id] = False
            return not self.known[z.id]
        return not self.decide_const(X.eq(b, X.ZERO))

    trust_roots = False      # formal differentiation: roots of dummy variables

    def nonneg(self, a):
        if self.trust_roots:
            return True
        try:
            n, d = self.nfs.nf(a)
            if not d and syntactic_sign(n) is not None:
                return True
            if all(e % 2 == 0 for e in d.values()):
                if syntactic_sign(n) is not None:
                    return True
                if 3 <= len(n) <= 400:
                    # perfect squares, cubes of polynomials of known sign
                    c = n[max(n)]
                    if num.sign(c) > 0:
                        m = n if c == 1 else {k: num.mul(v, num.inv(c)) for k, v in n.items()}
                        if self.nfs.proot(m, 2) is not None:
                            return True
                        r = self.nfs.proot(m, 3)
                        if r is not None and self._positive(r, self.nfs) == 1:
                            return True
        except TooBig:
            pass
        return self.decide_const(X.le(X.ZERO, a))

    # -- concretisation of an integer-valued term -------------------------------
    def concretize(self, e):
        if e.op == 'c':
            return e.val
        n, d = self.nfs.nf(e)
        k = pconst(n)
        if k is not None and not d:
            return k
        for _ in range(64):
            pos = len(self.trace)
            if pos < len(self.prefix):
                # value is recorded in the trace entry
                val, forced = self.prefix[pos]
                if isinstance(forced, tuple):
                    v = forced[1]
                else:
                    v = None
            else:
                v = None
            if v is None:
                atoms, roots = set(), set()
                t = self.zpoly(n, atoms, roots)
                if d:
                    raise Inconclusive('concretize of a fraction')
                res, m = self.check([], 5000, atoms=atoms, roots=roots, want_model=True)
                if res == z3.unsat:
                    raise PathInfeasible()
                if res != z3.sat:
                    raise Inconclusive('concretize: solver unknown')
                mv = m.eval(t, model_completion=True)
                if not z3.is_rational_value(mv):
                    raise Inconclusive('concretize: irrational')
                v = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
                c = X.eq(e, X.const(v))
                rf = self.feasible(X.not_(c))
                forced = rf == z3.unsat
                self.trace = self.trace + [(True, ('v', v))]
                if not forced:
                    self.alts.append(self.trace[:-1] + [(False, ('v', v))])
                    STATS['forks'] += 1
                self.conds.append(c)
                self.known[c.id] = True
                return v
            c = X.eq(e, X.const(v))
            self.trace = self.trace + [self.prefix[pos]]
            self.conds.append(c if val else X.not_(c))
            if val:
                return v
        raise Inconclusive('concretize: too many values')
