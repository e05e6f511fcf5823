"""Rational normal form of expressions.

nf(e) = (num, den): num a polynomial over atoms, den a multiset of polynomial
factors.  Atoms are variables, square roots (with s*s reduced), function
applications (congruent up to normal form of the arguments), if-then-else
terms and "lets" (abbreviations of normal forms that grew past a limit).
"""
from fractions import Fraction
from . import num, expr as X

BITS = 10
FMASK = (1 << BITS) - 1
F1 = Fraction(1)


class TooBig(Exception):
    pass


def padd(p, q, c=None):
    r = dict(p)
    for m, v in q.items():
        if c is not None:
            v = num.mul(v, c)
        w = r.get(m)
        if w is None:
            r[m] = v
        else:
            s = num.add(w, v)
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return r


def pscale(p, c):
    if c == 0:
        return {}
    return {m: num.mul(v, c) for m, v in p.items()}


def pconst(p):
    """constant value of p or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and 0 in p:
        return p[0]
    return None


def pkey(p):
    return tuple(sorted(p.items(), key=lambda t: t[0]))


class NF:
    def __init__(self, limit=20000, let_limit=None, positive=None):
        self.limit = limit            # hard limit on the number of terms
        self.let_limit = let_limit    # abbreviate normal forms above this
        self.proots = {}
        self.positive = positive      # callback: poly -> +1/-1/None
        self.atoms = []               # (kind, data, name)
        self.akey = {}
        self.rules = {}               # atom index -> poly for its square
        self.sqmask = 0
        self.memo = {}
        self.factors = []             # den factors: poly
        self.fkey = {}
        self.defs = []                # (atom, kind, payload)

    # -- atoms ---------------------------------------------------------------
    def atom(self, kind, key, data, name):
        k = (kind, key)
        i = self.akey.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, data, name))
            self.akey[k] = i
        return i

    def amono(self, i):
        return 1 << (BITS * i)

    def apoly(self, i):
        return {self.amono(i): F1}

    # -- polynomials -----------------------------------------------------------
    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        if len(p) == 1:
            (m1, c1), = p.items()
            if m1 == 0:
                return pscale(q, c1)
        if len(p) * len(q) > 4000000:
            raise TooBig()
        r = {}
        mul, add = num.mul, num.add
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = m1 + m2
                c = mul(c1, c2)
                w = r.get(m)
                if w is None:
                    r[m] = c
                else:
                    s = add(w, c)
                    if s == 0:
                        del r[m]
                    else:
                        r[m] = s
            if len(r) > self.limit:
                raise TooBig()
        return self.reduce(r)

    def reduce(self, r):
        sm = self.sqmask
        if not sm:
            return r
        while True:
            bad = [m for m in r if m & sm]
            if not bad:
                return r
            for m in bad:
                c = r.pop(m, None)
                if c is None:
                    continue
                rest = {0: c}
                mm = m
                for i, rule in self.rules.items():
                    e = (m >> (BITS * i)) & FMASK
                    if e >= 2:
                        mm -= (e - (e & 1)) << (BITS * i)
                        for _ in range(e // 2):
                            rest = self._rawmul(rest, rule)
                rest = {k + mm: v for k, v in rest.items()}
                r = padd(r, rest)
                if len(r) > self.limit:
                    raise TooBig()

    def fold(self, p, rad, sq):
        """p with the leading monomial of rad replaced so that rad becomes the monomial sq"""
        lead = max(rad)
        lc = num.inv(rad[lead])
        repl = {m: num.neg(num.mul(c, lc)) for m, c in rad.items() if m != lead}
        repl[sq] = lc
        out, work = {}, dict(p)
        steps = 0
        while work:
            m, c = work.popitem()
            a, b, ok = m, lead, True
            while b:
                if (a & FMASK) < (b & FMASK):
                    ok = False
                    break
                a >>= BITS
                b >>= BITS
            if not ok:
                out[m] = c
                continue
            steps += 1
            if steps > 4000:
                return p
            base = m - lead
            for rm, rc in repl.items():
                k = base + rm
                v = num.mul(rc, c)
                w = work.pop(k, None)
                if w is None:
                    w = out.pop(k, None)
                s = v if w is None else num.add(w, v)
                if s != 0:
                    work[k] = s
        return out if len(out) < len(p) else p

    def _rawmul(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = m1 + m2
                c = num.mul(c1, c2)
                w = r.get(m)
                r[m] = c if w is None else num.add(w, c)
        return {m: c for m, c in r.items() if c != 0}

    def ppow(self, p, n):
        r = {0: F1}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    # -- fractions ---------------------------------------------------------------
    def factor(self, p):
        """register a denominator factor; returns (const, {fid: exp}) with p = const*prod"""
        c = pconst(p)
        if c is not None:
            return c, {}
        # monomial content
        den = {}
        lead = min(p)
        # common monomial
        nat = len(self.atoms)
        common = None
        for m in p:
            if common is None:
                common = m
            else:
                cm = 0
                a, b, sh = common, m, 0
                while a and b:
                    ea, eb = a & FMASK, b & FMASK
                    e = ea if ea < eb else eb
                    if e:
                        cm |= e << sh
                    a >>= BITS
                    b >>= BITS
                    sh += BITS
                common = cm
                if not common:
                    break
        if common:
            i = 0
            a = common
            while a:
                e = a & FMASK
                if e:
                    f = self._fid({self.amono(i): F1})
                    den[f] = den.get(f, 0) + e
                a >>= BITS
                i += 1
            p = {m - common: v for m, v in p.items()}
        lead = max(p)
        c = p[lead]
        if len(p) == 1 and lead == 0:
            return c, den
        if c != 1:
            p = pscale(p, num.inv(c))
        f = self._fid(p)
        den[f] = den.get(f, 0) + 1
        return c, den

    def _fid(self, p):
        k = pkey(p)
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(p)
            self.fkey[k] = f
        return f

    def denpoly(self, den):
        r = {0: F1}
        for f, e in den.items():
            for _ in range(e):
                r = self.pmul(r, self.factors[f])
        return r

    def fadd(self, a, b, cb=None):
        (n1, d1), (n2, d2) = a, b
        if not n1:
            return (pscale(n2, cb), d2) if cb is not None else b
        if not n2:
            return a
        if d1 == d2:
            n = padd(n1, n2, cb)
            return self.cancel(n, d1)
        l = dict(d1)
        for f, e in d2.items():
            if l.get(f, 0) < e:
                l[f] = e
        for f, e in l.items():
            for _ in range(e - d1.get(f, 0)):
                n1 = self.pmul(n1, self.factors[f])
            for _ in range(e - d2.get(f, 0)):
                n2 = self.pmul(n2, self.factors[f])
        return self.cancel(padd(n1, n2, cb), l)

    def cancel(self, n, d):
        """drop denominator factors that are atoms dividing n, or that divide n exactly"""
        if not n:
            return {}, {}
        if not d:
            return n, d
        d = dict(d)
        for f in list(d):
            fp = self.factors[f]
            while d.get(f, 0) > 0:
                q = self.exdiv(n, fp)
                if q is None:
                    break
                n = q
                d[f] -= 1
                if d[f] == 0:
                    del d[f]
        return n, d

    def exdiv(self, n, f):
        """exact division of n by f (or None); valid for the free polynomial ring"""
        if len(f) == 1:
            (m, c), = f.items()
            out = {}
            # atom power
            for mm, v in n.items():
                a, b = mm, m
                while b:
                    if (a & FMASK) < (b & FMASK):
                        return None
                    a >>= BITS
                    b >>= BITS
                out[mm - m] = num.mul(v, num.inv(c)) if c != 1 else v
            return out
        if len(n) < 2 or len(n) > 3000 or len(f) > 60:
            return None
        lead = max(f)
        lc = num.inv(f[lead])
        rem = dict(n)
        out = {}
        steps = 0
        while rem:
            m = max(rem)
            a, b = m, lead
            ok = True
            while b:
                if (a & FMASK) < (b & FMASK):
                    ok = False
                    break
                a >>= BITS
                b >>= BITS
            if not ok:
                return None
            q = m - lead
            c = num.mul(rem[m], lc)
            out[q] = c
            nc = num.neg(c)
            for fm, fc in f.items():
                k = fm + q
                w = rem.get(k)
                v = num.mul(fc, nc)
                s = v if w is None else num.add(w, v)
                if s == 0:
                    rem.pop(k, None)
                else:
                    rem[k] = s
            steps += 1
            if steps > 3000:
                return None
        # the quotient must already be reduced (square roots)
        if self.sqmask and any(m & self.sqmask for m in out):
            out = self.reduce(out)
        return out

    def fmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1 or not n2:
            return {}, {}
        n = self.pmul(n1, n2)
        if not d1 and not d2:
            return n, {}
        d = dict(d1)
        for f, e in d2.items():
            d[f] = d.get(f, 0) + e
        return self.cancel(n, d)

    def finv(self, a):
        n, d = a
        c, den = self.factor(n)
        nn = self.denpoly(d)
        return self.cancel(pscale(nn, num.inv(c)), den)

    def key(self, a):
        n, d = a
        return (pkey(n), tuple(sorted(d.items())))

    # -- expressions -----------------------------------------------------------
    def nf(self, e):
        m = self.memo
        r = m.get(e.id)
        if r is not None:
            return r
        st = [(e, False)]
        while st:
            x, done = st.pop()
            if x.id in m:
                continue
            if done:
                v = self._nf1(x)
                if self.let_limit is not None and x.op not in ('c', 'v') and \
                        (len(v[0]) > self.let_limit or
                         sum(len(self.factors[f]) * k for f, k in v[1].items()) > self.let_limit):
                    i = self.atom('let', x.id, v, f'let{x.id}')
                    v = (self.apoly(i), {})
                m[x.id] = v
            else:
                st.append((x, True))
                if x.op == 'ite':
                    continue
                for y in x.args:
                    if y.id not in m:
                        st.append((y, False))
        return m[e.id]

    def _nf1(self, x):
        op = x.op
        m = self.memo
        if op == 'c':
            if x.val == 0:
                return {}, {}
            return {0: x.val}, {}
        if op == 'v':
            return self.apoly(self.atom('v', x.val, x, str(x.val))), {}
        A = x.args
        if op == '+':
            return self.fadd(m[A[0].id], m[A[1].id])
        if op == '*':
            return self.fmul(m[A[0].id], m[A[1].id])
        if op == '/':
            return self.fmul(m[A[0].id], self.finv(m[A[1].id]))
        if op == 'sqrt':
            return self.sqrt(m[A[0].id], x)
        if op == 'fn':
            if x.val == 'pow' and A[1].op == 'c' and isinstance(A[1].val, Fraction) and A[1].val.numerator == 1:
                r = self.root(m[A[0].id], A[1].val.denominator)
                if r is not None:
                    return r
            keys = tuple(self.key(m[y.id]) for y in A)
            i = self.atom('fn', (x.val, keys), x, f'{x.val}{x.id}')
            return self.apoly(i), {}
        if op == 'ite':
            i = self.atom('ite', x.id, x, f'ite{x.id}')
            return self.apoly(i), {}
        raise ValueError(f'no normal form for {op}')

    def proot(self, p, q):
        """r with r**q == p (polynomial), or None"""
        k = (pkey(p), q)
        if k in self.proots:
            return self.proots[k]
        self.proots[k] = None
        lead = max(p)
        c = p[lead]
        rc = num.root(c, q) if type(c) is Fraction and c > 0 else None
        if rc is None or (self.sqmask and any(m & self.sqmask for m in p)):
            return None
        rm, i, a = 0, 0, lead
        while a:
            e = a & FMASK
            if e % q:
                return None
            rm |= (e // q) << (BITS * i)
            a >>= BITS
            i += 1
        r = {rm: rc}
        den = Fraction(1) / (q * rc ** (q - 1))
        dm = rm * (q - 1)
        for _ in range(60):
            rem = padd(p, self.ppow(r, q), Fraction(-1))
            if not rem:
                self.proots[k] = r
                return r
            m = max(rem)
            a, b = m, dm
            while b:
                if (a & FMASK) < (b & FMASK):
                    return None
                a >>= BITS
                b >>= BITS
            t = m - dm
            if t in r or t >= rm:
                return None
            r = dict(r)
            r[t] = num.mul(rem[m], den)
        return None

    def root(self, a, q):
        """q-th root of c*mono^q (positive atoms), or None"""
        n, d = a
        if not n:
            return {}, {}
        if any(e % q for e in d.values()) or not self.positive:
            return None
        for f in d:
            if self.positive(self.factors[f], self) != 1:
                return None
        if len(n) > 1:
            rt = self.proot(n, q) if len(n) <= 400 else None
            if rt is None or (q % 2 == 0 and self.positive(rt, self) != 1):
                return None
            return rt, {f: e // q for f, e in d.items()}
        (mo, c), = n.items()
        r = num.root(c, q) if type(c) is Fraction and c > 0 else None
        if r is None:
            return None
        out, i, a1 = 0, 0, mo
        while a1:
            e = a1 & FMASK
            if e:
                if e % q or self.positive(self.apoly(i), self) != 1:
                    return None
                out |= (e // q) << (BITS * i)
            a1 >>= BITS
            i += 1
        return {out: r}, {f: e // q for f, e in d.items()}

    def sqrt(self, a, x):
        n, d = a
        if not n:
            return {}, {}
        # sqrt(n/d): move to sqrt(n * odd)/ (even, odd)
        outd = {}
        nn = n
        for f, e in d.items():
            if e % 2 == 0:
                outd[f] = e // 2
            else:
                outd[f] = (e + 1) // 2
                nn = self.pmul(nn, self.factors[f])
        sgn = 1
        for f, e in outd.items():
            if e % 2 == 1:
                s = self.positive(self.factors[f], self) if self.positive else None
                if s is None:
                    i = self.atom('sqrtq', self.key(a), (a, x), f'sqrt{x.id}')
                    return self.apoly(i), {}
                sgn *= s
        # constant content
        c = pconst(nn)
        mult = F1 if sgn > 0 else Fraction(-1)
        mono = 0
        if c is None:
            # pull even powers of positive atoms
            common = None
            for mo in nn:
                if common is None:
                    common = mo
                else:
                    cm, a1, b1, sh = 0, common, mo, 0
                    while a1 and b1:
                        ee = min(a1 & FMASK, b1 & FMASK)
                        if ee:
                            cm |= ee << sh
                        a1 >>= BITS
                        b1 >>= BITS
                        sh += BITS
                    common = cm
            i, a1 = 0, common or 0
            pull = 0
            while a1:
                e = a1 & FMASK
                if e >= 2:
                    s = self.positive(self.apoly(i), self) if self.positive else None
                    if s is not None:
                        k = e // 2
                        pull += (2 * k) << (BITS * i)
                        mono += k << (BITS * i)
                        if s < 0 and k % 2:
                            mult = num.neg(mult)
                a1 >>= BITS
                i += 1
            if pull:
                nn = {mo - pull: v for mo, v in nn.items()}
            lead = nn[max(nn)]
            c = pconst(nn)
            if c is None:
                # normalise the leading coefficient to 1 (positive part only)
                if num.sign(lead) < 0:
                    lead = num.neg(lead)
                s = num.sqrt(lead) if type(lead) is Fraction else None
                if s is not None and lead != 1:
                    nn = pscale(nn, num.inv(lead))
                    mult = num.mul(mult, s)
        if c is not None:
            s = num.sqrt(c)
            if s is not None:
                return {mono: num.mul(mult, s)}, outd
        if 3 <= len(nn) <= 400:
            # perfect square of a polynomial of known sign
            rt = self.proot(nn, 2)
            s = self.positive(rt, self) if rt is not None and self.positive else None
            if s is not None:
                return self.cancel({m + mono: num.mul(c, mult if s > 0 else num.neg(mult)) for m, c in rt.items()}, outd)
        i = self.atom('sqrt', pkey(nn), (nn, x), f'sqrt{x.id}')
        if i not in self.rules:
            self.rules[i] = nn
            self.sqmask |= (FMASK ^ 1) << (BITS * i)
        return self.cancel({self.amono(i) + mono: mult}, outd)
