"""Hash-consed symbolic expressions over the reals and booleans."""
from fractions import Fraction
from . import num

_TABLE = {}
_NODES = []


class E:
    __slots__ = ('op', 'args', 'val', 'id', 'isbool')

    def __repr__(self):
        return to_str(self)

    def __bool__(self):
        raise TypeError('symbolic value used as a python bool outside the explorer')


def _mk(op, args=(), val=None, isbool=False):
    key = (op, tuple(a.id for a in args), val)
    n = _TABLE.get(key)
    if n is None:
        n = E.__new__(E)
        n.op, n.args, n.val, n.isbool = op, tuple(args), val, isbool
        n.id = len(_NODES)
        _NODES.append(n)
        _TABLE[key] = n
    return n


def const(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, int):
        c = Fraction(c)
    elif isinstance(c, float):
        if c != c:
            return NAN
        if c in (float('inf'), float('-inf')):
            return INF if c > 0 else NINF
        c = num.snap(c)
    return _mk('c', (), c)


ZERO = _mk('c', (), Fraction(0))
ONE = _mk('c', (), Fraction(1))
MONE = _mk('c', (), Fraction(-1))
NAN = _mk('nan')
INF = _mk('inf')
NINF = _mk('ninf')
TRUE = _mk('true', isbool=True)
FALSE = _mk('false', isbool=True)
_SPECIAL = (NAN, INF, NINF)


def var(name):
    return _mk('v', (), name)


def boolvar(name):
    return _mk('bv', (), name, True)


def is_special(a):
    return a is NAN or a is INF or a is NINF


def _sgn_const(a):
    return num.sign(a.val) if a.op == 'c' else None


# constants up to this size added to a symbolic value are smoothing offsets, encoded as zero
# (set per case, stated in its bounds)
TINY = None


def add(a, b):
    if is_special(a) or is_special(b):
        if a is NAN or b is NAN:
            return NAN
        if is_special(a) and is_special(b):
            return a if a is b else NAN
        return a if is_special(a) else b
    if a.op == 'c' and b.op == 'c':
        return _mk('c', (), num.add(a.val, b.val))
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'c':
        a, b = b, a
    if TINY and b.op == 'c' and type(b.val) is Fraction and abs(b.val) <= TINY:
        return a
    if b.op == 'c' and a.op == '+' and a.args[1].op == 'c':
        return add(a.args[0], add(a.args[1], b))
    # x + (-1*x)
    ca, ta = _coef(a)
    cb, tb = _coef(b)
    if ta is tb:
        return mul(_mk('c', (), num.add(ca, cb)), ta)
    if b.op != 'c' and a.id > b.id:
        a, b = b, a
    return _mk('+', (a, b))


def _coef(a):
    if a.op == '*' and a.args[0].op == 'c':
        return a.args[0].val, a.args[1]
    return Fraction(1), a


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    if a is b and not is_special(a):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if is_special(a) or is_special(b):
        if a is NAN or b is NAN:
            return NAN
        sa = {INF: 1, NINF: -1}.get(a) if is_special(a) else _sgn_const(a)
        sb = {INF: 1, NINF: -1}.get(b) if is_special(b) else _sgn_const(b)
        if sa == 0 or sb == 0:
            return NAN
        if sa is None or sb is None:
            o = a if sa is None else b
            from . import explore
            if explore.decide(lt(ZERO, o)):
                s = 1
            elif explore.decide(lt(o, ZERO)):
                s = -1
            else:
                return NAN
            k = sb if sa is None else sa
            return INF if s * k > 0 else NINF
        return INF if sa * sb > 0 else NINF
    if a.op == 'c' and b.op == 'c':
        return _mk('c', (), num.mul(a.val, b.val))
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == '*' and b.args[0].op == 'c':
            return mul(_mk('c', (), num.mul(a.val, b.args[0].val)), b.args[1])
        return _mk('*', (a, b))
    ca, ta = _coef(a)
    cb, tb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(_mk('c', (), num.mul(ca, cb)), mul(ta, tb))
    if a is b and a.op == 'sqrt':
        return a.args[0]
    if a.id > b.id:
        a, b = b, a
    return _mk('*', (a, b))


def div(a, b):
    """quotient; b's possible zero is handled by the explorer"""
    if a is NAN or b is NAN:
        return NAN
    if b is INF or b is NINF:
        return NAN if is_special(a) else ZERO
    if b.op == 'c':
        s = num.sign(b.val)
        if s == 0:
            return _div_zero(a)
        return mul(a, _mk('c', (), num.inv(b.val)))
    if is_special(a):
        return mul(a, b)  # sign only
    from . import explore
    if not explore.nonzero(b):
        return _div_zero(a)
    if a is b:
        return ONE
    if a is ZERO:
        return ZERO
    ca, ta = _coef(a)
    cb, tb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(_mk('c', (), num.mul(ca, num.inv(cb))), div(ta, tb))
    return _mk('/', (a, b))


def raw_div(a, b):
    """quotient without the zero check (b known nonzero)"""
    if b.op == 'c':
        return mul(a, _mk('c', (), num.inv(b.val)))
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return _mk('/', (a, b))


def _div_zero(a):
    if is_special(a):
        return a
    s = _sgn_const(a)
    if s is None:
        from . import explore
        if explore.decide(lt(ZERO, a)):
            s = 1
        elif explore.decide(lt(a, ZERO)):
            s = -1
        else:
            s = 0
    return INF if s > 0 else NINF if s < 0 else NAN


def ipow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, ipow(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def sqrt(a):
    if is_special(a):
        return NAN if a is NINF else a
    if a.op == 'c':
        if num.sign(a.val) < 0:
            return NAN
        s = num.sqrt(a.val)
        if s is not None:
            return _mk('c', (), s)
        return _mk('sqrt', (a,))
    if a.op == '*' and a.args[0] is a.args[1]:
        return absv(a.args[0])
    from . import explore
    if not explore.nonneg(a):
        return NAN
    return _mk('sqrt', (a,))


def fn(name, *args):
    if any(x is NAN for x in args):
        return NAN
    f = _FN_FOLD.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return _mk('fn', args, name)


def _fold_exp(a):
    if a is ZERO:
        return ONE
    if a is NINF:
        return ZERO
    if a is INF:
        return INF
    return None


def _fold_log(a):
    if a is ONE:
        return ZERO
    return None


def _fold_zero_odd(a):
    return ZERO if a is ZERO else None


def _fold_cos(a):
    return ONE if a is ZERO else None


def _fold_sigmoid(a):
    return const(Fraction(1, 2)) if a is ZERO else None


def _fold_pow(a, b):
    if b is ZERO:
        return ONE
    if b is ONE:
        return a
    if b.op == 'c' and isinstance(b.val, Fraction) and b.val.denominator == 1 \
            and abs(b.val) <= 16:
        return ipow(a, int(b.val))
    if b.op == 'c' and b.val == Fraction(1, 2):
        return sqrt(a)
    if b.op == 'c' and b.val == Fraction(-1, 2):
        return div(ONE, sqrt(a))
    if b.op == 'c' and b.val == Fraction(3, 2):
        return mul(a, sqrt(a))
    if a is ONE:
        return ONE
    if a.op == 'c' and b.op == 'c' and isinstance(b.val, Fraction) and b.val.denominator <= 6:
        if num.sign(a.val) < 0:
            return NAN
        r = num.root(a.val, b.val.denominator)
        if r is not None:
            return ipow(_mk('c', (), r), b.val.numerator)
    return None


_FN_FOLD = {'exp': _fold_exp, 'log': _fold_log, 'sin': _fold_zero_odd,
            'tanh': _fold_zero_odd, 'tan': _fold_zero_odd, 'atan': _fold_zero_odd,
            'asin': _fold_zero_odd, 'sinh': _fold_zero_odd, 'erf': _fold_zero_odd,
            'cos': _fold_cos, 'cosh': _fold_cos, 'sigmoid': _fold_sigmoid,
            'pow': _fold_pow}


def pow_(a, b):
    if is_special(a) or is_special(b):
        if b is ZERO:
            return ONE
        return NAN
    # a^(n+f) = a^n a^f: the exponent is kept within (0,1) so that powers combine
    if b.op == 'c' and isinstance(b.val, Fraction) and abs(b.val) <= 16:
        n = b.val.numerator // b.val.denominator
        if n and b.val.denominator != 1:
            fr = _mk('c', (), b.val - n)
            return mul(ipow(a, n), pow_(a, fr)) if n > 0 else div(pow_(a, fr), ipow(a, -n))
        q = b.val.denominator
        if not n and 3 <= q <= 6 and a.op != 'c':
            # a^(p/q) = (a^(1/q))^p
            from . import explore
            if not explore.nonneg(a):
                return NAN
            return ipow(fn('pow', a, _mk('c', (), Fraction(1, q))), b.val.numerator)
    elif b.op == '+':
        for k in (0, 1):
            q = b.args[k]
            if q.op == 'c' and isinstance(q.val, Fraction) and q.val.denominator == 1 \
                    and abs(q.val) <= 16:
                n, rest = int(q.val), b.args[1 - k]
                return mul(ipow(a, n), fn('pow', a, rest)) if n > 0 \
                    else div(fn('pow', a, rest), ipow(a, -n))
    return fn('pow', a, b)


# ---- booleans -------------------------------------------------------------

def bconst(b):
    return TRUE if b else FALSE


def _cmp_special(a, b, op):
    if a is NAN or b is NAN:
        return FALSE
    rank = {NINF: -1, INF: 1}
    ra, rb = rank.get(a, 0), rank.get(b, 0)
    if ra == rb and ra != 0:
        return bconst(op != '<')
    if op == '<':
        return bconst(ra < rb)
    if op == '<=':
        return bconst(ra <= rb)
    return FALSE


def lt(a, b):
    if is_special(a) or is_special(b):
        return _cmp_special(a, b, '<')
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return bconst(num.sign(num.add(a.val, num.neg(b.val))) < 0)
    return _mk('<', (a, b), None, True)


def le(a, b):
    if is_special(a) or is_special(b):
        return _cmp_special(a, b, '<=')
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return bconst(num.sign(num.add(a.val, num.neg(b.val))) <= 0)
    return _mk('<=', (a, b), None, True)


def eq(a, b):
    if is_special(a) or is_special(b):
        return _cmp_special(a, b, '==')
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return bconst(a.val == b.val)
    if a.id > b.id:
        a, b = b, a
    return _mk('==', (a, b), None, True)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), None, True)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), None, True)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk('or', (a, b), None, True)


def xor_(a, b):
    return or_(and_(a, not_(b)), and_(not_(a), b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        return or_(and_(c, a), and_(not_(c), b))
    from . import explore
    if is_special(a) or is_special(b) or explore.fork_where():
        return a if explore.decide(c) else b
    return _mk('ite', (c, a, b))


def absv(a):
    if is_special(a):
        return INF if a is NINF else a
    if a.op == 'c':
        return a if num.sign(a.val) >= 0 else neg(a)
    if a.op == 'sqrt':
        return a
    if a.op == '*' and a.args[0] is a.args[1]:
        return a
    return ite(le(ZERO, a), a, neg(a))


def maxv(a, b):
    if a is NAN or b is NAN:
        return NAN
    return ite(le(a, b), b, a)


def minv(a, b):
    if a is NAN or b is NAN:
        return NAN
    return ite(le(a, b), a, b)


def b2r(c):
    if not c.isbool:
        return c
    return ite(c, ONE, ZERO)


def r2b(a):
    if a.isbool:
        return a
    if is_special(a):
        return TRUE
    return not_(eq(a, ZERO))


# ---- printing / evaluation -------------------------------------------------

def to_str(e, depth=4):
    if e.op == 'c':
        return str(e.val)
    if e.op in ('v', 'bv'):
        return str(e.val)
    if not e.args:
        return e.op
    if depth == 0:
        return f'#{e.id}'
    name = e.val if e.op == 'fn' else e.op
    return f"({name} {' '.join(to_str(a, depth - 1) for a in e.args)})"


def size(e, limit=10**9):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > limit:
            return limit
        st.extend(x.args)
    return len(seen)


def evalf(e, env, memo=None):
    """float evaluation at a point (variables by name)"""
    import math
    if memo is None:
        memo = {}
    order = []
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if x.id in memo:
            continue
        if done:
            order.append(x)
            a = [memo[y.id] for y in x.args]
            memo[x.id] = _ev(x, a, env, math)
        else:
            st.append((x, True))
            for y in x.args:
                if y.id not in memo:
                    st.append((y, False))
    return memo[e.id]


def _ev(x, a, env, math):
    op = x.op
    try:
        if op == 'c':
            return float(x.val)
        if op in ('v', 'bv'):
            return env[x.val]
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            return a[0] / a[1]
        if op == 'sqrt':
            return math.sqrt(a[0])
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op == '<':
            return a[0] < a[1]
        if op == '<=':
            return a[0] <= a[1]
        if op == '==':
            return a[0] == a[1]
        if op == 'not':
            return not a[0]
        if op == 'and':
            return a[0] and a[1]
        if op == 'or':
            return a[0] or a[1]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'nan':
            return float('nan')
        if op == 'inf':
            return float('inf')
        if op == 'ninf':
            return float('-inf')
        if op == 'fn':
            if x.val == 'pow':
                return a[0] ** a[1]
            if x.val == 'sigmoid':
                return 1 / (1 + math.exp(-a[0]))
            if x.val.startswith('uf:'):
                return float('nan')
            return getattr(math, x.val)(*a)
    except (ValueError, ZeroDivisionError, OverflowError):
        return float('nan')
    raise KeyError(op)


def subst(e, env, memo):
    """replace nodes (by id) of an expression without boolean parts"""
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if x.id in memo:
            continue
        if x.id in env:
            memo[x.id] = env[x.id]
        elif not x.args:
            memo[x.id] = x
        elif not done:
            st.append((x, True))
            st += [(y, False) for y in x.args if y.id not in memo]
        else:
            a = [memo[y.id] for y in x.args]
            if x.op == '+':
                r = add(*a)
            elif x.op == '*':
                r = mul(*a)
            elif x.op == '/':
                r = raw_div(*a)
            elif x.op == 'sqrt':
                r = sqrt(*a)
            elif x.op == 'fn':
                r = pow_(*a) if x.val == 'pow' else fn(x.val, *a)
            else:
                raise NotImplementedError(f'substitution in {x.op}')
            memo[x.id] = r
    return memo[e.id]


# ---- differentiation --------------------------------------------------------

def diff(e, v, memo=None):
    """d e / d v  (branchwise on ite)"""
    if memo is None:
        memo = {}
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if x.id in memo:
            continue
        if done:
            memo[x.id] = _diff1(x, v, memo)
        else:
            st.append((x, True))
            for y in x.args:
                if not y.isbool and y.id not in memo:
                    st.append((y, False))
    return memo[e.id]


def _diff1(x, v, m):
    op = x.op
    if op == 'v':
        return ONE if x is v else ZERO
    if op in ('c', 'nan', 'inf', 'ninf'):
        return ZERO if op == 'c' else NAN
    A = x.args
    if op == '+':
        return add(m[A[0].id], m[A[1].id])
    if op == '*':
        return add(mul(m[A[0].id], A[1]), mul(A[0], m[A[1].id]))
    if op == '/':
        # (a/b)' = a'/b - x b'/b
        return raw_div(sub(m[A[0].id], mul(x, m[A[1].id])), A[1])
    if op == 'sqrt':
        if m[A[0].id] is ZERO:
            return ZERO
        return raw_div(m[A[0].id], mul(const(2), x))
    if op == 'ite':
        return ite(A[0], m[A[1].id], m[A[2].id])
    if op == 'fn':
        d = [m[y.id] for y in A]
        if all(z is ZERO for z in d):
            return ZERO
        n = x.val
        if n == 'exp':
            return mul(x, d[0])
        if n == 'log':
            return raw_div(d[0], A[0])
        if n == 'sin':
            return mul(fn('cos', A[0]), d[0])
        if n == 'cos':
            return neg(mul(fn('sin', A[0]), d[0]))
        if n == 'tanh':
            return mul(sub(ONE, mul(x, x)), d[0])
        if n == 'sigmoid':
            return mul(mul(x, sub(ONE, x)), d[0])
        if n == 'pow' and d[1] is ZERO:
            return mul(mul(A[1], raw_div(x, A[0])), d[0])
    raise NotImplementedError(f'derivative of {op} {x.val}')
