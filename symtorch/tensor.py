"""Symbolic torch tensors.

A SymTensor is a torch wrapper subclass: `_s` is a flat numpy object array of
expressions (the storage) and `_ix` a plain int64 tensor of positions in it, so
torch's own view operators decide aliasing.  `SymMode` (a TorchDispatchMode)
turns every floating point tensor the executed code creates into a SymTensor.
"""
import math
import sys
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map
from . import expr as X, explore, num
from .explore import Inconclusive

aten = torch.ops.aten


def _uf(f, n):
    return np.frompyfunc(f, n, 1)


def _obj(x, shape=None):
    """object ndarray from a frompyfunc result (which may be a bare object)"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, store, ix, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, ix.shape, strides=ix.stride(), storage_offset=ix.storage_offset(),
            dtype=dtype, device=torch.device('cpu'), requires_grad=requires_grad)
        r._s = store
        r._ix = ix
        return r

    def __init__(self, *a, **k):
        pass

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # -- python level ----------------------------------------------------------
    def arr(self):
        return _obj(self._s[self._ix.numpy()]) if self._ix.dim() else \
            _obj(self._s[int(self._ix)])

    def __bool__(self):
        a = self.arr().reshape(-1)
        if a.size != 1:
            raise RuntimeError('Boolean value of Tensor with more than one value is ambiguous')
        return explore.decide(X.r2b(a[0]))

    def item(self):
        a = self.arr().reshape(-1)
        if a.size != 1:
            raise RuntimeError('a Tensor with more than 1 element cannot be converted to Scalar')
        if self.dtype == torch.bool:
            return explore.decide(X.r2b(a[0]))
        return make(_obj(a[0]), self.dtype)

    def __float__(self):
        e = self.arr().reshape(-1)[0]
        return pyfloat(e)

    def __int__(self):
        e = self.arr().reshape(-1)[0]
        return int(concretize(e))

    def __index__(self):
        return self.__int__()

    def tolist(self):
        a = self.arr()

        def conv(z):
            if isinstance(z, np.ndarray):
                return [conv(y) for y in z]
            return z
        w = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            w[i] = R(a[i])
        return conv(w) if w.ndim else w[()]

    def numpy(self, *a, **k):
        return to_np(self.arr())

    def __array__(self, *a, **k):
        return to_np(self.arr())

    def __repr__(self, **k):
        return f'SymTensor(shape={tuple(self.shape)})'

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return repr(self)

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        t = make(self.arr().copy(), self.dtype, self.requires_grad)
        if hasattr(self, '_is_param'):
            t._is_param = self._is_param
        memo[id(self)] = t
        return t

    def __reduce_ex__(self, proto):
        a = self.arr()
        return _rebuild, ([e.id for e in a.reshape(-1)], tuple(a.shape), self.dtype,
                          self.requires_grad, getattr(self, '_is_param', False))

    @property
    def data(self):
        t = SymTensor(self._s, self._ix, self.dtype)
        return t

    @data.setter
    def data(self, v):
        v = sym(v)
        if tuple(v.shape) != tuple(self.shape):
            raise Inconclusive('data assignment changes shape')
        self._s, self._ix = v._s, v._ix

    def __hash__(self):
        return id(self)


def _rebuild(ids, shape, dtype, rg, isp):
    a = np.empty(len(ids), dtype=object)
    for i, k in enumerate(ids):
        a[i] = X._NODES[k]
    t = make(a.reshape(shape), dtype, rg)
    if isp:
        t._is_param = True
    return t


def _rebuild_r(i):
    return R(X._NODES[i])


def pyfloat(e):
    if e.op == 'c':
        return float(e.val)
    if X.is_special(e):
        return {X.NAN: float('nan'), X.INF: float('inf'), X.NINF: float('-inf')}[e]
    if explore.CUR is not None:
        try:
            n, d = explore.CUR.nfs.nf(e)
            from .poly import pconst
            k = pconst(n)
            if k is not None and not d:
                return float(k)
        except Exception:
            pass
    raise Inconclusive('float() of a symbolic value')


def concretize(e):
    if e.isbool:
        return int(explore.decide(e))
    if e.op == 'c':
        return e.val
    if explore.CUR is None:
        raise Inconclusive('concretize outside exploration')
    return explore.CUR.concretize(e)


class R:
    """symbolic python scalar (elements of numpy object arrays)"""
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __reduce__(self):
        return _rebuild_r, (self.e.id,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _bin(f, swap=False):
        def g(self, o):
            if isinstance(o, np.ndarray):
                out = np.empty(o.shape, dtype=object)
                for i in np.ndindex(*o.shape):
                    out[i] = g(self, o[i])
                return out
            if isinstance(o, torch.Tensor):
                a = make(_obj(self.e), torch.float64)
                return _tensor_bin(f, a, o, swap)
            b = ex(o)
            if b is None:
                return NotImplemented
            r = f(b, self.e) if swap else f(self.e, b)
            return R(r)
        return g

    __add__ = _bin(X.add)
    __radd__ = _bin(X.add, True)
    __sub__ = _bin(X.sub)
    __rsub__ = _bin(X.sub, True)
    __mul__ = _bin(X.mul)
    __rmul__ = _bin(X.mul, True)
    __truediv__ = _bin(X.div)
    __rtruediv__ = _bin(X.div, True)
    __lt__ = _bin(X.lt)
    __le__ = _bin(X.le)
    __gt__ = _bin(lambda a, b: X.lt(b, a))
    __ge__ = _bin(lambda a, b: X.le(b, a))
    __eq__ = _bin(lambda a, b: X.eq(a, b) if not (a.isbool or b.isbool)
                  else X.not_(X.xor_(X.r2b(a), X.r2b(b))))
    __ne__ = _bin(lambda a, b: X.not_(X.eq(a, b)))
    __and__ = _bin(lambda a, b: X.and_(X.r2b(a), X.r2b(b)))
    __or__ = _bin(lambda a, b: X.or_(X.r2b(a), X.r2b(b)))
    __pow__ = _bin(lambda a, b: X.pow_(a, b))
    __rpow__ = _bin(lambda a, b: X.pow_(a, b), True)
    del _bin

    def __neg__(self):
        return R(X.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return R(X.absv(self.e))

    def __bool__(self):
        return explore.decide(X.r2b(self.e))

    def __float__(self):
        return pyfloat(self.e)

    def __int__(self):
        return int(concretize(self.e))

    def __index__(self):
        return int(concretize(self.e))

    def __hash__(self):
        return hash(self.e.id)

    def __repr__(self):
        return f'R({X.to_str(self.e, 2)})'

    def __format__(self, s):
        return '<sym>'

    def sqrt(self):
        return R(X.sqrt(self.e))

    def exp(self):
        return R(X.fn('exp', self.e))

    def log(self):
        return R(X.fn('log', self.e))

    def sin(self):
        return R(X.fn('sin', self.e))

    def cos(self):
        return R(X.fn('cos', self.e))

    def item(self):
        return self

    def conjugate(self):
        return self

    def square(self):
        return R(X.mul(self.e, self.e))

    def isnan(self):
        return self.e is X.NAN

    def tolist(self):
        return self


def _tensor_bin(f, a, o, swap):
    b = sym(o)
    x, y = (b, a) if swap else (a, b)
    r = _obj(_uf(f, 2)(x.arr(), y.arr()))
    return make(r, torch.bool if r.size and r.reshape(-1)[0].isbool else torch.float64)


def to_np(a):
    w = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        w[i] = R(a[i])
    return w


def ex(o):
    """python/numpy/symbolic scalar -> E (None if not a scalar)"""
    if isinstance(o, R):
        return o.e
    if isinstance(o, X.E):
        return o
    if isinstance(o, (bool, np.bool_)):
        return X.bconst(bool(o))
    if isinstance(o, (int, np.integer)):
        return X.const(int(o))
    if isinstance(o, (float, np.floating)):
        return X.const(float(o))
    if isinstance(o, num.Fraction) or isinstance(o, num.Alg):
        return X.const(o)
    if isinstance(o, SymTensor) and o.numel() == 1:
        return o.arr().reshape(-1)[0]
    if isinstance(o, torch.Tensor) and o.numel() == 1:
        return ex(o.item())
    if isinstance(o, np.ndarray) and o.size == 1:
        return ex(o.reshape(-1)[0])
    return None


def make(a, dtype=None, requires_grad=False):
    """SymTensor from an object array of E"""
    a = np.ascontiguousarray(a) if a.ndim else a
    if dtype is None:
        dtype = torch.get_default_dtype()
    ix = torch_real(torch.arange, a.size).view(a.shape)
    return SymTensor(a.reshape(-1), ix, dtype, requires_grad)


def torch_real(f, *a, **k):
    with torch.utils._python_dispatch._disable_current_modes():
        return f(*a, **k)


_exu = _uf(lambda v: ex(v), 1)


def plain_arr(t):
    """plain torch tensor -> object array of E"""
    t = t.detach()
    if t.dtype == torch.bool:
        return _obj(_uf(lambda v: X.bconst(bool(v)), 1)(t.numpy())) if t.dim() \
            else _obj(X.bconst(bool(t.numpy())))
    n = t.numpy()
    if n.dtype == np.float32:
        n = n.astype(np.float64)
        # shortest decimal of the float32
        f = _uf(lambda v: X.const(float(np.format_float_positional(
            np.float32(v), unique=True)) if math.isfinite(v) else float(v)), 1)
        return _obj(f(n))
    return _obj(_exu(n))


def sym(t):
    """any tensor -> SymTensor (copy for plain ones)"""
    if isinstance(t, SymTensor):
        return t
    if isinstance(t, torch.Tensor):
        return make(torch_real(plain_arr, t), t.dtype)
    e = ex(t)
    if e is None:
        raise Inconclusive(f'cannot make symbolic: {type(t)}')
    return make(_obj(e), torch.bool if e.isbool else
                (torch.int64 if isinstance(t, int) else torch.get_default_dtype()))


def A(t):
    """tensor or scalar -> object array of E"""
    if isinstance(t, SymTensor):
        return t.arr()
    if isinstance(t, torch.Tensor):
        return torch_real(plain_arr, t)
    if isinstance(t, np.ndarray) and t.size != 1:
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            out[i] = ex(t[i])
            if out[i] is None:
                raise Inconclusive(f'cannot interpret {type(t[i])}')
        return out
    e = ex(t)
    if e is None:
        raise Inconclusive(f'cannot interpret {type(t)}')
    return _obj(e)


def rdtype(*ts):
    """result dtype by torch promotion"""
    w = []
    for t in ts:
        if isinstance(t, torch.Tensor):
            w.append((t.dim() > 0, t.dtype))
    scal = [t for t in ts if not isinstance(t, torch.Tensor)]
    flo = [d for dim, d in w if d.is_floating_point and dim] or \
        [d for dim, d in w if d.is_floating_point]
    if flo:
        return torch.float64 if torch.float64 in flo else flo[0]
    if any(isinstance(s, (float, R)) for s in scal):
        return torch.get_default_dtype()
    if any(d == torch.int64 for _, d in w) or any(isinstance(s, int) and not isinstance(s, bool)
                                                  for s in scal):
        return torch.int64
    return torch.bool if w and all(d == torch.bool for _, d in w) else torch.int64


def real_e(a):
    """bool elements -> 0/1 reals"""
    if a.size and a.reshape(-1)[0].isbool:
        return _obj(_uf(X.b2r, 1)(a))
    return a


# ---- operator table -------------------------------------------------------------
H = {}


def op(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


VIEW = {'alias', 'detach', 'view', '_unsafe_view', '_reshape_alias', 'select', 'slice',
        'permute', 'transpose', 't', 'expand', 'unsqueeze', 'squeeze', 'diagonal', 'split',
        'split_with_sizes', 'unbind', 'as_strided', 'unfold', 'lift_fresh', 'movedim',
        'unsafe_split', 'reshape', 'view_as', 'expand_as', 'narrow', 'lift', 'flatten'}
MOVE = {'cat', 'stack', 'index', 'index_select', 'gather', 'roll', 'flip', 'tril', 'triu',
        'repeat', 'diag_embed', 'select_backward', 'slice_backward', 'diagonal_copy',
        'masked_select', 'scatter', 'select_scatter', 'slice_scatter', 'diagonal_scatter',
        'take', 'rot90', 'block_diag', 'clone', 'new_empty_strided', 'column_stack', 'tile',
        'repeat_interleave', 'unsafe_chunk', 'index_put', '_index_put_impl', 'copy',
        'masked_scatter', 'index_copy', 'constant_pad_nd', 'diag', 'take_along_dim', 'embedding'}


def _moves(func, args, kwargs):
    """data movement: run the real operator on element labels"""
    table = [X.ZERO]
    dts = []

    def lab(x):
        if isinstance(x, SymTensor) or (isinstance(x, torch.Tensor)
                                        and x.dtype.is_floating_point):
            a = A(x).reshape(-1)
            base = len(table)
            table.extend(a)
            dts.append(x.dtype)
            return torch.arange(base, base + a.size).view(x.shape)
        return x

    base = func._schema.name.split('::')[1]
    with torch.utils._python_dispatch._disable_current_modes():
        if base in ('index', 'index_put', '_index_put_impl'):
            idx = [concrete_index(i) for i in args[1]]
            src = args[0]
            args = list(args)
            args[1] = idx
            # the values and self carry labels, also when they are plain ints
            for k in (0, 2):
                if k < len(args) and isinstance(args[k], torch.Tensor) and \
                        not isinstance(args[k], SymTensor):
                    args[k] = sym(args[k])
            if base != 'index' and len(args) > 3 and args[3]:
                return _index_acc(args, src)
            args = [lab(args[0]), idx] + [lab(z) for z in args[2:]]
        elif base in ('masked_select',):
            args = [lab(args[0]), concrete_index(args[1])]
        elif base in ('constant_pad_nd',):
            v = args[2] if len(args) > 2 else 0
            table.append(ex(v))
            args = [lab(args[0]), args[1], len(table) - 1]
        elif base in ('cat', 'stack'):
            seq = [sym(z) for z in args[0]]
            dt = rdtype(*seq)
            if dt.is_floating_point:
                seq = [make(real_e(z.arr()), dt) if z.dtype == torch.bool else z for z in seq]
            args = ([lab(z) for z in seq],) + tuple(args[1:])
            dts[:] = [dt]
        else:
            if base == 'scatter':
                args = list(args)
                if not isinstance(args[3], torch.Tensor):
                    table.append(ex(args[3]))
                    args[3] = len(table) - 1
            args = tree_map(lab, tuple(args))
        kwargs = {k: v for k, v in kwargs.items() if k in ('dim', 'memory_format')}
        out = func(*args, **kwargs)
        dt = dts[0]
        if len(dts) > 1 and base not in ('cat', 'stack'):
            dt = dts[0]

        def back(o):
            if isinstance(o, torch.Tensor):
                n = o.numpy().reshape(-1)
                a = np.empty(n.size, dtype=object)
                for i, k in enumerate(n):
                    a[i] = table[k]
                return make(a.reshape(tuple(o.shape)), dt)
            return o
        return tree_map(back, out)


def concrete_index(i):
    if i is None:
        return None
    if isinstance(i, SymTensor):
        a = i.arr()
        if i.dtype == torch.bool:
            f = _uf(lambda e: explore.decide(X.r2b(e)), 1)
            return torch_real(torch.tensor, np.asarray(_obj(f(a)).tolist(), dtype=bool))
        f = _uf(lambda e: int(concretize(e)), 1)
        return torch_real(torch.tensor, np.asarray(_obj(f(a)).tolist(), dtype=np.int64))
    return i


def _index_acc(args, src):
    base, idx, vals = args[0], args[1], args[2]
    out = A(base).copy()
    lab = torch.arange(out.size).view(base.shape)
    pos = aten.index.Tensor(lab, idx)
    v = A(vals)
    v = np.broadcast_to(v, tuple(pos.shape)).reshape(-1)
    flat = out.reshape(-1)
    for p, e in zip(pos.numpy().reshape(-1), v):
        flat[p] = X.add(flat[p], e)
    return make(out, base.dtype)


def write(t, a, cast=True):
    """in-place write of object array a into SymTensor t"""
    a = np.broadcast_to(a, tuple(t.shape))
    if cast:
        if t.dtype == torch.bool:
            if a.size and not a.reshape(-1)[0].isbool:
                a = _obj(_uf(X.r2b, 1)(a))
        else:
            a = real_e(a)
    t._s[t._ix.numpy()] = a if a.ndim else a[()]
    return t


def dispatch(func, args, kwargs):
    name = func._schema.name.split('::')[1]
    flat, _ = tree_flatten((args, kwargs))
    anysym = any(isinstance(x, SymTensor) for x in flat)
    if not anysym:
        anyt = any(isinstance(x, torch.Tensor) and x.dtype.is_floating_point for x in flat)
        h = H0.get(name)
        if h is not None:
            return h(func, args, kwargs)
        out = torch_real(func, *args, **kwargs)
        if name.endswith('_') and not name.endswith('__'):
            return out      # in-place on a plain tensor
        return tree_map(lambda o: sym(o) if isinstance(o, torch.Tensor)
                        and o.dtype.is_floating_point else o, out)
    if name in VIEW:
        return _view(func, args, kwargs)
    if name in MOVE:
        return _moves(func, args, kwargs)
    h = H.get(name)
    if h is not None:
        out = kwargs.pop('out', None) if 'out' in kwargs else None
        r = h(func, *args, **kwargs)
        if out is not None:
            write(out, r.arr())
            return out
        return r
    if name.endswith('_') and not name.endswith('__'):
        base = name[:-1]
        pk = getattr(aten, base, None)
        if base in MOVE or base in H:
            f2 = getattr(pk, func._overloadname, None) if pk is not None else None
            if base in MOVE:
                r = _moves(f2, args, kwargs)
            else:
                r = H[base](f2 or func, *args, **kwargs)
            tgt = args[0]
            if not isinstance(tgt, SymTensor):
                raise Inconclusive(f'symbolic value written into a plain tensor ({name})')
            write(tgt, A(r))
            return tgt
    if torch.Tag.inplace_view in func.tags and isinstance(args[0], SymTensor):
        t = args[0]
        with torch.utils._python_dispatch._disable_current_modes():
            ix = t._ix.view(t._ix.shape)
            ix = func(ix, *args[1:], **kwargs)
            with torch.utils._mode_utils.no_dispatch():
                func(*args, **kwargs)
        t._ix = ix
        return t
    d = torch._decomp.decomposition_table.get(func)
    if d is not None:
        return d(*args, **kwargs)
    r = func.decompose(*args, **kwargs)
    if r is not NotImplemented:
        return r
    # all constant: run the real operator
    if all(not isinstance(x, SymTensor) or all(e.op in ('c', 'true', 'false', 'nan', 'inf', 'ninf')
                                               for e in x.arr().reshape(-1)) for x in flat):
        def conc(x):
            return to_plain(x) if isinstance(x, SymTensor) else x
        out = torch_real(func, *tree_map(conc, args), **tree_map(conc, kwargs))
        return tree_map(lambda o: sym(o) if isinstance(o, torch.Tensor)
                        and o.dtype.is_floating_point else o, out)
    raise Inconclusive(f'operator not modelled: {func}')


def to_plain(t):
    def f(e):
        return {X.TRUE: True, X.FALSE: False}[e] if e.isbool else pyfloat(e)
    a = t.arr()
    n = np.empty(a.shape, dtype=bool if t.dtype == torch.bool else np.float64)
    for i in np.ndindex(a.shape):
        n[i] = f(a[i])
    return torch_real(torch.tensor, n).to(t.dtype) if False else \
        torch_real(lambda: torch.from_numpy(n.copy() if n.ndim else n.reshape(())).to(t.dtype))


def _view(func, args, kwargs):
    t = args[0]
    rest = args[1:]
    with torch.utils._python_dispatch._disable_current_modes():
        if func._schema.name.endswith('::lift_fresh') or \
                func._schema.name.endswith('::lift'):
            o = t._ix
        else:
            o = func(t._ix, *rest, **kwargs)
    return tree_map(lambda x: SymTensor(t._s, x, t.dtype) if isinstance(x, torch.Tensor) else x, o)


# ---- creation (no symbolic argument) ---------------------------------------------
H0 = {}


def op0(*names):
    def d(f):
        for n in names:
            H0[n] = f
        return f
    return d


@op0('empty', 'new_empty', 'empty_like', 'empty_strided', 'new_empty_strided', 'empty_permuted')
def _empty(func, args, kwargs):
    out = torch_real(func, *args, **kwargs)
    if not out.dtype.is_floating_point:
        return out
    a = np.empty(tuple(out.shape), dtype=object)
    a.fill(X.NAN)
    return make(a, out.dtype)


@op0('lift_fresh', 'lift')
def _lift0(func, args, kwargs):
    t = args[0]
    return sym(t) if t.dtype.is_floating_point else t


@op0('detach', 'alias')
def _keep(func, args, kwargs):
    out = torch_real(func, *args, **kwargs)
    return out


@op0('full', 'scalar_tensor')
def _full0(func, args, kwargs):
    out = torch_real(func, *args, **kwargs)
    return sym(out) if out.dtype.is_floating_point else out


@op0('linspace')
def _linspace0(func, args, kwargs):
    out = torch_real(func, *args, **kwargs)
    if not out.dtype.is_floating_point:
        return out
    s, e, n = ex(args[0]), ex(args[1]), args[2]
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = X.add(s, X.mul(X.sub(e, s), X.const(num.Fraction(i, max(n - 1, 1)))))
    return make(a, out.dtype)


@op('empty_like', 'new_empty')
def _empty_like(func, t, *a, **k):
    out = torch_real(func, torch_real(torch.empty, tuple(t.shape), dtype=t.dtype), *a, **k)
    if not out.dtype.is_floating_point:
        return out
    b = np.empty(tuple(out.shape), dtype=object)
    b.fill(X.NAN)
    return make(b, out.dtype)


def _const_like(v):
    def f(func, t, *a, **k):
        shape = tuple(t.shape)
        dt = k.get('dtype') or t.dtype
        if dt == torch.bool or not dt.is_floating_point:
            return torch_real(torch.full, shape, v, dtype=dt)
        b = np.empty(shape, dtype=object)
        b.fill(X.const(v))
        return make(b, dt)
    return f


H['zeros_like'] = _const_like(0)
H['ones_like'] = _const_like(1)


@op('full_like')
def _full_like(func, t, v, **k):
    b = np.empty(tuple(t.shape), dtype=object)
    dt = k.get('dtype') or t.dtype
    b.fill(ex(v))
    if not dt.is_floating_point:
        return torch_real(torch.full, tuple(t.shape), v, dtype=dt)
    return make(b, dt)


@op('new_zeros', 'new_ones', 'new_full')
def _new_const(func, t, size, *a, **k):
    nm = func._schema.name
    v = a[0] if 'full' in nm else (0 if 'zeros' in nm else 1)
    dt = k.get('dtype') or t.dtype
    if not dt.is_floating_point:
        return torch_real(torch.full, tuple(size), v, dtype=dt)
    b = np.empty(tuple(size), dtype=object)
    b.fill(ex(v))
    return make(b, dt)


@op('full')
def _full(func, size, v, **k):
    b = np.empty(tuple(size), dtype=object)
    b.fill(ex(v))
    return make(b, k.get('dtype') or torch.get_default_dtype())


@op('rand_like', 'randn_like')
def _rand_like(func, t, **k):
    return sym(torch_real(func, torch_real(torch.empty, tuple(t.shape), dtype=t.dtype)))


@op('_to_copy', 'to')
def _to_copy(func, t, *a, **k):
    dt = k.get('dtype') or t.dtype
    a = t.arr()
    if dt == torch.bool:
        return make(_obj(_uf(X.r2b, 1)(a)), dt)
    if dt.is_floating_point:
        return make(real_e(a).copy(), dt)
    # to an integer type: truncation toward zero
    f = _uf(lambda e: int(concretize(e) if e.op != 'c' else
                          int(e.val) if type(e.val) is num.Fraction else int(float(e.val))), 1)
    r = _obj(f(real_e(a)))
    return torch_real(lambda: torch.from_numpy(np.array(r.tolist(), dtype=np.int64)).to(dt))


@op('copy_')
def _copy_(func, dst, src, non_blocking=False):
    if not isinstance(dst, SymTensor):
        if dst.dtype.is_floating_point:
            raise Inconclusive('symbolic value written into a plain tensor')
        if dst.dtype == torch.bool:
            torch_real(dst.copy_, concrete_index(src))
            return dst
        torch_real(dst.copy_, _to_copy(None, src, dtype=dst.dtype))
        return dst
    return write(dst, A(src))


@op('fill_')
def _fill_(func, dst, v):
    if not isinstance(dst, SymTensor):
        raise Inconclusive('symbolic fill of a plain tensor')
    return write(dst, A(v))


@op('zero_')
def _zero_(func, dst):
    return write(dst, _obj(X.ZERO))


@op('fill')
def _fill(func, t, v):
    b = np.empty(tuple(t.shape), dtype=object)
    b.fill(A(v).reshape(-1)[0])
    return make(b, t.dtype)


# ---- pointwise ----------------------------------------------------------------------
def pw(f, *ts, dtype=None):
    arrs = [real_e(A(t)) for t in ts]
    r = _obj(_uf(f, len(arrs))(*arrs))
    if dtype is None:
        dtype = rdtype(*ts)
    return make(r, dtype)


def fl(dt):
    return dt if dt.is_floating_point else torch.get_default_dtype()


@op('add')
def _add(func, a, b, alpha=1):
    if isinstance(a, torch.Tensor) and a.dtype == torch.bool and \
            isinstance(b, torch.Tensor) and b.dtype == torch.bool:
        return make(_obj(_uf(X.or_, 2)(A(a), A(b))), torch.bool)
    if alpha != 1:
        k = ex(alpha)
        return pw(lambda x, y: X.add(x, X.mul(k, y)), a, b)
    return pw(X.add, a, b)


@op('sub')
def _sub(func, a, b, alpha=1):
    if alpha != 1:
        k = ex(alpha)
        return pw(lambda x, y: X.sub(x, X.mul(k, y)), a, b)
    return pw(X.sub, a, b)


@op('rsub')
def _rsub(func, a, b, alpha=1):
    k = ex(alpha)
    return pw(lambda x, y: X.sub(y, X.mul(k, x)), a, b)


@op('mul')
def _mul(func, a, b):
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and \
            a.dtype == torch.bool and b.dtype == torch.bool:
        return make(_obj(_uf(X.and_, 2)(A(a), A(b))), torch.bool)
    return pw(X.mul, a, b)


def e_floor(x):
    if x.op == 'c':
        return X.const(math.floor(x.val) if type(x.val) is num.Fraction
                       else math.floor(x.val.approx()))
    raise Inconclusive('floor of a symbolic value')


def e_trunc(x):
    if x.op == 'c':
        v = x.val if type(x.val) is num.Fraction else x.val.approx()
        return X.const(int(v))
    raise Inconclusive('trunc of a symbolic value')


@op('div', 'true_divide', 'divide')
def _div(func, a, b, rounding_mode=None):
    f = X.div
    if rounding_mode == 'floor':
        f = lambda x, y: e_floor(X.div(x, y))
    elif rounding_mode == 'trunc':
        f = lambda x, y: e_trunc(X.div(x, y))
    return pw(f, a, b, dtype=fl(rdtype(a, b)))


@op('reciprocal')
def _recip(func, a):
    return pw(lambda x: X.div(X.ONE, x), a, dtype=fl(a.dtype))


@op('neg', 'negative')
def _neg(func, a):
    return pw(X.neg, a)


@op('abs', 'absolute')
def _abs(func, a):
    return pw(X.absv, a)


@op('sign', 'sgn')
def _sign(func, a):
    def f(x):
        if x is X.NAN:
            return X.NAN
        if x.op == 'c':
            return X.const(num.sign(x.val))
        return X.ite(X.lt(X.ZERO, x), X.ONE, X.ite(X.lt(x, X.ZERO), X.MONE, X.ZERO))
    return pw(f, a)


@op('sqrt')
def _sqrt(func, a):
    return pw(X.sqrt, a, dtype=fl(a.dtype))


@op('rsqrt')
def _rsqrt(func, a):
    return pw(lambda x: X.div(X.ONE, X.sqrt(x)), a)


@op('square')
def _square(func, a):
    return pw(lambda x: X.mul(x, x), a)


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'acos', 'asin', 'atan', 'sinh', 'cosh',
           'sigmoid', 'erf', 'log1p', 'expm1', 'log10', 'log2'):
    def _f(func, a, _n=_n):
        return pw(lambda x: X.fn(_n, x), a, dtype=fl(a.dtype))
    H[_n] = _f
H['arccos'] = H['acos']
H['arcsin'] = H['asin']


@op('atan2')
def _atan2(func, a, b):
    return pw(lambda x, y: X.fn('atan2', x, y), a, b)


@op('relu')
def _relu(func, a):
    return pw(lambda x: X.maxv(x, X.ZERO), a)


@op('pow')
def _pow(func, a, b):
    return pw(X.pow_, a, b)


@op('maximum')
def _maximum(func, a, b):
    return pw(X.maxv, a, b)


@op('minimum')
def _minimum(func, a, b):
    return pw(X.minv, a, b)


@op('clamp', 'clip')
def _clamp(func, a, min=None, max=None):
    r = a
    if min is not None:
        r = pw(X.maxv, r, min, dtype=a.dtype)
    if max is not None:
        r = pw(X.minv, r, max, dtype=a.dtype)
    return r


H['clamp_min'] = lambda func, a, m: _clamp(func, a, m, None)
H['clamp_max'] = lambda func, a, m: _clamp(func, a, None, m)


@op('floor')
def _floor(func, a):
    return pw(e_floor, a)


@op('trunc')
def _trunc(func, a):
    return pw(e_trunc, a)


def cmp(f):
    def g(func, a, b):
        return pw(f, a, b, dtype=torch.bool)
    return g


H['lt'] = cmp(X.lt)
H['le'] = cmp(X.le)
H['gt'] = cmp(lambda a, b: X.lt(b, a))
H['ge'] = cmp(lambda a, b: X.le(b, a))


@op('eq')
def _eq(func, a, b):
    return pw(X.eq, a, b, dtype=torch.bool)


@op('ne')
def _ne(func, a, b):
    return pw(lambda x, y: X.not_(X.eq(x, y)), a, b, dtype=torch.bool)


def _bools(a):
    a = A(a)
    if a.size and not a.reshape(-1)[0].isbool:
        return _obj(_uf(X.r2b, 1)(a))
    return a


@op('logical_and', 'bitwise_and', '__and__')
def _land(func, a, b):
    return make(_obj(_uf(X.and_, 2)(_bools(a), _bools(b))), torch.bool)


@op('logical_or', 'bitwise_or', '__or__')
def _lor(func, a, b):
    return make(_obj(_uf(X.or_, 2)(_bools(a), _bools(b))), torch.bool)


@op('logical_xor', 'bitwise_xor', '__xor__')
def _lxor(func, a, b):
    return make(_obj(_uf(X.xor_, 2)(_bools(a), _bools(b))), torch.bool)


@op('logical_not', 'bitwise_not')
def _lnot(func, a):
    return make(_obj(_uf(X.not_, 1)(_bools(a))), torch.bool)


@op('isnan')
def _isnan(func, a):
    return make(_obj(_uf(lambda x: X.bconst(x is X.NAN), 1)(A(a))), torch.bool)


@op('isinf')
def _isinf(func, a):
    return make(_obj(_uf(lambda x: X.bconst(x is X.INF or x is X.NINF), 1)(A(a))), torch.bool)


@op('isfinite')
def _isfin(func, a):
    return make(_obj(_uf(lambda x: X.bconst(not X.is_special(x)), 1)(A(a))), torch.bool)


@op('isclose')
def _isclose(func, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r, t = ex(rtol), ex(atol)

    def f(x, y):
        if x is X.NAN or y is X.NAN:
            return X.bconst(equal_nan and x is y)
        if X.is_special(x) or X.is_special(y):
            return X.bconst(x is y)
        if x is y:
            return X.TRUE
        tol = X.add(t, X.mul(r, X.absv(y)))
        d = X.sub(x, y)
        return X.and_(X.le(d, tol), X.le(X.neg(tol), d))
    return make(_obj(_uf(f, 2)(real_e(A(a)), real_e(A(b)))), torch.bool)


@op('allclose')
def _allclose(func, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    c = _isclose(func, a, b, rtol, atol, equal_nan)
    for e in c.arr().reshape(-1):
        if not explore.decide(e):
            return False
    return True


@op('equal')
def _equal(func, a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    for x, y in zip(real_e(A(a)).reshape(-1), real_e(A(b)).reshape(-1)):
        if not explore.decide(X.eq(x, y)):
            return False
    return True


@op('where')
def _where(func, c, *ab):
    if not ab:
        ci = concrete_index(c)
        return torch_real(torch.where, ci)
    a, b = ab
    ca, aa, bb = _bools(c), A(a), A(b)
    if (aa.size and aa.reshape(-1)[0].isbool) != (bb.size and bb.reshape(-1)[0].isbool):
        aa, bb = real_e(aa), real_e(bb)
    dt = rdtype(a, b)
    return make(_obj(_uf(X.ite, 3)(ca, aa, bb)), dt)


@op('masked_fill')
def _masked_fill(func, a, m, v):
    return make(_obj(_uf(X.ite, 3)(_bools(m), A(v), A(a))), a.dtype)


@op('lerp')
def _lerp(func, a, b, w):
    return pw(lambda x, y, z: X.add(x, X.mul(z, X.sub(y, x))), a, b, w)


@op('addcmul')
def _addcmul(func, a, b, c, value=1):
    k = ex(value)
    return pw(lambda x, y, z: X.add(x, X.mul(k, X.mul(y, z))), a, b, c)


@op('addcdiv')
def _addcdiv(func, a, b, c, value=1):
    k = ex(value)
    return pw(lambda x, y, z: X.add(x, X.mul(k, X.div(y, z))), a, b, c)


# ---- reductions -----------------------------------------------------------------------
def esum(v):
    r = X.ZERO
    for e in v:
        r = X.add(r, e)
    return r


def eprod(v):
    r = X.ONE
    for e in v:
        r = X.mul(r, e)
    return r


def _dims(t, dim):
    n = t.dim()
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(n))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(d % max(n, 1) for d in dim)


def red(a, dims, keep, f):
    """reduce object array over dims by f(list of E)"""
    n = a.ndim
    if n == 0:
        return _obj(f([a[()]]))
    rest = [d for d in range(n) if d not in dims]
    b = np.transpose(a, rest + list(dims))
    rs = tuple(a.shape[d] for d in rest)
    b = b.reshape((int(np.prod(rs, dtype=int)), -1)) if b.size else \
        b.reshape((int(np.prod(rs, dtype=int)), 0))
    out = np.empty(b.shape[0], dtype=object)
    for i in range(b.shape[0]):
        out[i] = f(list(b[i]))
    out = out.reshape(rs)
    if keep:
        out = out.reshape(tuple(1 if d in dims else a.shape[d] for d in range(n)))
    return out if isinstance(out, np.ndarray) else _obj(out)


@op('sum')
def _sum(func, t, dim=None, keepdim=False, dtype=None):
    dt = dtype or (t.dtype if t.dtype != torch.bool else torch.int64)
    return make(red(real_e(t.arr()), _dims(t, dim), keepdim, esum), dt)


@op('mean')
def _mean(func, t, dim=None, keepdim=False, dtype=None):
    def f(v):
        if not v:
            return X.NAN
        return X.mul(esum(v), X.const(num.Fraction(1, len(v))))
    return make(red(t.arr(), _dims(t, dim), keepdim, f), t.dtype)


@op('nansum')
def _nansum(func, t, dim=None, keepdim=False, dtype=None):
    return make(red(t.arr(), _dims(t, dim), keepdim,
                    lambda v: esum([x for x in v if x is not X.NAN])), t.dtype)


@op('prod')
def _prod(func, t, dim=None, keepdim=False, dtype=None):
    return make(red(t.arr(), _dims(t, dim), keepdim, eprod), t.dtype)


def _varf(corr):
    def f(v):
        n = len(v)
        m = X.mul(esum(v), X.const(num.Fraction(1, n)))
        s = esum([X.mul(X.sub(x, m), X.sub(x, m)) for x in v])
        if n - corr <= 0:
            return X.NAN
        return X.mul(s, X.const(num.Fraction(1, n - corr)))
    return f


def _corr(k, correction=None, unbiased=None):
    if correction is not None:
        return int(correction)
    return 1 if unbiased in (None, True) else 0


@op('var')
def _var(func, t, dim=None, unbiased=None, keepdim=False, correction=None):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    return make(red(t.arr(), _dims(t, dim), keepdim, _varf(_corr(0, correction, unbiased))), t.dtype)


@op('std')
def _std(func, t, dim=None, unbiased=None, keepdim=False, correction=None):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    f = _varf(_corr(0, correction, unbiased))
    return make(red(t.arr(), _dims(t, dim), keepdim, lambda v: X.sqrt(f(v))), t.dtype)


@op('std_mean', 'var_mean')
def _std_mean(func, t, dim=None, unbiased=None, keepdim=False, correction=None):
    f = _std if 'std' in func._schema.name else _var
    return f(func, t, dim, unbiased, keepdim, correction), _mean(func, t, dim, keepdim)


@op('all')
def _all(func, t, dim=None, keepdim=False):
    def f(v):
        r = X.TRUE
        for x in v:
            r = X.and_(r, x)
        return r
    return make(red(_bools(t), _dims(t, dim), keepdim, f), torch.bool)


@op('any')
def _any(func, t, dim=None, keepdim=False):
    def f(v):
        r = X.FALSE
        for x in v:
            r = X.or_(r, x)
        return r
    return make(red(_bools(t), _dims(t, dim), keepdim, f), torch.bool)


def _gt(a, b):
    return explore.decide(X.lt(b, a))


def _amaxf(v):
    r = v[0]
    for x in v[1:]:
        r = X.maxv(r, x)
    return r


def _aminf(v):
    r = v[0]
    for x in v[1:]:
        r = X.minv(r, x)
    return r


@op('amax')
def _amax(func, t, dim=None, keepdim=False):
    return make(red(t.arr(), _dims(t, dim), keepdim, _amaxf), t.dtype)


@op('amin')
def _amin(func, t, dim=None, keepdim=False):
    return make(red(t.arr(), _dims(t, dim), keepdim, _aminf), t.dtype)


def _argbest(v, better):
    k = 0
    for i in range(len(v)):
        if v[i] is X.NAN:
            return i
    for i in range(1, len(v)):
        if better(v[i], v[k]):
            k = i
    return k


def _minmax(better, f):
    def g(func, t, dim=None, keepdim=False):
        if isinstance(dim, torch.Tensor):
            return pw(X.maxv if f is _amaxf else X.minv, t, dim)
        if dim is None:
            return make(red(t.arr(), _dims(t, None), False, f), t.dtype)
        ds = _dims(t, dim)
        a = real_e(t.arr())
        idx = red(a, ds, keepdim, lambda v: _argbest(v, better))
        vals = red(a, ds, keepdim, lambda v: v[_argbest(v, better)])
        ii = torch_real(lambda: torch.from_numpy(np.array(idx.tolist(), dtype=np.int64)))
        cls = torch.return_types.max if f is _amaxf else torch.return_types.min
        return cls((make(vals, t.dtype), ii))
    return g


H['max'] = _minmax(lambda a, b: _gt(a, b), _amaxf)
H['min'] = _minmax(lambda a, b: _gt(b, a), _aminf)


def _argm(better):
    def g(func, t, dim=None, keepdim=False):
        a = real_e(t.arr())
        idx = red(a, _dims(t, dim), keepdim, lambda v: _argbest(v, better))
        return torch_real(lambda: torch.from_numpy(np.array(idx.tolist(), dtype=np.int64)))
    return g


H['argmax'] = _argm(lambda a, b: _gt(a, b))
H['argmin'] = _argm(lambda a, b: _gt(b, a))


def _sort1(v, desc):
    idx = list(range(len(v)))
    # insertion sort, stable
    for i in range(1, len(v)):
        j = i
        while j > 0:
            a, b = v[idx[j - 1]], v[idx[j]]
            sw = _gt(b, a) if desc else _gt(a, b)
            if not sw:
                break
            idx[j - 1], idx[j] = idx[j], idx[j - 1]
            j -= 1
    return idx


@op('sort')
def _sort(func, t, *a, **k):
    a = list(a)
    if a and (isinstance(a[0], bool) or a[0] is None):
        a.pop(0)
    dim = a[0] if a else k.get('dim', -1)
    desc = a[1] if len(a) > 1 else k.get('descending', False)
    arr = t.arr()
    d = dim % max(arr.ndim, 1)
    m = np.moveaxis(arr, d, -1)
    vals = np.empty(m.shape, dtype=object)
    idx = np.zeros(m.shape, dtype=np.int64)
    for i in np.ndindex(m.shape[:-1]):
        p = _sort1(list(m[i]), desc)
        for q, r in enumerate(p):
            vals[i + (q,)] = m[i][r]
            idx[i + (q,)] = r
    vals, idx = np.moveaxis(vals, -1, d), np.moveaxis(idx, -1, d)
    return torch.return_types.sort((make(vals, t.dtype),
                                    torch_real(lambda: torch.from_numpy(idx.copy()))))


@op('argsort')
def _argsort(func, t, *a, **k):
    return _sort(func, t, *a, **k)[1]


@op('cumsum')
def _cumsum(func, t, dim, dtype=None):
    a = real_e(t.arr()).copy()
    m = np.moveaxis(a, dim, -1)
    for i in np.ndindex(m.shape[:-1]):
        s = X.ZERO
        for j in range(m.shape[-1]):
            s = X.add(s, m[i + (j,)])
            m[i + (j,)] = s
    return make(a, t.dtype)


@op('cumprod')
def _cumprod(func, t, dim, dtype=None):
    a = real_e(t.arr()).copy()
    m = np.moveaxis(a, dim, -1)
    for i in np.ndindex(m.shape[:-1]):
        s = X.ONE
        for j in range(m.shape[-1]):
            s = X.mul(s, m[i + (j,)])
            m[i + (j,)] = s
    return make(a, t.dtype)


@op('nonzero')
def _nonzero(func, t):
    c = concrete_index(make(_bools(t), torch.bool))
    return torch_real(torch.nonzero, c)


@op('count_nonzero')
def _count_nonzero(func, t, dim=None):
    c = concrete_index(make(_bools(t), torch.bool))
    return torch_real(torch.count_nonzero, c, dim)


@op('linalg_vector_norm', 'norm')
def _vnorm(func, t, ord=2, dim=None, keepdim=False, dtype=None):
    if ord is None:
        ord = 2
    if ord == 2:
        f = lambda v: X.sqrt(esum([X.mul(x, x) for x in v]))
    elif ord == 1:
        f = lambda v: esum([X.absv(x) for x in v])
    elif ord == float('inf'):
        f = lambda v: _amaxf([X.absv(x) for x in v])
    elif ord == float('-inf'):
        f = lambda v: _aminf([X.absv(x) for x in v])
    else:
        raise Inconclusive(f'norm order {ord}')
    return make(red(t.arr(), _dims(t, dim), keepdim, f), t.dtype)


# ---- products ---------------------------------------------------------------------------
def emm(a, b):
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise RuntimeError(f'mat1 and mat2 shapes cannot be multiplied ({n}x{k} and {k2}x{m})')
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = X.ZERO
            for q in range(k):
                x, y = a[i, q], b[q, j]
                if x is X.ZERO and not X.is_special(y) or y is X.ZERO and not X.is_special(x):
                    continue
                s = X.add(s, X.mul(x, y))
            out[i, j] = s
    return out


def _same(a, b):
    if a.dtype != b.dtype:
        raise RuntimeError(f'expected m1 and m2 to have the same dtype, but got: {a.dtype} != {b.dtype}')


@op('mm')
def _mm(func, a, b):
    _same(a, b)
    return make(emm(A(a), A(b)), a.dtype)


@op('bmm')
def _bmm(func, a, b):
    _same(a, b)
    x, y = A(a), A(b)
    if x.shape[0] == 0:
        return make(np.empty((0, x.shape[1], y.shape[2]), dtype=object), a.dtype)
    return make(np.stack([emm(x[i], y[i]) for i in range(x.shape[0])]), a.dtype)


@op('mv')
def _mv(func, a, b):
    _same(a, b)
    return make(emm(A(a), A(b)[:, None])[:, 0], a.dtype)


@op('dot', 'vdot')
def _dot(func, a, b):
    _same(a, b)
    return make(_obj(emm(A(a)[None, :], A(b)[:, None])[0, 0]), a.dtype)


@op('addmm')
def _addmm(func, c, a, b, beta=1, alpha=1):
    r = make(emm(A(a), A(b)), a.dtype)
    if alpha != 1:
        r = _mul(None, r, alpha)
    if beta != 1:
        c = _mul(None, sym(c), beta)
    return _add(None, r, c)


@op('addmv')
def _addmv(func, c, a, b, beta=1, alpha=1):
    r = make(emm(A(a), A(b)[:, None])[:, 0], a.dtype)
    return _add(None, _mul(None, sym(c), beta), _mul(None, r, alpha))


@op('baddbmm')
def _baddbmm(func, c, a, b, beta=1, alpha=1):
    r = _mul(None, _bmm(None, a, b), alpha)
    return _add(None, _mul(None, sym(c), beta), r)


@op('linalg_cross')
def _cross(func, a, b, dim=-1):
    x, y = np.moveaxis(A(a), dim, -1), np.moveaxis(A(b), dim, -1)
    x, y = np.broadcast_arrays(x, y)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape[:-1]):
        u, v = x[i], y[i]
        for k in range(3):
            p, q = (k + 1) % 3, (k + 2) % 3
            out[i + (k,)] = X.sub(X.mul(u[p], v[q]), X.mul(u[q], v[p]))
    return make(np.moveaxis(out, -1, dim), a.dtype)


# ---- linear algebra ------------------------------------------------------------------------
def edet(a):
    n = a.shape[0]
    if n == 0:
        return X.ONE
    if n == 1:
        return a[0, 0]
    # expand along the sparsest row
    best = max(range(n), key=lambda i: sum(a[i, j] is X.ZERO for j in range(n)))
    s = X.ZERO
    for j in range(n):
        if a[best, j] is X.ZERO:
            continue
        m = np.delete(np.delete(a, best, 0), j, 1)
        t = X.mul(a[best, j], edet(m))
        s = X.add(s, t) if (best + j) % 2 == 0 else X.sub(s, t)
    return s


def _blocks(a):
    """connected components of the sparsity pattern (symmetric permutation)"""
    n = a.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and (a[i, j] is not X.ZERO or a[j, i] is not X.ZERO):
                comp[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def einv(a):
    n = a.shape[0]
    out = np.empty((n, n), dtype=object)
    out.fill(X.ZERO)
    if any(X.is_special(x) for x in a.reshape(-1)):
        out.fill(X.NAN)
        return out
    for blk in _blocks(a):
        b = a[np.ix_(blk, blk)]
        out[np.ix_(blk, blk)] = _einv_dense(b)
    return out


def _einv_dense(a):
    n = a.shape[0]
    if n <= 3:
        d = edet(a)
        if not explore.nonzero(d):
            raise torch.linalg.LinAlgError('linalg.inv: The diagonal element 1 is zero, the '
                                           'inversion could not be completed because the '
                                           'input matrix is singular.')
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = np.delete(np.delete(a, i, 0), j, 1)
                c = edet(m)
                if (i + j) % 2:
                    c = X.neg(c)
                out[j, i] = X.raw_div(c, d) if d.op == 'c' or c.op == 'c' or True else c
        return out
    eye = np.empty((n, n), dtype=object)
    eye.fill(X.ZERO)
    for i in range(n):
        eye[i, i] = X.ONE
    return gauss(a, eye)


def gauss(a, b):
    """solve a x = b (b: n x m), pivots decided by the explorer"""
    n = a.shape[0]
    a, b = a.copy(), b.copy()
    for c in range(n):
        piv = None
        for r in range(c, n):
            if a[r, c].op == 'c' and num.sign(a[r, c].val) != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if a[r, c] is X.ZERO:
                    continue
                if explore.nonzero(a[r, c]):
                    piv = r
                    break
        if piv is None:
            raise torch.linalg.LinAlgError('singular matrix')
        if piv != c:
            a[[c, piv]] = a[[piv, c]]
            b[[c, piv]] = b[[piv, c]]
        p = a[c, c]
        for j in range(n):
            a[c, j] = X.raw_div(a[c, j], p)
        for j in range(b.shape[1]):
            b[c, j] = X.raw_div(b[c, j], p)
        for r in range(n):
            if r == c or a[r, c] is X.ZERO:
                continue
            f = a[r, c]
            for j in range(n):
                if a[c, j] is not X.ZERO:
                    a[r, j] = X.sub(a[r, j], X.mul(f, a[c, j]))
            for j in range(b.shape[1]):
                if b[c, j] is not X.ZERO:
                    b[r, j] = X.sub(b[r, j], X.mul(f, b[c, j]))
            a[r, c] = X.ZERO
    return b


def batched(a, k):
    """iterate over leading dims, last k dims are the core"""
    lead = a.shape[:a.ndim - k]
    return lead, [a[i] for i in np.ndindex(lead)] if lead else [a]


@op('_linalg_det')
def _ldet(func, a):
    arr = a.arr()
    lead, ms = batched(arr, 2)
    out = np.empty(len(ms), dtype=object)
    for i, m in enumerate(ms):
        out[i] = edet(m)
    return make(out.reshape(lead), a.dtype), sym(a), torch_real(torch.zeros, arr.shape[:-1], dtype=torch.int32)


@op('linalg_inv_ex')
def _linv(func, a, check_errors=False):
    arr = a.arr()
    lead, ms = batched(arr, 2)
    out = np.stack([einv(m) for m in ms]).reshape(arr.shape)
    return torch.return_types.linalg_inv_ex((make(out, a.dtype),
                                             torch_real(torch.zeros, lead, dtype=torch.int32)))


SOLVE_HOOK = [None]


@op('_linalg_solve_ex')
def _lsolve(func, a, b, left=True, check_errors=False):
    x, y = A(a), A(b)
    if SOLVE_HOOK[0] is not None and x.ndim == 2:
        r = SOLVE_HOOK[0](x, y)
        return (make(r, a.dtype), sym(a), torch_real(torch.zeros, a.shape[-1], dtype=torch.int32),
                torch_real(torch.zeros, (), dtype=torch.int32))
    vec = y.ndim == 1 or (y.ndim == x.ndim - 1 and y.shape == x.shape[:-1])
    if vec:
        y = y[..., None]
    lead, ms = batched(x, 2)
    y = np.broadcast_to(y, lead + y.shape[-2:])
    _, ys = batched(y, 2)
    r = []
    for m, w in zip(ms, ys):
        if any(X.is_special(z) for z in m.reshape(-1)) or \
                any(X.is_special(z) for z in w.reshape(-1)):
            q = np.empty(w.shape, dtype=object)
            q.fill(X.NAN)
        elif m.shape[0] <= 3:
            q = emm(_einv_dense(m), w)
        else:
            q = gauss(m, w)
        r.append(q)
    r = np.stack(r).reshape(y.shape)
    if vec:
        r = r[..., 0]
    return (make(r, a.dtype), sym(a), torch_real(torch.zeros, x.shape[:-1], dtype=torch.int32),
            torch_real(torch.zeros, lead, dtype=torch.int32))


@op('trace')
def _trace(func, a):
    x = a.arr()
    return make(_obj(esum([x[i, i] for i in range(min(x.shape))])), a.dtype)


# ---- scatter / index with accumulation -----------------------------------------------------
@op('scatter_add', 'scatter_reduce')
def _scatter_add(func, t, dim, index, src, reduce=None, **k):
    out = A(t).copy()
    ix, s = index.numpy(), A(src)
    for i in np.ndindex(ix.shape):
        p = list(i)
        p[dim] = int(ix[i])
        p = tuple(p)
        out[p] = X.add(out[p], s[i])
    return make(out, t.dtype)


@op('index_add')
def _index_add(func, t, dim, index, src, alpha=1):
    out = A(t).copy()
    s = np.moveaxis(A(src), dim, 0)
    o = np.moveaxis(out, dim, 0)
    k = ex(alpha)
    for j, p in enumerate(index.numpy().reshape(-1)):
        for i in np.ndindex(o.shape[1:]):
            o[(int(p),) + i] = X.add(o[(int(p),) + i], X.mul(k, s[(j,) + i]))
    return make(out, t.dtype)


@op('index_fill')
def _index_fill(func, t, dim, index, v):
    out = A(t).copy()
    o = np.moveaxis(out, dim, 0)
    e = A(v).reshape(-1)[0]
    for p in index.numpy().reshape(-1):
        for i in np.ndindex(o.shape[1:]):
            o[(int(p),) + i] = e
    return make(out, t.dtype)


@op('convolution', 'conv1d')
def _conv(func, x, w, bias=None, stride=(1,), padding=(0,), dilation=(1,), transposed=False,
          output_padding=(0,), groups=1):
    if x.dtype != w.dtype:
        raise RuntimeError(f'expected scalar type {x.dtype} but found {w.dtype}')
    if transposed or x.dim() != 3 or w.dim() != 3 or isinstance(padding, str):
        raise Inconclusive('convolution form not modelled')
    one = lambda v: v if isinstance(v, int) else v[0]
    st, pd, dl = one(stride), one(padding), one(dilation)
    a, k = A(x), A(w)
    n, ci, L = a.shape
    co, cg, K = k.shape
    if ci != cg * groups or co % groups:
        raise RuntimeError('convolution: channels do not match')
    Lo = (L + 2 * pd - dl * (K - 1) - 1) // st + 1
    if Lo < 1:
        raise RuntimeError('Kernel size can\'t be greater than actual input size')
    out = np.empty((n, co, Lo), dtype=object)
    for b in range(n):
        for o in range(co):
            g = o // (co // groups)
            for t in range(Lo):
                e = X.ZERO if bias is None else A(bias)[o]
                for i in range(cg):
                    for j in range(K):
                        p = t * st - pd + j * dl
                        if 0 <= p < L:
                            e = X.add(e, X.mul(k[o, i, j], a[b, g * cg + i, p]))
                out[b, o, t] = e
    return make(out, x.dtype)


@op('replication_pad1d')
def _reppad(func, x, pad):
    a = A(x)
    L = a.shape[-1]
    ix = [min(max(i, 0), L - 1) for i in range(-pad[0], L + pad[1])]
    return make(a[..., ix], x.dtype)


@op('_local_scalar_dense', 'item')
def _lsd(func, t):
    e = t.arr().reshape(-1)[0]
    if e.isbool:
        return explore.decide(e)
    return pyfloat(e)


@op('is_nonzero')
def _isnz(func, t):
    return bool(t)


@op('_unique2', 'unique_dim', 'unique_consecutive')
def _unique(func, t, *a, **k):
    if func._schema.name.endswith('_unique2'):
        v = list(t.arr().reshape(-1))
        v = [v[i] for i in _sort1(v, False)]
        out = []
        inv_src = list(t.arr().reshape(-1))
        for x in v:
            if not out or not explore.decide(X.eq(out[-1], x)):
                out.append(x)
        r = np.empty(len(out), dtype=object)
        for i, x in enumerate(out):
            r[i] = x
        inv = []
        cnt = [0] * len(out)
        for x in inv_src:
            for i, y in enumerate(out):
                if x is y or explore.decide(X.eq(x, y)):
                    inv.append(i)
                    cnt[i] += 1
                    break
        ii = torch_real(lambda: torch.tensor(inv).reshape(tuple(t.shape)))
        return make(r, t.dtype), ii, torch_real(lambda: torch.tensor(cnt))
    raise Inconclusive('unique along a dimension')


@op('isin')
def _isin(func, a, b, assume_unique=False, invert=False):
    bb = A(b).reshape(-1)

    def f(x):
        r = X.FALSE
        for y in bb:
            r = X.or_(r, X.eq(x, y))
        return X.not_(r) if invert else r
    return make(_obj(_uf(f, 1)(A(a))), torch.bool)


@op('topk')
def _topk(func, t, k, dim=-1, largest=True, sorted=True):
    s = _sort(None, t, dim, largest)
    return torch_real(lambda: None) or torch.return_types.topk(
        (s[0].narrow(dim, 0, k), torch_real(lambda: s[1].narrow(dim, 0, k))))


@op('dropout', 'native_dropout')
def _dropout(func, t, p, train):
    if train and p > 0:
        raise Inconclusive('dropout in training mode')
    return (t, sym(torch_real(torch.ones, tuple(t.shape)))) if 'native' in func._schema.name else t


# ---- mode ----------------------------------------------------------------------------------------
class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


_torch_tensor = torch.tensor


def _has_sym(x):
    if isinstance(x, (SymTensor, R)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(y, (R, SymTensor)) for y in x.reshape(-1))
    return False


def sym_tensor(data, *args, dtype=None, **kw):
    """torch.tensor for data with symbolic scalars inside"""
    if not _has_sym(data):
        if isinstance(data, np.ndarray) and data.dtype == object:
            data = data.tolist()
        return _torch_tensor(data, *args, dtype=dtype, **kw)

    def conv(x):
        if isinstance(x, SymTensor):
            return x.arr()
        if isinstance(x, torch.Tensor):
            return A(x)
        if isinstance(x, (list, tuple)):
            return np.stack([conv(y) for y in x]) if x else np.empty((0,), dtype=object)
        if isinstance(x, np.ndarray):
            return _obj(_exu(x))
        return _obj(ex(x))
    a = real_e(conv(data))
    dt = dtype or torch.get_default_dtype()
    if not dt.is_floating_point:
        return _to_copy(None, make(a, torch.float64), dtype=dt)
    t = make(a, dt)
    if kw.get('requires_grad'):
        t = t.requires_grad_(True)
    return t


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, R))

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __eq__(cls, o):
        return o is float or o is SymFloat

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    """stands for the builtin float in the modules under check: float(symbolic) stays symbolic"""

    def __new__(cls, x=0.0):
        if isinstance(x, R):
            return x if not x.e.isbool else R(X.b2r(x.e))
        if isinstance(x, SymTensor):
            e = x.arr().reshape(-1)[0]
            if x.numel() == 1 and not e.isbool and e.op != 'c' and not X.is_special(e):
                return R(e)
        return float(x)


_FLOAT_MODULES = {}


def _float_modules():
    out = []
    for n, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if not f or '/src/hookeai/' not in f:
            continue
        if n not in _FLOAT_MODULES:
            try:
                t = open(f).read()
            except OSError:
                t = ''
            _FLOAT_MODULES[n] = 'float(' in t and 'dtype=float' not in t
        if _FLOAT_MODULES[n] and 'float' not in vars(m):
            out.append(m)
    return out


class Patched:
    """symbolic execution context: dispatch mode plus python-level entry points"""

    def __enter__(self):
        self.saved = [(torch, 'tensor', torch.tensor), (torch, 'from_numpy', torch.from_numpy),
                      (torch, 'as_tensor', torch.as_tensor)]
        self.fm = _float_modules()
        for m in self.fm:
            m.float = SymFloat
        torch.tensor = sym_tensor
        fn0, at0 = torch.from_numpy, torch.as_tensor
        torch.from_numpy = lambda a: sym_tensor(a, dtype=torch.float64) \
            if a.dtype == object else fn0(a)
        torch.as_tensor = lambda a, *r, **k: a if isinstance(a, SymTensor) else (
            sym_tensor(a, *r, **k) if _has_sym(a) else at0(a, *r, **k))
        self.mode = SymMode()
        self.ng = torch.no_grad()
        self.ng.__enter__()
        self.mode.__enter__()
        return self

    def __exit__(self, *e):
        self.mode.__exit__(*e)
        self.ng.__exit__(*e)
        for o, n, v in self.saved:
            setattr(o, n, v)
        for m in self.fm:
            del m.float
        return False
