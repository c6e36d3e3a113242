"""numpy object arrays of Nodes, and the `np` / `math` stand-ins the code under analysis sees."""
import functools
import math
import types
import zlib
import numpy as np
from . import expr as E
from .expr import Node, Cond, Unsupported, NeedConcrete


def has_sym(x):
    if isinstance(x, (Node, Cond)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def base(x):
    """plain object ndarray view/copy"""
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, (Node, Cond)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        return _from_seq(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _from_seq(x):
    items = [base(y) for y in x]
    if not items:
        return np.empty((0,), dtype=object)
    sh = {i.shape for i in items}
    if len(sh) != 1:
        # numpy promotes (1,) and () mixtures only by error; keep the error
        raise ValueError('inhomogeneous array')
    out = np.empty((len(items),) + items[0].shape, dtype=object)
    for k, i in enumerate(items):
        out[k] = i if i.shape else i[()]
    return out


def wrap(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SymArr)
        return x
    return x


def scal(x):
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return x[()]
    return x


def frozen(x):
    """If an object array holds only plain numbers, return the float array."""
    return x


def elementwise(f, *args):
    r = np.frompyfunc(f, len(args), 1)(*[base(a) for a in args])
    if isinstance(r, np.ndarray):
        return wrap(r)
    return r


def _np1(name):
    return lambda a: E.fn(name, a)


def _sign(a):
    a = E.lift(a)
    return E.ite(E.lt(E.const(0.), a), E.const(1.), E.ite(E.lt(a, E.const(0.)), E.const(-1.), E.const(0.)))


def _heaviside(x, h):
    return E.ite(E.lt(x, E.const(0.)), E.const(0.), E.ite(E.lt(E.const(0.), x), E.const(1.), E.lift(h)))


def _gt(a, b): return E.lt(b, a)
def _ge(a, b): return E.le(b, a)
def _ne(a, b): return E.NOT(E.eq(a, b))


def _isfin(a):
    a = E.lift(a)
    return E.bcond(math.isfinite(a.val)) if a.op == 'c' else E.T()


def _isnan(a):
    a = E.lift(a)
    return E.bcond(a.val != a.val) if a.op == 'c' else E.F()


def _isinf(a):
    a = E.lift(a)
    return E.bcond(math.isinf(a.val)) if a.op == 'c' else E.F()


def _eqx(a, b):
    if isinstance(a, (str,)) or isinstance(b, str) or a is None or b is None:
        return E.bcond(a == b)
    if isinstance(a, (Cond, bool, np.bool_)) and isinstance(b, (Cond, bool, np.bool_)):
        a, b = E.liftc(a), E.liftc(b)
        return E.OR(E.AND(a, b), E.AND(E.NOT(a), E.NOT(b)))
    return E.eq(a, b)


def _floordiv(a, b): return E.floor(E.div(a, b))


UFUNCS = {
    np.add: E.add, np.subtract: E.sub, np.multiply: E.mul, np.divide: E.div, np.power: E.pow_,
    np.float_power: E.pow_, np.floor_divide: _floordiv,
    np.remainder: lambda a, b: E.sub(a, E.mul(E.floor(E.div(a, b)), b)),
    np.negative: E.neg, np.positive: lambda a: a, np.absolute: E.absf, np.fabs: E.absf,
    np.maximum: E.maxf, np.minimum: E.minf, np.fmax: E.maxf, np.fmin: E.minf,
    np.sqrt: E.sqrt, np.square: lambda a: E.mul(a, a), np.reciprocal: lambda a: E.div(E.const(1.), a),
    np.cbrt: lambda a: E.pow_(a, E.const(1. / 3.)),
    np.sin: _np1('sin'), np.cos: _np1('cos'), np.tan: _np1('tan'), np.exp: _np1('exp'), np.log: _np1('log'),
    np.log10: E.log10, np.log2: lambda a: E.mul(E.const(1 / math.log(2.)), E.fn('log', a)),
    np.log1p: lambda a: E.fn('log', E.add(a, E.const(1.))),
    np.expm1: lambda a: E.sub(E.fn('exp', a), E.const(1.)),
    np.arcsin: _np1('arcsin'), np.arccos: _np1('arccos'), np.arctan: _np1('arctan'), np.arctan2: E.arctan2,
    np.sinh: _np1('sinh'), np.cosh: _np1('cosh'), np.tanh: _np1('tanh'), np.arcsinh: _np1('arcsinh'),
    np.floor: E.floor, np.ceil: lambda a: E.neg(E.floor(E.neg(a))), np.rint: _np1('round'),
    np.trunc: lambda a: E.ite(E.lt(a, E.const(0.)), E.neg(E.floor(E.neg(a))), E.floor(a)),
    np.sign: _sign, np.heaviside: _heaviside,
    np.less: E.lt, np.less_equal: E.le, np.greater: _gt, np.greater_equal: _ge,
    np.equal: _eqx, np.not_equal: lambda a, b: E.NOT(_eqx(a, b)),
    np.logical_and: E.AND, np.logical_or: E.OR, np.logical_not: E.NOT,
    np.bitwise_and: E.AND, np.bitwise_or: E.OR, np.invert: E.NOT,
    np.isfinite: _isfin, np.isnan: _isnan, np.isinf: _isinf,
    np.deg2rad: lambda a: E.mul(E.const(math.pi / 180), a), np.radians: lambda a: E.mul(E.const(math.pi / 180), a),
    np.rad2deg: lambda a: E.mul(E.const(180 / math.pi), a), np.degrees: lambda a: E.mul(E.const(180 / math.pi), a),
    np.conjugate: lambda a: a, np.hypot: lambda a, b: E.sqrt(E.add(E.mul(a, a), E.mul(b, b))),
}
_BOOLRES = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal, np.logical_and,
            np.logical_or, np.logical_not, np.isfinite, np.isnan, np.isinf}
_PYUF = {u: np.frompyfunc(f, u.nin, 1) for u, f in UFUNCS.items()}
_IDENT = {np.add: 0.0, np.multiply: 1.0, np.logical_and: True, np.logical_or: False}


def ufunc_dispatch(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    kw.pop('dtype', None), kw.pop('casting', None), kw.pop('where', None) if kw.get('where', True) is True else None
    if ufunc is np.matmul:
        r = wrap_any(np.matmul(base(inputs[0]), base(inputs[1])))
    elif ufunc not in _PYUF:
        raise Unsupported('ufunc ' + ufunc.__name__)
    else:
        pf = _PYUF[ufunc]
        if method == '__call__':
            ins = [base(i) for i in inputs]
            if kw:
                raise Unsupported('ufunc kw ' + str(list(kw)))
            r = pf(*ins)
        elif method in ('reduce', 'accumulate', 'outer'):
            ins = [base(i) for i in inputs]
            if method == 'reduce':
                initial = kw.pop('initial', None)
                if initial is np._NoValue:
                    initial = None
                axis = kw.pop('axis', 0)
                keepdims = kw.pop('keepdims', False)
                if kw:
                    raise Unsupported('reduce kw ' + str(kw))
                x = ins[0]
                if axis is None:
                    axis = tuple(range(x.ndim))
                axs = (axis,) if isinstance(axis, (int, np.integer)) else tuple(axis)
                axs = sorted((a % x.ndim for a in axs), reverse=True) if x.ndim else []
                for a in axs:
                    if x.shape[a] == 0:
                        if ufunc not in _IDENT:
                            raise ValueError('zero-size reduction')
                        sh = x.shape[:a] + x.shape[a + 1:]
                        x = np.full(sh, E.const(_IDENT[ufunc]), dtype=object)
                    else:
                        x = pf.reduce(x, axis=a)
                        x = base(x) if not isinstance(x, np.ndarray) else x
                    if keepdims:
                        x = np.expand_dims(x, a)
                if initial is not None:
                    x = pf(x, base(initial))
                r = x
            elif method == 'accumulate':
                axis = kw.pop('axis', 0)
                r = pf.accumulate(ins[0], axis=axis)
            else:
                r = pf.outer(*ins)
        elif method == 'at':
            a, idx, *rest = inputs
            tgt = base(a)
            if rest:
                flat_idx = idx
                vals = np.broadcast_to(base(rest[0]), np.shape(tgt[flat_idx]))
                it = np.asarray(flat_idx).ravel()
                for k, i in enumerate(it):
                    tgt[i] = pf(tgt[i], vals.ravel()[k])
            return None
        else:
            raise Unsupported('ufunc method ' + method)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, np.ndarray) or o.dtype != object:
            raise Unsupported('in-place symbolic result into a concrete array')
        o.view(np.ndarray)[...] = r
        return o
    return wrap_any(r)


def wrap_any(r):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r[()]
        return wrap(r)
    return r


HANDLED = {}


def implements(f):
    def deco(g):
        HANDLED[f] = g
        return g
    return deco


def func_dispatch(func, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)

    def conv(x):
        if isinstance(x, SymArr) or isinstance(x, (Node, Cond)):
            return base(x)
        if isinstance(x, (list, tuple)) and has_sym(x):
            try:
                return type(x)(conv(y) for y in x)
            except TypeError:
                return [conv(y) for y in x]
        return x
    if func.__name__ in _FUNC_OK:
        r = func(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})
        if isinstance(r, tuple):
            return tuple(wrap_any(y) for y in r)
        if isinstance(r, list):
            return [wrap_any(y) for y in r]
        return wrap_any(r)
    raise Unsupported('numpy function ' + func.__name__)


_FUNC_OK = {'reshape', 'ravel', 'tile', 'repeat', 'concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'append',
            'transpose', 'squeeze', 'expand_dims', 'broadcast_to', 'flip', 'roll', 'diag', 'diagonal', 'fill_diagonal',
            'dot', 'outer', 'inner', 'einsum', 'tensordot', 'vdot', 'kron', 'insert', 'delete', 'atleast_1d', 'atleast_2d', 'shape',
            'size', 'ndim', 'copy', 'split', 'take', 'swapaxes', 'moveaxis', 'diff', 'copyto', 'put',
            'broadcast_arrays', 'resize', 'array_split', 'trace', 'iscomplexobj', 'isrealobj', 'flipud', 'fliplr', 'triu', 'tril',
            'rot90', 'cross', 'array_repr', 'array_str', 'may_share_memory', 'shares_memory', 'block', 'result_type',
            'hsplit', 'vsplit', 'dstack', 'meshgrid', 'unique_counts', 'rollaxis', 'pad', 'ediff1d'}


class SymArr(np.ndarray):
    __array_priority__ = 2000.0

    def tolist(self):
        """Python values; the constants among the entries of an integer array are Python integers again."""
        def plain(v):
            if isinstance(v, list):
                return [plain(x) for x in v]
            return int(v.val) if KEEP_INT[0] and isinstance(v, Node) and v.op == 'c' and float(v.val).is_integer() else v
        return plain(base(self).view(np.ndarray).tolist())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return func_dispatch(func, args, kwargs)

    # python conversions
    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(base(self).ravel()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return float(base(self).ravel()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return int(base(self).ravel()[0])

    def __index__(self):
        return base(self).ravel()[0].__index__()

    def astype(self, dtype, *a, **k):
        dtype = _dt(dtype)
        if dtype in (float, complex, np.float64, np.complex128, object) or np.dtype(dtype).kind in 'fcO':
            return wrap(base(self).copy())
        if np.dtype(dtype).kind in 'iu':
            r = _try_float(self)
            if r is not None:
                if KEEP_INT[0]:      # symbolic integers may be stored into it later
                    return wrap(np.array([E.const(float(int(x))) for x in r.ravel()], dtype=object).reshape(r.shape))
                return r.astype(dtype)
        if np.dtype(dtype).kind == 'b':
            return elementwise(E.liftc, self)
        raise NeedConcrete(base(self).ravel()[0], 'astype int')

    @property
    def real(self): return self

    @property
    def imag(self): return np.zeros(self.shape)

    def conj(self): return self
    conjugate = conj

    def any(self, axis=None, **k): return ufunc_dispatch(np.logical_or, 'reduce', (self,), {'axis': axis})
    def all(self, axis=None, **k): return ufunc_dispatch(np.logical_and, 'reduce', (self,), {'axis': axis})
    def sum(self, axis=None, **k): return ufunc_dispatch(np.add, 'reduce', (self,), {'axis': axis, **k})
    def prod(self, axis=None, **k): return ufunc_dispatch(np.multiply, 'reduce', (self,), {'axis': axis, **k})
    def max(self, axis=None, **k): return ufunc_dispatch(np.maximum, 'reduce', (self,), {'axis': axis, **k})
    def min(self, axis=None, **k): return ufunc_dispatch(np.minimum, 'reduce', (self,), {'axis': axis, **k})
    def mean(self, axis=None, **k): return np_mean(self, axis)
    def cumsum(self, axis=None): return np_cumsum(self, axis)
    def dot(self, o): return wrap_any(np.dot(base(self), base(o)))
    def __matmul__(self, o): return wrap_any(np.matmul(base(self), base(o)))
    def __rmatmul__(self, o): return wrap_any(np.matmul(base(o), base(self)))
    def clip(self, a_min=None, a_max=None, **k): return np_clip(self, a_min, a_max)

    def item(self, *a): return base(self).item(*a)

    def argmax(self, *a, **k): return HANDLED[np.argmax](self, *a, **k)
    def argmin(self, *a, **k): return HANDLED[np.argmin](self, *a, **k)
    def sort(self, *a, **k): raise Unsupported('sort')
    def nonzero(self): return np_nonzero(self)
    def round(self, n=0): return elementwise(lambda a: round(E.lift(a), n), self)

    def _ix(self, idx):
        if isinstance(idx, tuple):
            return tuple(self._ix1(i) for i in idx)
        return self._ix1(idx)

    @staticmethod
    def _ix1(i):
        if isinstance(i, SymArr) or (isinstance(i, np.ndarray) and i.dtype == object):
            flat = base(i).ravel()
            if flat.size == 0:
                return base(i).astype(int)
            if all(isinstance(c, (Cond, bool, np.bool_)) for c in flat):
                m = np.array([bool(c) for c in flat], dtype=bool).reshape(i.shape)   # forks
                return m
            return np.array([x.__index__() for x in flat], dtype=int).reshape(i.shape)
        if isinstance(i, Cond):
            return bool(i)
        if isinstance(i, Node):
            if i.op == 'c':
                return int(i.val)
            raise NeedConcrete(i, 'symbolic index')
        if isinstance(i, list) and has_sym(i):
            return SymArr._ix1(wrap(base(i)))
        return i

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self.view(np.ndarray), self._ix(idx))
        if isinstance(r, np.ndarray):
            return wrap(r)
        return r

    def __setitem__(self, idx, val):
        v = val
        if isinstance(v, (SymArr,)):
            v = base(v)
        elif isinstance(v, (list, tuple)):
            v = base(v)
        elif isinstance(v, np.ndarray):
            v = v.astype(object)
        elif isinstance(v, (complex, np.complexfloating)):
            v = E.lift(v)
        np.ndarray.__setitem__(self.view(np.ndarray), self._ix(idx), v)

    def __iter__(self):
        b = base(self)
        for i in range(len(b)):
            r = b[i]
            yield wrap(r) if isinstance(r, np.ndarray) else r

    def __repr__(self):
        return 'SymArr(' + repr(base(self).tolist()) + ')'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __contains__(self, x):
        return bool((self == x).any())


def _try_float(x):
    """float ndarray if every element is a plain number/const, else None"""
    b = base(x)
    flat = []
    for e in b.ravel():
        if isinstance(e, Node):
            if e.op != 'c':
                return None
            flat.append(e.val)
        elif isinstance(e, Cond):
            if e.op not in ('true', 'false'):
                return None
            flat.append(e.op == 'true')
        elif E.isnum(e) or isinstance(e, complex):
            flat.append(e)
        else:
            return None
    return np.array(flat).reshape(b.shape)


# ------------------------------------------------------------------ numpy functions
def np_where(cond, x=None, y=None):
    if x is None:
        return np_nonzero(cond)
    def f(c, a, b):
        if isinstance(c, Node):
            c = E.liftc(c)
        if isinstance(a, (bool, np.bool_, Cond)) and isinstance(b, (bool, np.bool_, Cond)):
            c = E.liftc(c)
            return E.OR(E.AND(c, a), E.AND(E.NOT(c), b))
        return E.ite(c, a, b)
    r = np.frompyfunc(f, 3, 1)(base(cond), base(x), base(y))
    return wrap_any(r) if isinstance(r, np.ndarray) else r


def np_nonzero(a):
    m = SymArr._ix1(elementwise(lambda c: E.liftc(c), a)) if has_sym(a) else np.asarray(a)
    return np.nonzero(np.atleast_1d(m))


def np_mean(a, axis=None, **k):
    n = np.size(base(a)) if axis is None else base(a).shape[axis]
    return ufunc_dispatch(np.add, 'reduce', (a,), {'axis': axis}) / n


def np_cumsum(a, axis=None, **k):
    b = base(a)
    if axis is None:
        b, axis = b.ravel(), 0
    return wrap(_PYUF[np.add].accumulate(b, axis=axis))


def np_clip(a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = elementwise(E.maxf, r, a_min)
    if a_max is not None:
        r = elementwise(E.minf, r, a_max)
    return r


def np_interp(x, xp, fp, **k):
    xs, fs = list(base(xp).ravel()), list(base(fp).ravel())

    def f(x):
        r = E.lift(fs[-1])
        for i in range(len(xs) - 2, -1, -1):
            t = E.div(E.sub(x, xs[i]), E.sub(xs[i + 1], xs[i]))
            r = E.ite(E.lt(x, xs[i + 1]), E.add(E.lift(fs[i]), E.mul(t, E.sub(fs[i + 1], fs[i]))), r)
        return E.ite(E.lt(x, xs[0]), E.lift(fs[0]), r)
    return elementwise(f, x)


def np_piecewise(x, condlist, funclist, *args, **kw):
    x0 = x
    x = wrap(base(x))
    scalar = x.ndim == 0
    if not isinstance(condlist, (list, tuple)) or (len(condlist) and not isinstance(condlist[0], (list, np.ndarray))
                                                   and np.ndim(base(condlist)) == np.ndim(base(x))):
        condlist = [condlist]
    conds = [elementwise(E.liftc, c) for c in condlist]
    fl = list(funclist)
    n = len(conds)
    if len(fl) == n + 1:
        default = fl.pop()
    else:
        default = 0.0

    def val(f):
        return f(x0 if scalar else x, *args, **kw) if callable(f) else f
    r = val(default)
    for c, f in zip(conds, fl):   # later conditions win
        r = np_where(c, val(f), r)
    if not isinstance(r, np.ndarray):
        return r
    return r


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = np_where(c, v, r)
    return r


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise(lambda x, y: E.le(E.absf(E.sub(x, y)), E.add(E.const(atol), E.mul(E.const(rtol), E.absf(y)))), a, b)


_TABLES = {}


def _table_id(a, kind):
    a = np.ascontiguousarray(np.asarray(a, dtype=float))
    key = f'{kind}#{zlib.crc32(a.tobytes()) & 0xffffffff:08x}_{"x".join(map(str, a.shape))}'
    _TABLES[key] = a
    return key


def _search_node(a, x, side):
    key = _table_id(a, 'ss' + side)
    if key not in E.UF:
        E.UF[key] = ((lambda t, a=np.asarray(a, dtype=float): float(np.searchsorted(a, t, side=side))), 'const')
    return E.uf(key, x)


def _lookup_node(a, i, j):
    """Entry a[i, j...] of a constant table at a symbolic (integer valued) row."""
    key = _table_id(a, 'tab') + ''.join(f'_{q}' for q in j)
    if key not in E.UF:
        col = np.asarray(a, dtype=float)[(slice(None),) + tuple(j)]

        def f(i, col=col):
            return float(col[int(i)]) if i == i and -len(col) <= i < len(col) else float('nan')
        E.UF[key] = (f, 'const')
    return E.uf(key, i)


class TabArr(np.ndarray):
    """Constant table whose rows may be selected by a symbolic index."""

    def __getitem__(self, idx):
        if has_sym(idx) and not isinstance(idx, tuple):
            b = np.asarray(self, dtype=float)
            ix = base(idx) if not isinstance(idx, Node) else None
            if ix is None and isinstance(idx, Node) and idx.op != 'c':
                if b.ndim == 1:
                    return _lookup_node(b, idx, ())
                out = np.empty(b.shape[1:], dtype=object)
                for j in np.ndindex(*b.shape[1:]):
                    out[j] = _lookup_node(b, idx, j)
                return wrap(out)
            if ix is not None and all(isinstance(q, Node) for q in ix.ravel()):
                out = np.empty(ix.shape + b.shape[1:], dtype=object)
                for k in np.ndindex(*ix.shape):
                    for j in np.ndindex(*b.shape[1:]):
                        q = ix[k]
                        out[k + j] = E.lift(b[(int(q.val),) + j]) if q.op == 'c' else _lookup_node(b, q, j)
                return wrap(out)
            idx = SymArr._ix1(idx)
        return np.ndarray.__getitem__(self, idx)


def as_table(v):
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and v.dtype.kind == 'f' and v.ndim >= 1 and v.shape[0] > 8:
        return v.view(TabArr)
    return v


def wrap_tables(obj):
    """Replace float table attributes of a component (and of the data records it holds) by TabArr views, on copies."""
    import copy

    def conv(v):
        if type(v) is np.ndarray and v.dtype.kind == 'f' and v.ndim >= 1 and v.shape[0] > 8:
            return v.view(TabArr)
        if type(v) is np.ndarray and v.dtype.kind == 'f' and v.ndim >= 2 and not v.any():      # a work array, written during evaluation
            return wrap(v.astype(object))
        return v
    for k, v in list(vars(obj).items()):
        if k.startswith('_') and k in ('_inputs', '_outputs', '_residuals', '_jacobian'):
            continue
        if isinstance(v, np.ndarray):
            setattr(obj, k, conv(v))
        elif isinstance(v, type) and any(conv(x) is not x for x in vars(v).values()):
            setattr(obj, k, types.SimpleNamespace(**{q: conv(x) for q, x in vars(v).items() if not q.startswith('__')}))
        elif (hasattr(v, '__dict__') and not callable(v) and type(v).__module__.split('.')[0] not in ('openmdao', 'numpy', 'builtins')) \
                or (isinstance(v, tuple) and hasattr(v, '_fields')):
            try:
                if hasattr(v, '_fields'):
                    setattr(obj, k, type(v)(*[conv(x) for x in v]))
                elif any(conv(x) is not x for x in vars(v).values()):
                    c = copy.copy(v)
                    for q, x in vars(c).items():
                        object.__setattr__(c, q, conv(x))
                    setattr(obj, k, c)
            except (TypeError, AttributeError):
                pass


def np_searchsorted(a, v, side='left', **k):
    """Symbolic value in a table: long constant tables give an opaque integer step function, short ones fork."""
    if not has_sym(a) and np.size(a) > 8:
        return elementwise(lambda x: _search_node(a, x, side), v)
    xs = list(base(a).ravel())

    def f(x):
        x = E.lift(x)
        for i, t in enumerate(xs):
            c = E.le(x, t) if side == 'left' else E.lt(x, t)
            if bool(c):
                return i
        return len(xs)
    r = np.frompyfunc(f, 1, 1)(base(v))
    return np.asarray(r.astype(int)) if isinstance(r, np.ndarray) else int(r)


def np_unique(a, *x, **k):
    f = _try_float(a)
    if f is None:
        raise Unsupported('unique of symbolic values')
    return np.unique(f, *x, **k)


for _f, _g in [(np.where, np_where), (np.nonzero, np_nonzero), (np.mean, np_mean), (np.average, np_mean),
               (np.cumsum, np_cumsum), (np.clip, np_clip), (np.interp, np_interp), (np.piecewise, np_piecewise),
               (np.select, np_select), (np.isclose, np_isclose), (np.searchsorted, np_searchsorted),
               (np.unique, np_unique)]:
    HANDLED[_f] = _g
HANDLED[np.allclose] = lambda a, b, **k: ufunc_dispatch(np.logical_and, 'reduce', (np.atleast_1d(np_isclose(a, b, **k)),), {'axis': None})
for _n, _u in [('sum', np.add), ('prod', np.multiply), ('max', np.maximum), ('min', np.minimum), ('amax', np.maximum),
               ('amin', np.minimum), ('any', np.logical_or), ('all', np.logical_and)]:
    def _red(a, axis=None, out=None, _u=_u, **k):
        k.pop('dtype', None)
        k = {q: v for q, v in k.items() if v is not np._NoValue}
        b = wrap(np.atleast_1d(base(a)))
        return ufunc_dispatch(_u, 'reduce', (b,), {'axis': axis, **k})
    HANDLED[getattr(np, _n)] = _red
HANDLED[np.real] = lambda a: a
HANDLED[np.imag] = lambda a: np.zeros(np.shape(base(a)))
HANDLED[np.iscomplexobj] = lambda a: False
HANDLED[np.isrealobj] = lambda a: True
HANDLED[np.iscomplex] = lambda a: np.zeros(np.shape(base(a)), bool)
HANDLED[np.round] = lambda a, decimals=0, **k: elementwise(lambda v: round(E.lift(v), decimals), a)
HANDLED[np.around] = HANDLED[np.round]
HANDLED[np.nan_to_num] = lambda a, **k: a
HANDLED[np.count_nonzero] = lambda a, **k: int(np.count_nonzero(np.atleast_1d(SymArr._ix1(elementwise(E.liftc, a)))))
HANDLED[np.zeros_like] = lambda a, *x, **k: SymNP.zeros(np.shape(base(a)))
HANDLED[np.ones_like] = lambda a, *x, **k: SymNP.ones(np.shape(base(a)))
HANDLED[np.empty_like] = lambda a, *x, **k: SymNP.empty(np.shape(base(a)))
HANDLED[np.full_like] = lambda a, v, *x, **k: SymNP.full(np.shape(base(a)), v)
HANDLED[np.array_equal] = lambda a, b, **k: (np.shape(base(a)) == np.shape(base(b))) and bool(
    ufunc_dispatch(np.logical_and, 'reduce', (np.atleast_1d(elementwise(_eqx, a, b)),), {'axis': None}))


def _trapz(y, x=None, dx=1.0, **k):
    y = base(y)
    if x is None:
        d = [dx] * (len(y) - 1)
    else:
        x = base(x)
        d = [x[i + 1] - x[i] for i in range(len(y) - 1)]
    r = E.const(0.0)
    for i in range(len(y) - 1):
        r = r + (y[i] + y[i + 1]) * d[i] * 0.5
    return r


if hasattr(np, 'trapezoid'):
    HANDLED[np.trapezoid] = _trapz


_stale_counter = [0]


DTYPES = {}      # stand-ins for float / int used as dtype


def _dt(dtype):
    return DTYPES.get(dtype, dtype) if isinstance(dtype, type) else dtype


def _numkind(dtype):
    return dtype is None or dtype in (float, complex, object) or np.dtype(dtype).kind in 'fcO'


def _shape(shape):
    if isinstance(shape, Node):
        return (shape.__index__(),)
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    if isinstance(shape, SymArr):
        return tuple(x.__index__() for x in shape)
    return tuple(int(x.__index__()) for x in shape)


class _SymNPType:
    """Stand-in for the numpy module during symbolic execution: creation functions give object arrays
    (so that symbolic values can be stored), everything else is numpy itself."""
    __name__ = 'numpy'
    ndarray = np.ndarray
    float64 = np.float64

    def __getattr__(self, name):
        return getattr(np, name)

    def zeros(self, shape, dtype=None, **k):
        if not _numkind(dtype):
            return np.zeros(_shape(shape), dtype)
        return wrap(np.full(_shape(shape), 0.0, dtype=object))

    def ones(self, shape, dtype=None, **k):
        if not _numkind(dtype):
            return np.ones(_shape(shape), dtype)
        return wrap(np.full(_shape(shape), 1.0, dtype=object))

    def empty(self, shape, dtype=None, **k):
        if not _numkind(dtype):
            return np.empty(_shape(shape), dtype)
        sh = _shape(shape)
        a = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            _stale_counter[0] += 1
            a[i] = E.var(f'__uninit{_stale_counter[0]}')
        return wrap(a)

    def full(self, shape, fill_value, dtype=None, **k):
        if not _numkind(dtype) or isinstance(fill_value, (str,)):
            return np.full(_shape(shape), fill_value, dtype)
        a = np.empty(_shape(shape), dtype=object)
        a[...] = base(fill_value)
        return wrap(a)

    def zeros_like(self, a, dtype=None, **k): return self.zeros(np.shape(base(a)))
    def ones_like(self, a, dtype=None, **k): return self.ones(np.shape(base(a)))
    def empty_like(self, a, dtype=None, **k): return self.empty(np.shape(base(a)))
    def full_like(self, a, v, dtype=None, **k): return self.full(np.shape(base(a)), v)

    def eye(self, *a, **k):
        return wrap(np.eye(*[int(x.__index__()) if isinstance(x, Node) else x for x in a], **k).astype(object))

    def identity(self, n): return self.eye(n)

    def array(self, x, dtype=None, copy=True, **k):
        dtype = _dt(dtype)
        if isinstance(x, str) or (isinstance(x, (list, tuple)) and x and isinstance(x[0], str)):
            return np.array(x, **k)
        if has_sym(x):
            if dtype is not None and not _numkind(dtype):
                if np.dtype(dtype).kind == 'b':
                    return elementwise(E.liftc, x)
                return wrap(base(x)).astype(dtype) if not KEEP_INT[0] else wrap(base(x).copy())
            b = base(x)
            return wrap(b.copy())
        a = np.array(x, dtype=dtype, **k)
        if dtype is not None and not _numkind(dtype) and not (KEEP_INT[0] and a.dtype.kind == 'i'):
            return a
        if a.dtype.kind in 'fc':
            return wrap(a.astype(object))
        if a.dtype.kind == 'i' and KEEP_INT[0]:
            return wrap(np.array([E.const(float(v)) for v in a.ravel()] + [None], dtype=object)[:-1].reshape(a.shape))
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArr):
            return x if _numkind(dtype) else x.astype(dtype)
        return self.array(x, dtype=dtype, **k)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None): return self.asarray(x, dtype)

    def atleast_1d(self, x, *a):
        if has_sym(x):
            return wrap(np.atleast_1d(base(x)))
        return np.atleast_1d(x)

    def arange(self, *a, **k):
        return np.arange(*[x.__index__() if isinstance(x, Node) else x for x in a], **k)

    def linspace(self, start, stop, num=50, endpoint=True, **k):
        if has_sym(start) or has_sym(stop):
            n = int(num)
            d = (n - 1) if endpoint else n
            r = [start + (stop - start) * (i / d) if d else start for i in range(n)]
            return wrap(base(r))
        return np.linspace(start, stop, int(num), endpoint, **k)

    def where(self, c, *a):
        if has_sym(c) or any(has_sym(x) for x in a):
            return np_where(c, *a)
        return np.where(c, *a)

    def piecewise(self, x, cl, fl, *a, **k):
        if has_sym(x) or has_sym(cl):
            return np_piecewise(x, cl, fl, *a, **k)
        return np.piecewise(x, cl, fl, *a, **k)

    def select(self, cl, fl, default=0):
        if has_sym(cl) or has_sym(fl):
            return np_select(cl, fl, default)
        return np.select(cl, fl, default)

    def isscalar(self, x): return isinstance(x, Node) or np.isscalar(x)
    def isreal(self, x): return True if has_sym(x) else np.isreal(x)
    def vectorize(self, f, *a, **k):
        def g(*xs):
            return elementwise(f, *xs)
        return g

    def float64(self, x): return x if isinstance(x, (Node, SymArr)) else np.float64(x)

    def iscomplexobj(self, x): return False if has_sym(x) else np.iscomplexobj(x)
    def isrealobj(self, x): return True if has_sym(x) else np.isrealobj(x)

    def concatenate(self, seq, *a, **k):
        if any(has_sym(x) for x in seq):
            return wrap(np.concatenate([np.atleast_1d(base(x)) if np.ndim(base(x)) == 0 else base(x) for x in seq], *a, **k))
        return as_table(np.concatenate(seq, *a, **k))

    def hstack(self, seq, **k):
        if any(has_sym(x) for x in seq):
            return wrap(np.hstack([base(x) for x in seq]))
        return as_table(np.hstack(seq, **k))

    def vstack(self, seq, **k):
        if any(has_sym(x) for x in seq):
            return wrap(np.vstack([base(x) for x in seq]))
        return np.vstack(seq, **k)

    def stack(self, seq, *a, **k):
        if any(has_sym(x) for x in seq):
            return wrap(np.stack([base(x) for x in seq], *a, **k))
        return np.stack(seq, *a, **k)

    def column_stack(self, seq):
        if any(has_sym(x) for x in seq):
            return wrap(np.column_stack([base(x) for x in seq]))
        return np.column_stack(seq)

    def append(self, a, v, axis=None):
        if has_sym(a) or has_sym(v):
            return wrap(np.append(base(a), base(v), axis))
        return as_table(np.append(a, v, axis))


def _seqfix(name):
    real = getattr(np, name)

    def g(self, *args, **kw):
        if any(has_sym(a) for a in args):
            args = [wrap(base(a)) if isinstance(a, (list, tuple)) and has_sym(a) else a for a in args]
            return func_dispatch(real, args, kw)
        return real(*args, **kw)
    g.__name__ = name
    return g


for _n in ('sum', 'prod', 'max', 'min', 'amax', 'amin', 'any', 'all', 'mean', 'average', 'cumsum', 'clip', 'interp', 'dot', 'outer',
           'tile', 'repeat', 'reshape', 'isclose', 'allclose', 'searchsorted', 'unique', 'einsum', 'diff', 'flip', 'ravel',
           'round', 'around', 'nonzero', 'array_equal', 'real', 'imag', 'nan_to_num', 'broadcast_to', 'transpose', 'cross',
           'diag', 'tensordot', 'inner', 'matmul', 'squeeze', 'count_nonzero', 'trapezoid', 'roll'):
    if hasattr(np, _n):
        if _n == 'matmul':
            setattr(_SymNPType, _n, lambda self, a, b: wrap_any(np.matmul(base(a), base(b))) if has_sym(a) or has_sym(b) else np.matmul(a, b))
        else:
            setattr(_SymNPType, _n, _seqfix(_n))

SymNP = _SymNPType()


class _SymMathType:
    def __getattr__(self, name):
        return getattr(math, name)


def _mathfn(name, f):
    real = getattr(math, name)

    def g(self, *a, **k):
        a = [x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in a]
        if any(has_sym(x) for x in a):
            return f(*a, **k)
        return real(*a, **k)
    return g


def _math_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    """math.isclose: |a - b| <= max(rel_tol max(|a|, |b|), abs_tol); an infinity is close to nothing but itself."""
    if any(not isinstance(x, Node) and math.isinf(x) for x in (a, b)):
        return False
    a, b = E.lift(a), E.lift(b)
    d = E.absf(E.sub(a, b))
    return E.OR(E.le(d, abs_tol), E.OR(E.le(d, E.mul(E.const(rel_tol), E.absf(a))), E.le(d, E.mul(E.const(rel_tol), E.absf(b)))))


def _order(rows):
    """Stable sorting permutation of tuples of numbers (comparisons of symbolic numbers fork)."""
    import functools

    def cmp(i, j):
        for x, y in zip(rows[i], rows[j]):
            if x is y:
                continue
            if not isinstance(x, Node) and not isinstance(y, Node):
                if x != y:
                    return -1 if x < y else 1
                continue
            if bool(E.lt(x, y)):
                return -1
            if bool(E.lt(y, x)):
                return 1
        return 0
    return np.array(sorted(range(len(rows)), key=functools.cmp_to_key(cmp)), dtype=int)


def np_lexsort(keys, axis=-1):
    ks = [list(base(k).ravel()) for k in keys][::-1]
    return _order(list(zip(*ks)))


def np_argsort(a, axis=-1, **k):
    b = base(a)
    if b.ndim != 1:
        raise Unsupported('argsort of a matrix')
    return _order([(x,) for x in b])


def np_sort(a, axis=-1, **k):
    return wrap(base(a)[np_argsort(a)])


def _argext(lt):
    def g(a, axis=None, **k):
        b = base(a)
        if axis is not None and b.ndim != 1:
            raise Unsupported('argmin along an axis')
        best = 0
        b = b.ravel()
        for i in range(1, len(b)):
            if bool(lt(b[i], b[best])):
                best = i
        return best
    return g


def np_pad(a, pad_width, mode='constant', constant_values=0, **k):
    pw = np.array(base(pad_width), dtype=int).tolist()
    if not has_sym(a):
        return np.pad(a, pw, mode=mode, constant_values=constant_values)
    return wrap(np.pad(base(a), pw, mode=mode, constant_values=constant_values))


for _f, _g in [(np.lexsort, np_lexsort), (np.argsort, np_argsort), (np.sort, np_sort), (np.pad, np_pad),
               (np.argmin, _argext(lambda x, y: E.lt(x, y))), (np.argmax, _argext(lambda x, y: E.lt(y, x)))]:
    HANDLED[_f] = _g
_SymNPType.pad = lambda self, a, pad_width, **k: np_pad(a, pad_width, **k)
for _n in ('lexsort', 'argsort', 'sort', 'argmin', 'argmax'):
    setattr(_SymNPType, _n, _seqfix(_n))


for _n, _f in dict(sin=_np1('sin'), cos=_np1('cos'), tan=_np1('tan'), exp=_np1('exp'), log=_np1('log'), sqrt=E.sqrt,
                   asin=_np1('arcsin'), acos=_np1('arccos'), atan=_np1('arctan'), atan2=E.arctan2, log10=E.log10,
                   pow=E.pow_, fabs=E.absf, tanh=_np1('tanh'), sinh=_np1('sinh'), cosh=_np1('cosh'),
                   radians=lambda a: E.mul(E.const(math.pi / 180), a), degrees=lambda a: E.mul(E.const(180 / math.pi), a),
                   floor=E.floor, ceil=lambda a: E.neg(E.floor(E.neg(a))), isnan=lambda a: False,
                   isclose=_math_isclose).items():
    setattr(_SymMathType, _n, _mathfn(_n, _f))
SymMath = _SymMathType()

_PATCHED = {np.__name__: SymNP}


_PLANS = {}


class patched:
    """Replace the module-level numpy/math bindings of the given modules during symbolic execution."""

    def __init__(self, modules):
        self.mods = modules

    def __enter__(self):
        self.saved = []
        import openmdao.utils.cs_safe as cs
        sub = {id(np): SymNP, id(math): SymMath}
        if USE_CONTRACTS[0]:
            contracts()
        key = (tuple(map(id, self.mods)), USE_CONTRACTS[0], len(_FUNC_SUBST))
        plan = _PLANS.get(key)
        if plan is None:
            plan = _PLANS[key] = []
            for m in self.mods:
                d = vars(m)
                for k, v in list(d.items()):
                    if k.startswith('__'):
                        continue
                    r = sub.get(id(v))
                    if r is None:
                        r = _FUNC_SUBST.get(v) if getattr(v, '__hash__', None) and callable(v) and _hashable(v) else None
                    if r is not None:
                        plan.append((d, k, v, r))
        for d, k, v, r in plan:
            if d.get(k) is v:
                self.saved.append((d, k, v))
                d[k] = r
        d = vars(cs)
        for k, v in dict(abs=_cs_abs, arctan2=_cs_arctan2, norm=_cs_norm).items():
            if k in d:
                self.saved.append((d, k, d[k]))
                d[k] = v
        from . import interp
        self.interp = interp.patch()
        return self

    def __exit__(self, *a):
        from . import interp
        interp.undo(self.interp)
        for d, k, v in self.saved:
            d[k] = v


def _hashable(v):
    try:
        hash(v)
        return True
    except Exception:
        return False


def _cs_abs(x):
    return elementwise(E.absf, x) if isinstance(x, np.ndarray) else E.absf(x)


def _cs_arctan2(y, x):
    return elementwise(E.arctan2, y, x)


def _cs_norm(x, axis=None):
    return SymNP.sum(elementwise(lambda a: a * a, x), axis) ** 0.5


def _contract(name, op, scale):
    """Callee contract standing in for aviary.utils.math.<name> (the contract itself is the obligation of property C14)."""
    import aviary.utils.math as am
    real = getattr(am, name)

    @functools.wraps(real)
    def g(x, x0, mu=1.0):
        if not (has_sym(x) or has_sym(x0) or has_sym(mu)):
            return real(x, x0, mu)
        if bool(E.eq(E.lift(mu) if not isinstance(mu, np.ndarray) else E.lift(base(mu).ravel()[0]), E.const(0.0))):
            raise ValueError('mu must be non-zero')

        def f(a, b, m):
            a, b, m = E.lift(a), E.lift(b), E.lift(m)
            r = E.fn(op, E.div(E.sub(a, b), m))
            return E.div(r, m) if scale else r
        r = elementwise(f, x, x0, mu)
        if isinstance(x, np.ndarray) and np.ndim(x) != 1:
            return wrap(base(r).ravel())
        return r
    g.__wrapped_real__ = real
    return g


def contracts():
    import aviary.utils.math as am
    if am.sigmoidX not in _FUNC_SUBST:
        _FUNC_SUBST[am.sigmoidX] = _contract('sigmoidX', 'sigm', False)
        _FUNC_SUBST[am.dSigmoidXdx] = _contract('dSigmoidXdx', 'dsigm', True)


USE_CONTRACTS = [True]
KEEP_INT = [False]


_FUNC_SUBST = {math.floor: lambda x: SymMath.floor(x), math.log10: lambda x: SymMath.log10(x), math.sqrt: lambda x: SymMath.sqrt(x),
               math.exp: lambda x: SymMath.exp(x), math.log: lambda x: SymMath.log(x), math.sin: lambda x: SymMath.sin(x),
               math.cos: lambda x: SymMath.cos(x), math.atan2: lambda y, x: SymMath.atan2(y, x), math.pow: lambda x, y: SymMath.pow(x, y)}
