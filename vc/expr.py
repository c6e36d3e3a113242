"""Hash-consed expression DAG over the reals: construction, differentiation, evaluation.

Arithmetic is mathematical (real numbers); floats in the code are taken as the reals they
denote.  Division by zero and out-of-domain arguments are excluded by assumption (the
obligations quantify over points where every subterm is defined)."""
import math
import numpy as np


class Unsupported(Exception):
    """The engine cannot model an operation; the obligation is undecided, never a violation."""


class NeedConcrete(Exception):
    """Code needs a concrete value of a symbolic quantity (index, int(), range())."""

    def __init__(self, node, what=''):
        super().__init__(what)
        self.node = node


_TABLE = {}
_KEEP = []

COMM = {'add', 'mul'}


def reset():
    _TABLE.clear()
    _KEEP.clear()


class Node:
    __slots__ = ('op', 'args', 'val', 'id', '__weakref__')
    __array_priority__ = 1000.0

    # ------------------------------------------------------------------ numbers
    def __add__(s, o): return _bin('add', s, o)
    def __radd__(s, o): return _bin('add', o, s)
    def __sub__(s, o): return _bin('sub', s, o)
    def __rsub__(s, o): return _bin('sub', o, s)
    def __mul__(s, o): return _bin('mul', s, o)
    def __rmul__(s, o): return _bin('mul', o, s)
    def __truediv__(s, o): return _bin('div', s, o)
    def __rtruediv__(s, o): return _bin('div', o, s)
    def __pow__(s, o): return _bin('pow', s, o)
    def __rpow__(s, o): return _bin('pow', o, s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return absf(s)

    def __floordiv__(s, o): return floor(_bin('div', s, o))
    def __rfloordiv__(s, o): return floor(_bin('div', o, s))

    def __mod__(s, o):
        return _bin('sub', s, _bin('mul', floor(_bin('div', s, o)), o))

    def __lt__(s, o): return _cmp('lt', s, o)
    def __le__(s, o): return _cmp('le', s, o)
    def __gt__(s, o): return _cmp('lt', o, s)
    def __ge__(s, o): return _cmp('le', o, s)
    def __eq__(s, o): return _cmp('eq', s, o)

    def __ne__(s, o):
        c = _cmp('eq', s, o)
        if c is NotImplemented:
            return c
        return NOT(c) if not isinstance(c, np.ndarray) else _symarr_map(NOT, c)

    def __hash__(s): return s.id

    def __bool__(s):
        return bool(_cmp('eq', s, 0.0)) is False

    def __float__(s):
        if s.op == 'c':
            return s.val
        raise NeedConcrete(s, 'float()')

    def __int__(s):
        if s.op == 'c':
            return int(s.val)
        raise NeedConcrete(s, 'int()')

    def __index__(s):
        if s.op == 'c' and s.val == int(s.val):
            return int(s.val)
        raise NeedConcrete(s, '__index__')

    def __complex__(s):
        return complex(float(s))

    def __round__(s, n=None):
        if n in (None, 0):
            return fn('round', s)
        k = 10.0 ** n
        return fn('round', s * k) / k

    def __floor__(s): return floor(s)
    def __ceil__(s): return -floor(-s)

    # numpy-scalar look-alikes
    @property
    def real(s): return s

    @property
    def imag(s): return 0.0

    @property
    def shape(s): return ()

    @property
    def size(s): return 1

    @property
    def ndim(s): return 0

    @property
    def dtype(s): return np.dtype(float)

    @property
    def T(s): return s

    def conjugate(s): return s

    def item(s): return s
    def copy(s): return s
    def astype(s, *a, **k): return s
    def flatten(s):
        from . import symarr
        return symarr.wrap(np.array([s], dtype=object))
    ravel = flatten

    def reshape(s, *shape):
        from . import symarr
        a = np.empty(1, dtype=object)
        a[0] = s
        return symarr.wrap(a.reshape(*shape))

    def __deepcopy__(s, memo): return s
    def __copy__(s): return s
    def __reduce__(s): raise TypeError('Node is not picklable')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symarr
        return symarr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symarr
        return symarr.func_dispatch(func, args, kwargs)

    def __array__(s, dtype=None, copy=None):
        if s.op == 'c':
            return np.array(s.val)
        a = np.empty((), dtype=object)
        a[()] = s
        return a

    def __repr__(s):
        return show(s, 6)

    def __str__(s):
        return SPELL[0](s) if SPELL[0] else show(s, 6)

    def __format__(s, spec):
        if spec in ('', 's'):
            return str(s)
        return SPELL[0](s, spec) if SPELL[0] else show(s, 6)


SPELL = [None]      # how a symbolic number is spelled in text (vc/data.py: tokens that read back as the number)


class Cond:
    """Boolean node. op in lt, le, eq, and, or, not, true, false"""
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __bool__(s):
        from . import explore
        return explore.decide(s)

    def __and__(s, o): return AND(s, o)
    __rand__ = __and__
    def __or__(s, o): return OR(s, o)
    __ror__ = __or__
    def __invert__(s): return NOT(s)
    def __hash__(s): return s.id

    def __eq__(s, o):
        if isinstance(o, (bool, np.bool_)):
            return s if o else NOT(s)
        return s is o

    # arithmetic on booleans (bool arrays used as 0/1 factors)
    def _n(s): return ite(s, const(1.0), const(0.0))
    def __mul__(s, o): return s._n() * o
    __rmul__ = __mul__
    def __add__(s, o): return s._n() + o
    __radd__ = __add__
    def __sub__(s, o): return s._n() - o
    def __rsub__(s, o): return o - s._n()
    def __index__(s): return int(bool(s))
    def __int__(s): return int(bool(s))
    def __float__(s): return float(bool(s))

    def any(s, *a, **k): return s
    def all(s, *a, **k): return s

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symarr
        return symarr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symarr
        return symarr.func_dispatch(func, args, kwargs)

    def __repr__(s):
        return show(s, 5)

    def __deepcopy__(s, memo): return s


def _mk(cls, op, args, val=None):
    key = (op, tuple(a.id if isinstance(a, (Node, Cond)) else a for a in args), val)
    n = _TABLE.get(key)
    if n is None:
        n = object.__new__(cls)
        n.op, n.args = op, tuple(args)
        if cls is Node:
            n.val = val
        n.id = len(_KEEP)
        _KEEP.append(n)
        _TABLE[key] = n
    return n


def const(v):
    v = float(v)
    if v == 0:
        v = 0.0
    return _mk(Node, 'c', (), v if v == v else 'nan') if v == v else _nan()


def _nan():
    n = _mk(Node, 'c', (), 'nan')
    n.val = math.nan
    return n


def var(name):
    return _mk(Node, 'v', (), name)


def isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_)) and not isinstance(x, Node)


def lift(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, Cond):
        return ite(x, const(1.0), const(0.0))
    if isnum(x):
        return const(float(x))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return const(x.real)
        raise Unsupported('complex constant')
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    from enum import Enum
    if isinstance(x, Enum) and isnum(x.value):
        return const(float(x.value))
    return None


def _bin(op, a, b):
    if isinstance(a, np.ndarray) and a.ndim > 0 or isinstance(b, np.ndarray) and b.ndim > 0 \
            or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        from . import symarr
        return symarr.elementwise(BINOPS[op], a, b)
    a, b = lift(a), lift(b)
    if a is None or b is None:
        return NotImplemented
    return BINOPS[op](a, b)


def _symarr_map(f, a):
    from . import symarr
    return symarr.elementwise(f, a)


def _cmp(op, a, b):
    if isinstance(a, np.ndarray) and a.ndim > 0 or isinstance(b, np.ndarray) and b.ndim > 0:
        from . import symarr
        return symarr.elementwise(CMPOPS[op], a, b)
    if isinstance(b, str) or isinstance(a, str) or a is None or b is None:
        return False
    a, b = lift(a), lift(b)
    if a is None or b is None:
        return NotImplemented
    return CMPOPS[op](a, b)


# ---------------------------------------------------------------- smart constructors
def isc(n, v=None):
    return n.op == 'c' and (v is None or n.val == v)


def add(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'c' and b.op == 'c':
        return const(a.val + b.val)
    if isc(a, 0.0):
        return b
    if isc(b, 0.0):
        return a
    if b.id < a.id:
        a, b = b, a
    return _mk(Node, 'add', (a, b))


def neg(a):
    a = lift(a)
    if a.op == 'c':
        return const(-a.val)
    return mul(const(-1.0), a)


def sub(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return const(0.0)
    return add(a, neg(b))


def mul(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'c' and b.op == 'c':
        return const(a.val * b.val)
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if a.val == 0.0:
            return const(0.0)
        if a.val == 1.0:
            return b
        if b.op == 'mul' and b.args[0].op == 'c':
            return mul(const(a.val * b.args[0].val), b.args[1])
        return _mk(Node, 'mul', (a, b))
    if b.id < a.id:
        a, b = b, a
    return _mk(Node, 'mul', (a, b))


def div(a, b):
    a, b = lift(a), lift(b)
    if b.op == 'c':
        if b.val == 0.0:
            if a.op == 'c':
                return const(math.nan) if a.val == 0 or a.val != a.val else const(math.copysign(math.inf, a.val))
            return const(math.nan)
        if a.op == 'c':
            return const(a.val / b.val)
        return mul(const(1.0 / b.val), a) if 1.0 / b.val * b.val == 1.0 else _mk(Node, 'div', (a, b))
    if isc(a, 0.0):
        return a
    return _mk(Node, 'div', (a, b))


def pow_(a, b):
    a, b = lift(a), lift(b)
    if b.op == 'c':
        if b.val == 0.0:
            return const(1.0)
        if b.val == 1.0:
            return a
        if a.op == 'c':
            try:
                return const(a.val ** b.val)
            except (ZeroDivisionError, OverflowError, TypeError):
                return const(math.nan)
            except Exception:
                pass
    if isc(a, 1.0):
        return a
    if isc(a, 0.0):
        return const(0.0)
    return _mk(Node, 'pow', (a, b))


_PYF = dict(sin=math.sin, cos=math.cos, tan=math.tan, exp=math.exp, log=math.log, arcsin=math.asin,
            arccos=math.acos, arctan=math.atan, sinh=math.sinh, cosh=math.cosh, tanh=math.tanh,
            floor=math.floor, round=round, arcsinh=math.asinh,
            sigm=lambda t: 1 / (1 + math.exp(-t)) if t > -320 else 0.0,
            dsigm=lambda t: math.exp(-t) / (1 + math.exp(-t)) ** 2 if t > -320 else 0.0)


def fn(name, a):
    a = lift(a)
    if a.op == 'c':
        try:
            return const(_PYF[name](a.val))
        except (ValueError, OverflowError):
            return const(math.nan)
    return _mk(Node, name, (a,))


def floor(a): return fn('floor', a)
def sqrt(a): return pow_(a, const(0.5))
def log10(a): return mul(const(1.0 / math.log(10.0)), fn('log', a))


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.op == 'c' and x.op == 'c':
        return const(math.atan2(y.val, x.val))
    return _mk(Node, 'arctan2', (y, x))


def absf(a):
    a = lift(a)
    if a.op == 'c':
        return const(abs(a.val))
    return ite(CMPOPS['lt'](a, const(0.0)), neg(a), a)


def maxf(a, b):
    a, b = lift(a), lift(b)
    return ite(CMPOPS['lt'](a, b), b, a)


def minf(a, b):
    a, b = lift(a), lift(b)
    return ite(CMPOPS['lt'](b, a), b, a)


def uf(name, *args):
    """Uninterpreted function application; name may carry a python object for evaluation in UF."""
    return _mk(Node, 'uf', tuple(lift(a) for a in args), name)


def uf_eval(f, args):
    v = getattr(f, 'vec', None)
    return v(*args) if v is not None else np.vectorize(f, otypes=[float])(*args)


UF = {}  # name -> (callable(*floats), {argindex: derivative uf name} or None)


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return _mk(Node, 'ite', (c, a, b))


TRUE = FALSE = None


def _tf():
    return _mk(Cond, 'true', ()), _mk(Cond, 'false', ())


def T(): return _mk(Cond, 'true', ())
def F(): return _mk(Cond, 'false', ())


def bcond(b): return T() if b else F()


def lt(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'c' and b.op == 'c':
        return bcond(a.val < b.val)
    if a is b:
        return F()
    return _mk(Cond, 'lt', (a, b))


def le(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'c' and b.op == 'c':
        return bcond(a.val <= b.val)
    if a is b:
        return T()
    return _mk(Cond, 'not', (lt(b, a),))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'c' and b.op == 'c':
        return bcond(a.val == b.val)
    if a is b:
        return T()
    if b.id < a.id:
        a, b = b, a
    return _mk(Cond, 'eq', (a, b))


def liftc(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, Node):
        return NOT(eq(x, const(0.0)))
    return bcond(bool(x))


def NOT(c):
    c = liftc(c)
    if c.op == 'true':
        return F()
    if c.op == 'false':
        return T()
    if c.op == 'not':
        return c.args[0]
    return _mk(Cond, 'not', (c,))


def AND(a, b):
    a, b = liftc(a), liftc(b)
    if a.op == 'false' or b.op == 'false':
        return F()
    if a.op == 'true':
        return b
    if b.op == 'true' or a is b:
        return a
    return _mk(Cond, 'and', (a, b))


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


BINOPS = dict(add=add, sub=sub, mul=mul, div=div, pow=pow_)
CMPOPS = dict(lt=lt, le=le, eq=eq)


# ---------------------------------------------------------------- traversal
def topo(roots):
    """Post-order list of all nodes/conds reachable from roots."""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, (Node, Cond)) and a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return {n.val for n in topo(roots) if n.op == 'v'}


def subst(roots, mapping, condmap=None):
    """Rebuild roots with {node id: node} replacements; condmap {cond id: bool} resolves ites."""
    memo = dict(mapping)
    condmap = condmap or {}
    for n in topo(roots):
        if n.id in memo:
            continue
        if isinstance(n, Cond):
            if n.id in condmap:
                memo[n.id] = bcond(condmap[n.id])
                continue
            if not n.args:
                memo[n.id] = n
                continue
            a = [memo[x.id] for x in n.args]
            memo[n.id] = {'lt': lt, 'eq': eq, 'and': AND, 'not': NOT}[n.op](*a)
            continue
        if not n.args:
            memo[n.id] = n
            continue
        a = [memo[x.id] if isinstance(x, (Node, Cond)) else x for x in n.args]
        if all(x is y for x, y in zip(a, n.args)):
            memo[n.id] = n
            continue
        memo[n.id] = rebuild(n, a)
    return [memo[r.id] for r in roots]


def rebuild(n, a):
    op = n.op
    if op in ('add', 'mul', 'div'):
        return BINOPS[op](*a)
    if op == 'pow':
        return pow_(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'arctan2':
        return arctan2(*a)
    if op == 'uf':
        return uf(n.val, *a)
    return fn(op, a[0])


# ---------------------------------------------------------------- differentiation
def diff_all(roots, v):
    """Derivatives of every root with respect to variable node v (memoised over the DAG)."""
    memo = {}
    zero = const(0.0)
    for n in topo(roots):
        if isinstance(n, Cond):
            continue
        op, a = n.op, n.args
        if n is v:
            memo[n.id] = const(1.0)
        elif op in ('c', 'v', 'floor', 'round'):
            memo[n.id] = zero
        else:
            memo[n.id] = _d(n, op, a, memo, zero)
    return [memo[r.id] for r in roots]


def _d(n, op, a, memo, zero):
    if op == 'ite':
        return ite(a[0], memo[a[1].id], memo[a[2].id])
    d = [memo[x.id] for x in a]
    if all(isc(x, 0.0) for x in d):
        return zero
    if op == 'add':
        return add(d[0], d[1])
    if op == 'mul':
        return add(mul(d[0], a[1]), mul(a[0], d[1]))
    if op == 'div':
        # a0/a1
        r = div(d[0], a[1])
        if not isc(d[1], 0.0):
            r = sub(r, mul(div(n, a[1]), d[1]))
        return r
    if op == 'pow':
        r = zero
        if not isc(d[0], 0.0):
            r = mul(mul(a[1], pow_(a[0], sub(a[1], const(1.0)))), d[0])
        if not isc(d[1], 0.0):
            r = add(r, mul(mul(n, fn('log', a[0])), d[1]))
        return r
    x, dx = a[0], d[0]
    one = const(1.0)
    if op == 'sin':
        return mul(fn('cos', x), dx)
    if op == 'cos':
        return neg(mul(fn('sin', x), dx))
    if op == 'tan':
        return mul(add(one, pow_(n, const(2.0))), dx)
    if op == 'exp':
        return mul(n, dx)
    if op == 'log':
        return div(dx, x)
    if op == 'arcsin':
        return div(dx, sqrt(sub(one, mul(x, x))))
    if op == 'arccos':
        return neg(div(dx, sqrt(sub(one, mul(x, x)))))
    if op == 'arctan':
        return div(dx, add(one, mul(x, x)))
    if op == 'sinh':
        return mul(fn('cosh', x), dx)
    if op == 'cosh':
        return mul(fn('sinh', x), dx)
    if op == 'tanh':
        return mul(sub(one, pow_(n, const(2.0))), dx)
    if op == 'arcsinh':
        return div(dx, sqrt(add(one, mul(x, x))))
    if op == 'sigm':
        return mul(fn('dsigm', x), dx)
    if op == 'dsigm':     # S'' = S' (1 - 2 S)
        return mul(mul(n, sub(one, mul(const(2.0), fn('sigm', x)))), dx)
    if op == 'arctan2':
        y, x = a
        den = add(mul(x, x), mul(y, y))
        return div(sub(mul(x, d[0]), mul(y, d[1])), den)
    if op == 'uf':
        ev, ders = UF[n.val]
        r = zero
        for i, di in enumerate(d):
            if isc(di, 0.0):
                continue
            if ders == 'const':
                continue
            if ders is None or i not in ders:
                raise Unsupported(f'derivative of uninterpreted {n.val}')
            r = add(r, mul(uf(ders[i], *a), di))
        return r
    raise Unsupported('d ' + op)


# ---------------------------------------------------------------- evaluation
_NPF = dict(sin=np.sin, cos=np.cos, tan=np.tan, exp=np.exp, log=np.log, arcsin=np.arcsin, arccos=np.arccos,
            arctan=np.arctan, sinh=np.sinh, cosh=np.cosh, tanh=np.tanh, floor=np.floor, round=np.round,
            arcsinh=np.arcsinh)


def _sig(t):
    t = np.asarray(t, dtype=float)
    return np.where(t > -320, 1 / (1 + np.exp(-np.maximum(t, -320.0))), 0.0)


def _dsig(t):
    t = np.asarray(t, dtype=float)
    e = np.exp(-np.maximum(t, -320.0))
    return np.where(t > -320, e / ((1 + e) * (1 + e)), 0.0)


_NPF.update(sigm=_sig, dsigm=_dsig)


def evaluate(roots, env, n=None, order=None):
    """Vectorised float evaluation. env: {var name: float or 1-D array}. Returns list of arrays."""
    memo = {}
    with np.errstate(all='ignore'):
        for x in order or topo(roots):
            op, a = x.op, x.args
            if op == 'c':
                r = x.val
            elif op == 'v':
                r = env[x.val]
            elif op == 'add':
                r = memo[a[0].id] + memo[a[1].id]
            elif op == 'mul':
                r = memo[a[0].id] * memo[a[1].id]
            elif op == 'div':
                r = np.divide(memo[a[0].id], memo[a[1].id])
            elif op == 'pow':
                r = np.power(memo[a[0].id], memo[a[1].id] + 0.0)
            elif op == 'ite':
                r = np.where(memo[a[0].id], memo[a[1].id], memo[a[2].id])
            elif op == 'lt':
                r = np.less(memo[a[0].id], memo[a[1].id])
            elif op == 'eq':
                r = np.equal(memo[a[0].id], memo[a[1].id])
            elif op == 'not':
                r = np.logical_not(memo[a[0].id])
            elif op == 'and':
                r = np.logical_and(memo[a[0].id], memo[a[1].id])
            elif op == 'true':
                r = True
            elif op == 'false':
                r = False
            elif op == 'arctan2':
                r = np.arctan2(memo[a[0].id], memo[a[1].id])
            elif op == 'uf':
                f = UF[x.val][0]
                r = uf_eval(f, [memo[y.id] for y in a])
            else:
                r = _NPF[op](memo[a[0].id])
            memo[x.id] = r
    return [memo[r.id] for r in roots]


def evaluate_mp(roots, env, dps=50):
    """High-precision evaluation at one point (floats taken exactly)."""
    import mpmath as mp
    memo = {}
    with mp.workdps(dps):
        M = dict(sin=mp.sin, cos=mp.cos, tan=mp.tan, exp=mp.exp, log=mp.log, arcsin=mp.asin, arccos=mp.acos,
                 arctan=mp.atan, sinh=mp.sinh, cosh=mp.cosh, tanh=mp.tanh, floor=mp.floor, round=mp.nint,
                 arcsinh=mp.asinh, sigm=lambda t: 1 / (1 + mp.exp(-t)) if t > -320 else mp.mpf(0),
                 dsigm=lambda t: mp.exp(-t) / (1 + mp.exp(-t)) ** 2 if t > -320 else mp.mpf(0))
        for x in topo(roots):
            op, a = x.op, x.args
            g = lambda i: memo[a[i].id]
            try:
                if op == 'c':
                    r = mp.mpf(x.val)
                elif op == 'v':
                    r = mp.mpf(float(env[x.val]))
                elif op == 'add':
                    r = g(0) + g(1)
                elif op == 'mul':
                    r = g(0) * g(1)
                elif op == 'div':
                    r = g(0) / g(1) if g(1) != 0 else mp.nan
                elif op == 'pow':
                    if g(0) == 0 and g(1) < 0:
                        r = mp.inf
                    elif a[1].op == 'c' and g(1) == mp.nint(g(1)):
                        r = g(0) ** int(g(1))
                    else:
                        r = mp.power(g(0), g(1))
                elif op == 'ite':
                    r = g(1) if g(0) else g(2)
                elif op == 'lt':
                    r = g(0) < g(1)
                elif op == 'eq':
                    r = g(0) == g(1)
                elif op == 'not':
                    r = not g(0)
                elif op == 'and':
                    r = g(0) and g(1)
                elif op == 'true':
                    r = True
                elif op == 'false':
                    r = False
                elif op == 'arctan2':
                    r = mp.atan2(g(0), g(1))
                elif op == 'uf':
                    r = mp.mpf(float(UF[x.val][0](*[float(memo[y.id]) for y in a])))
                else:
                    r = M[op](g(0))
                if isinstance(r, mp.mpc):
                    r = r.real if abs(r.imag) == 0 else mp.nan
            except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                r = mp.nan
            memo[x.id] = r
        return [memo[r.id] for r in roots]


def show(n, depth=8):
    if n.op == 'c':
        return repr(n.val)
    if n.op == 'v':
        return str(n.val)
    if n.op in ('true', 'false'):
        return n.op
    if depth <= 0:
        return '…'
    a = [show(x, depth - 1) if isinstance(x, (Node, Cond)) else repr(x) for x in n.args]
    s = {'add': '+', 'mul': '*', 'div': '/', 'pow': '**', 'lt': '<', 'eq': '==', 'and': 'and'}.get(n.op)
    if s:
        return f'({a[0]} {s} {a[1]})'
    if n.op == 'uf':
        return f'{n.val}({", ".join(a)})'
    return f'{n.op}({", ".join(a)})'
