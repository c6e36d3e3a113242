"""Assumed contract of openmdao's InterpND (a dependency): `interpolate(x)` is a function f of the coordinates that is fixed by the
table (method, points, values), `compute_derivative=True` adds its gradient at x; f and `evaluate_spline` are linear in the values for
the methods used with computed values. f stays uninterpreted; numeric evaluation calls the real InterpND."""
import zlib
import numpy as np
from openmdao.components.interp_util.interp import InterpND
from . import expr as E
from . import symarr as S

_INIT, _INTERP, _SPLINE = InterpND.__init__, InterpND.interpolate, InterpND.evaluate_spline
LINEAR = ('slinear', 'lagrange2', '1D-slinear')      # methods linear in the table values


def _key(method, grid, values, extrapolate):
    h = zlib.crc32(np.ascontiguousarray(values, dtype=float).tobytes())
    for g in grid:
        h = zlib.crc32(np.ascontiguousarray(g, dtype=float).tobytes(), h)
    return f'interp_{method}_{int(extrapolate)}#{h & 0xffffffff:08x}_{"x".join(str(len(g)) for g in grid)}'


def _register(method, grid, values, extrapolate):
    key = _key(method, grid, values, extrapolate)
    if key not in E.UF:
        nd = len(grid)
        real = []

        def table():
            if not real:
                t = InterpND.__new__(InterpND)
                _INIT(t, method=method, points=tuple(np.asarray(g, float) for g in grid), values=np.asarray(values, float), extrapolate=extrapolate)
                real.append(t)
            return real[0]

        def call(xs, d):
            xs = np.broadcast_arrays(*[np.asarray(x, float) for x in xs])
            shape = xs[0].shape
            X = np.stack([x.ravel() for x in xs], axis=1)
            r = np.full(len(X), np.nan)
            ok = np.all(np.isfinite(X), axis=1)
            if not ok.any():
                return r.reshape(shape)
            q = X[ok] if nd > 1 else X[ok, 0]
            try:
                y = _INTERP(table(), q, compute_derivative=d is not None)
                r[ok] = np.asarray(y).ravel() if d is None else np.asarray(y[1]).reshape(-1, nd)[:, d]
            except Exception:       # outside the table
                if len(X) > 1:
                    for i in np.nonzero(ok)[0]:
                        r[i] = call(list(X[i]), d)
            return r.reshape(shape)

        def fun(d):
            f = lambda *x: float(call(x, d))
            f.vec = lambda *x: call(x, d)
            return f
        ders = {}
        for k in range(nd):
            ders[k] = f'{key}.d{k}'
            E.UF[ders[k]] = (fun(k), None)
        E.UF[key] = (fun(None), ders)
    return key


def concrete(p):
    """Arrays of constant expressions as plain arrays."""
    if isinstance(p, (list, tuple)):
        return type(p)(concrete(q) for q in p)
    if isinstance(p, np.ndarray) and p.dtype == object and all(E.lift(x).op == 'c' for x in S.base(p).ravel()):
        return np.array([E.lift(x).val for x in S.base(p).ravel()], float).reshape(p.shape)
    return p


def init(self, method='slinear', points=None, values=None, x_interp=None, extrapolate=False, **kw):
    points, values = concrete(points), concrete(values)
    if not (S.has_sym(values) or S.has_sym(points)):
        return _INIT(self, method=method, points=points, values=values, x_interp=x_interp, extrapolate=extrapolate, **kw)
    if method not in LINEAR or S.has_sym(points) or x_interp is not None or kw:
        raise E.Unsupported('InterpND with symbolic table')
    if isinstance(points, np.ndarray):
        points = [points]
    self.extrapolate = extrapolate
    self.grid = tuple(np.asarray(p, float) for p in points)
    self.values = S.wrap(S.base(values))
    self._interp_name = method


def _method(self):
    return getattr(self, '_interp_name', None) or next(k for k, v in __import__('openmdao.components.interp_util.interp', fromlist=['x']).INTERP_METHODS.items() if v is self._interp)


def interpolate(self, x, compute_derivative=False):
    if not S.has_sym(x) and not S.has_sym(self.values):
        return _INTERP(self, S.base(x).astype(float) if isinstance(x, S.SymArr) else x, compute_derivative=compute_derivative)
    nd = len(self.grid)
    if isinstance(x, np.ndarray):
        x = S.base(x)
        if x.ndim < 2:
            x = np.atleast_2d(x) if nd > 1 else np.atleast_2d(x).T
    else:
        x = np.atleast_2d(np.array(x, dtype=object))
    m = _method(self)
    n = x.shape[0]
    val, der = np.empty(n, object), np.empty((n, nd), object)
    vals = self.values
    for i in range(n):
        xs = [E.lift(v) for v in x[i]]
        if S.has_sym(vals):
            b = S.base(vals)
            terms = []
            for pos in np.ndindex(b.shape):
                u = np.zeros(b.shape)
                u[pos] = 1.0
                terms.append((_register(m, self.grid, u, self.extrapolate), b[pos]))
        else:
            terms = [(_register(m, self.grid, np.asarray(vals, float), self.extrapolate), 1.0)]
        v, ds = E.const(0.0), [E.const(0.0)] * nd
        for key, c in terms:
            v = E.add(v, E.mul(c, E.uf(key, *xs)))
            ds = [E.add(d, E.mul(c, E.uf(f'{key}.d{k}', *xs))) for k, d in enumerate(ds)]
        val[i] = v
        der[i] = ds
    val, der = S.wrap(val), S.wrap(der)
    return (val, der) if compute_derivative else val


def patch():
    """Install the contract; returns the undo list."""
    saved = [(InterpND, k, InterpND.__dict__[k]) for k in ('__init__', 'interpolate')]
    InterpND.__init__, InterpND.interpolate = init, interpolate
    return saved


def undo(saved):
    for c, k, v in saved:
        setattr(c, k, v)
