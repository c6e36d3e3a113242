"""C14: contracts on aviary.utils.math. The contracts of sigmoidX and dSigmoidXdx are the ones assumed at their call sites by C01-C10."""
import numpy as np
import aviary.utils.math as am
from .. import env, expr as E, symarr as S
from ..explore import Ctx
from ..expr import Node


def gt(a, b):
    return E.lt(E.lift(b), E.lift(a)) if isinstance(a, Node) or isinstance(b, Node) else a > b


def _exp(x):
    return E.fn('exp', E.lift(x)) if isinstance(x, Node) else np.exp(x)


def _log(x):
    return E.fn('log', E.lift(x)) if isinstance(x, Node) else np.log(x)


def _tanh(x):
    return E.fn('tanh', E.lift(x)) if isinstance(x, Node) else np.tanh(x)


def _floor(x):
    return E.fn('floor', E.lift(x)) if isinstance(x, Node) else np.floor(x)


def _sin(x):
    return E.fn('sin', E.lift(x)) if isinstance(x, Node) else np.sin(x)


def _cos(x):
    return E.fn('cos', E.lift(x)) if isinstance(x, Node) else np.cos(x)


def _d(y, x):
    return E.diff_all([E.lift(y)], x)[0]


def sig(d):
    return 1.0 / (1.0 + _exp(-d)) if not isinstance(d, Node) else E.div(E.const(1.0), E.add(E.const(1.0), _exp(E.neg(d))))


def entry(f, inside):
    return f if inside else 0.0


def sigmoid(shape, x0kind, muneg):
    """shape: 'scalar' or number of entries; x0kind: 'scalar' / 'array'."""
    def f(M):
        lo, hi = (-3.0, 3.0)
        mu = M.f('mu', 0.1, 2.0)
        M.assume(gt(mu, 0.0))
        if muneg:
            mu = -mu
        n = 1 if shape == 'scalar' else shape
        xs = [M.f(f'x{i}', lo, hi) for i in range(n)]
        x0s = [M.f(f'c{i}', lo, hi) for i in range(n if x0kind == 'array' else 1)]
        if not M.symbolic:
            far = M.i('far', 0, 3)
            if far == 0:
                xs[0] = x0s[0] - mu * 321.0
            if far == 1:
                xs[0] = x0s[0] + mu * 800.0
        x = xs[0] if shape == 'scalar' else M.arr(xs) if not M.symbolic else S.wrap(np.array(xs, dtype=object))
        c = x0s[0] if x0kind == 'scalar' else M.arr(x0s) if not M.symbolic else S.wrap(np.array(x0s, dtype=object))
        y, d = am.sigmoidX(x, c, mu), am.dSigmoidXdx(x, c, mu)
        ys = [y] if shape == 'scalar' else list(y)
        ds = [d] if shape == 'scalar' else list(d)
        yield 'one value per entry', [len(ys), len(ds)], [n, n]
        for i in range(n):
            u = (xs[i] - x0s[i if x0kind == 'array' else 0]) / mu
            ins = bool(gt(u, -320.0))
            s = sig(u)
            yield f'sigmoid({i}) = 1 / (1 + exp(-(x - x0) / mu)), 0 below the underflow bound', ys[i], s if ins else 0.0
            yield f'slope({i}) = s (1 - s) / mu, 0 below the underflow bound', ds[i], s * _c(s, u) / mu if ins else 0.0, 1e-7
        if shape == 'scalar':
            yield 'mu = 0 is rejected', M.raises(lambda: am.sigmoidX(x, c, 0.0), ValueError), 'raised'
            yield 'mu = 0 is rejected by the slope', M.raises(lambda: am.dSigmoidXdx(x, c, 0.0), ValueError), 'raised'
    return f


def _c(s, u):
    """1 - s without cancellation"""
    return 1.0 - s if isinstance(s, Node) else 1.0 / (1.0 + np.exp(u)) if u < 700 else 0.0


def symmetry(M):
    c, d, mu = M.f('c', -3, 3), M.f('d', 0.0, 3.0), M.f('mu', 0.1, 2.0)
    M.assume(gt(mu, 0.0))
    M.assume(gt(d / mu, -320.0))
    M.assume(gt(-d / mu, -320.0))
    yield 'sigmoid is 1/2 at its centre', am.sigmoidX(c, c, mu), 0.5
    yield 'sigmoid is symmetric about its centre', am.sigmoidX(c + d, c, mu) + am.sigmoidX(c - d, c, mu), 1.0
    yield 'slope is even about the centre', am.dSigmoidXdx(c + d, c, mu), am.dSigmoidXdx(c - d, c, mu), 1e-7
    yield 'default steepness is 1', am.sigmoidX(c + d, c), am.sigmoidX(c + d, c, 1.0)
    yield 'default steepness of the slope is 1', am.dSigmoidXdx(c + d, c), am.dSigmoidXdx(c + d, c, 1.0)


def minmax(which, shape):
    g, dg, sgn = (am.smooth_min, am.d_smooth_min, -1.0) if which == 'min' else (am.smooth_max, am.d_smooth_max, 1.0)

    def f(M):
        mu = M.f('mu', 1.0, 100.0)
        M.assume(gt(mu, 0.0))
        n = 1 if shape == 'scalar' else shape
        xs, bs = [M.f(f'x{i}', -20, 20) for i in range(n)], [M.f(f'b{i}', -20, 20) for i in range(n)]
        mk = (lambda v: v[0]) if shape == 'scalar' else (lambda v: S.wrap(np.array(v, dtype=object)) if M.symbolic else np.array(v))
        x, b = mk(xs), mk(bs)
        y, d, e = g(x, b, mu), dg(x, b, mu), dg(b, x, mu)
        at = (lambda v, i: v) if shape == 'scalar' else (lambda v, i: v[i])
        for i in range(n):
            if M.symbolic:
                # exp(+-mu y) = exp(+-mu x) + exp(+-mu b): lies beyond both arguments, by no more than ln 2 / mu
                lhs = _exp(sgn * mu * at(y, i))
                rhs = _exp(sgn * mu * xs[i]) + _exp(sgn * mu * bs[i])
                yield f'{which}({i}): log-sum-exp of the arguments', E.div(E.lift(lhs), E.lift(rhs)), 1.0
                yield f'{which}({i}): slope is that of the value', at(d, i), _d(at(y, i), xs[i])
                yield f'{which}({i}): slope in the second argument', at(e, i), _d(at(y, i), bs[i])
            else:
                m = max(sgn * xs[i], sgn * bs[i])
                t = abs(xs[i] - bs[i])
                yield f'{which}({i}): log-sum-exp of the arguments', float(at(y, i)), sgn * (m + np.log1p(np.exp(-mu * t)) / mu)
                w = 1.0 / (1.0 + np.exp(-mu * t))
                first = sgn * xs[i] >= sgn * bs[i]
                yield f'{which}({i}): slope is that of the value', float(at(d, i)), w if first else np.exp(-mu * t) * w, 1e-7
                yield f'{which}({i}): slope in the second argument', float(at(e, i)), np.exp(-mu * t) * w if first else w, 1e-7
        for i in range(n):
            M.assume(gt(mu * xs[i], mu * bs[i]))
        yield f'{which}: symmetric in its arguments', g(x, b, mu), g(b, x, mu)
    return f


def int_sin(M):
    x = M.f('x', 0.0, 9.0)
    tp = 2 * np.pi
    f1 = lambda v: v - _sin((v + 0.5) * tp) / tp
    yield 'one smoothing step', am.sin_int(x), f1(x)
    yield 'slope of one smoothing step', am.dydx_sin_int(x), 1.0 - _cos((x + 0.5) * tp)
    yield 'four smoothing steps', am.sin_int4(x), f1(f1(f1(f1(x)))) - 0.5, 1e-7
    a = f1(x)
    b = f1(a)
    c = f1(b)
    s = lambda v: 1.0 - _cos((v + 0.5) * tp)
    yield 'slope of four smoothing steps', am.dydx_sin_int4(x), s(x) * s(a) * s(b) * s(c), 1e-6
    for k in range(4):
        yield f'half-integers are fixed points shifted by 1/2 ({k})', float(am.sin_int4(k + 0.5)), float(k), 1e-9


def int_tanh(default):
    def f(M):
        x = M.f('x', 0.0, 9.0)
        mu = M.f('mu', 1.0, 20.0)
        M.assume(gt(mu, 0.0))
        a = () if default else (mu,)
        m = 10.0 if default else mu
        fr = x - _floor(x)
        t = _tanh(m * (fr - 0.5))
        y = am.smooth_int_tanh(x if M.symbolic else np.float64(x), *a)
        d = am.d_smooth_int_tanh(x if M.symbolic else np.float64(x), *a)
        yield 'integer part plus smooth step of the fraction', _re(y), _floor(x) + (t + 1.0) * 0.5
        yield 'slope of the smooth step', _re(d), (1.0 - t * t) * m * 0.5, 1e-5
    return f


def _re(x):
    return x if isinstance(x, Node) else float(np.real(x))


def cases():
    out = {'sigmoid symmetry': symmetry, 'integer part by sines': int_sin, 'integer part by tanh:default': int_tanh(True), 'integer part by tanh:mu': int_tanh(False)}
    for neg in (0, 1):
        out[f'sigmoid:scalar:{neg}'] = sigmoid('scalar', 'scalar', neg)
        for n in (1, 2, 3):
            for k in ('scalar', 'array'):
                out[f'sigmoid:{n}:{k}:{neg}'] = sigmoid(n, k, neg)
    for w in ('min', 'max'):
        for s in ('scalar', 1, 2):
            out[f'smooth {w}:{s}'] = minmax(w, s)
    return out
