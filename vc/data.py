"""Contracts on ordinary Python functions (data handling, preprocessing, file exchange).

A case is a function f(M) that calls the real code and yields (label, actual, expected) triples. It is run
 * symbolically: M.f(name) is a real variable, M.i(name) an integer variable; branches on them are explored exhaustively and
   the triples are decided for all values by the same back ends as the component contracts;
 * natively, with sampled numbers: confirms a refutation (the replay) and guards against gaps in the stand-ins.
Exceptions the contract expects are recorded with M.raises(f, types)."""
import enum
import os
import random
import time
import numpy as np
from . import env, expr as E, feas, normal, oblig, smt, symarr as S
from .expr import Node
from .explore import Ctx, explore

KINDS = {}      # ids of variables declared integers
_INT_OPS = ('add', 'mul', 'sub', 'neg', 'floor', 'ite', 'max', 'min', 'abs')


def is_int(x):
    """The term is built from integer variables and integer constants by integer operations."""
    k = KINDS.get(x.id)
    if k is None:
        if x.op == 'c':
            k = float(x.val) == int(x.val) if abs(x.val) < 1e15 else False
        elif x.op == 'v':
            k = False
        elif x.op == 'floor':
            k = True
        else:
            k = x.op in _INT_OPS and all(is_int(a) for a in x.args if isinstance(a, Node))
        KINDS[x.id] = k
    return k


smt.INTEGER = lambda x: KINDS.get(x.id) is True


TOKENS = {}     # text -> symbolic number


def spell(x, spec=''):
    """The decimal text of a symbolic number: a token that only float() / int() can read (a real has a point or an exponent, an integer neither)."""
    if spec:
        raise E.Unsupported(f'format {spec!r} of a symbolic number')
    if x.op == 'c':
        return str(int(x.val) if is_int(x) else x.val)
    t = f'~{x.id}~' if is_int(x) else f'~{x.id}e-05' if x.op == 'v' and x.val.startswith('exp') else f'~{x.id}.5~'
    TOKENS[t] = x
    return t


class _NumMeta(type):
    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class _FloatMeta(_NumMeta):
    real = float

    def __instancecheck__(cls, x):
        return (isinstance(x, Node) and not is_int(x)) or (isinstance(x, float) and not isinstance(x, Node))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, float)


class SymFloat(metaclass=_FloatMeta):
    """Stands for the type `float` in metadata: symbolic reals are instances; calling it converts a symbolic integer exactly."""
    def __new__(cls, x=0.0):
        if isinstance(x, Node):
            return as_real(x)
        if isinstance(x, str) and x.strip() in TOKENS:
            return as_real(TOKENS[x.strip()])
        return float(x)


class _IntMeta(_NumMeta):
    real = int

    def __instancecheck__(cls, x):
        return is_int(x) if isinstance(x, Node) else isinstance(x, int)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)


class SymInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Node):
            if is_int(x):
                return int(x.val) if x.op == 'c' else x
            raise E.Unsupported('int() of a symbolic real')
        if isinstance(x, str) and x.strip() in TOKENS:
            n = TOKENS[x.strip()]
            if is_int(n):
                return n
            raise ValueError(f'invalid literal for int() with base 10: {x!r}')
        return int(x, *a)


def as_real(x):
    """The real number equal to the symbolic integer x."""
    if not is_int(x) or x.op == 'c':
        return x
    return E.var('real(' + x.val + ')') if x.op == 'v' else E.fn('toreal', x)


def _extreme(real, below):
    """The built-in max / min: a symbolic candidate the path condition makes largest (smallest) is returned without forking on the others."""
    def g(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(isinstance(x, Node) for x in items) or not Ctx.cur:
            return real(items, **k) if len(a) == 1 else real(*a, **k)
        best, open_ = items[0], []
        for x in items[1:]:
            if x is best:
                continue
            o = _feasible(Ctx.cur, below(best, x))
            if o == [True]:
                best = x
            elif len(o) == 2:
                open_.append(x)
        if all(_feasible(Ctx.cur, below(best, x)) == [False] for x in open_ if x is not best):
            return best
        return real(items)
    return g


SYM_MAX, SYM_MIN = _extreme(max, lambda b, x: E.lt(b, x)), _extreme(min, lambda b, x: E.lt(x, b))
_TYPES = {float: SymFloat, int: SymInt}
S.DTYPES.update({SymFloat: float, SymInt: int})


def sym_types(t):
    if isinstance(t, tuple):
        return tuple(_TYPES.get(x, x) for x in t)
    return _TYPES.get(t, t)


def sym_meta(meta):
    """The metadata with float / int replaced by their symbolic stand-ins; everything else is the same object."""
    return {k: {**m, 'types': sym_types(m['types'])} for k, m in meta.items()}


class symbolic_env:
    """During a symbolic run: `int` of the given modules and the types of the metadata accept symbolic numbers."""
    def __init__(self, modules=(), metas=()):
        self.mods, self.metas = modules, metas

    def __enter__(self):
        self.saved = []
        self.np = S.patched(self.mods)
        self.np.__enter__()
        S.KEEP_INT[0] = True
        E.SPELL[0] = spell
        for m in self.mods:
            for k, t in (('int', SymInt), ('float', SymFloat), ('max', SYM_MAX), ('min', SYM_MIN)):
                self.saved.append((vars(m), k, vars(m).get(k)))
                vars(m)[k] = t
        for meta in self.metas:
            for k, e in meta.items():
                t = sym_types(e['types'])
                if t is not e['types']:
                    self.saved.append((e, 'types', e['types']))
                    e['types'] = t

    def __exit__(self, *a):
        self.np.__exit__(*a)
        S.KEEP_INT[0] = False
        E.SPELL[0] = None
        for d, k, v in self.saved:
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v


class Mode:
    def __init__(self, symbolic, rng=None, metas=None):
        self.symbolic, self.rng, self.values, self.small = symbolic, rng, {}, False
        self.metas = metas or {}

    def meta(self, meta):
        if not self.symbolic:
            return meta
        k = id(meta)
        if k not in self.metas:
            self.metas[k] = sym_meta(meta)
        return self.metas[k]

    def f(self, name, lo=-1e3, hi=1e3):
        if self.symbolic:
            v = E.var(name)
            KINDS[v.id] = False
            return v
        if name not in self.values:
            self.values[name] = float(self.rng.uniform(lo, hi))
        return self.values[name]

    def i(self, name, lo=0, hi=9):
        if self.symbolic:
            v = E.var(name)
            KINDS[v.id] = True
            return v
        if name not in self.values:
            self.values[name] = int(self.rng.randint(lo, lo + 2 if self.small else hi))
        return self.values[name]

    def assume(self, c):
        """Precondition on the values."""
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Skip
        else:
            Ctx.cur.assume(c)

    def real(self, x):
        if isinstance(x, (list, tuple)):
            return type(x)(self.real(y) for y in x)
        if isinstance(x, np.ndarray):
            return x.astype(float) if x.dtype != object else np.array([self.real(y) for y in x.ravel()], dtype=object).reshape(x.shape)
        if isinstance(x, Node):
            return as_real(x)
        return float(x) if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else x

    def arr(self, xs):
        return np.array(xs, dtype=object) if self.symbolic else np.array(xs)

    def raises(self, f, types):
        """'raised' if f raises one of the types, else what it did."""
        try:
            f()
        except types:
            return 'raised'
        except (E.NeedConcrete, E.Unsupported):
            raise
        except Exception as e:      # noqa: BLE001 - reported as the outcome
            return f'{type(e).__name__}: {e}'[:120]
        return 'no exception'


class Differs(Exception):
    pass


def pairs(a, b, where=''):
    """Structural comparison: yields the numeric leaf pairs, raises Differs for anything else."""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            raise Differs(f'{where}: {type(a).__name__} instead of {type(b).__name__}')
        if a.shape != b.shape:
            raise Differs(f'{where}: shape {a.shape} instead of {b.shape}')
        for k, (x, y) in enumerate(zip(S.base(a).ravel(), S.base(b).ravel())):
            yield from pairs(x, y, f'{where}[{k}]')
        return
    if isinstance(b, (list, tuple)) or isinstance(a, (list, tuple)):
        if type(a) is not type(b):
            raise Differs(f'{where}: {type(a).__name__} instead of {type(b).__name__}')
        if len(a) != len(b):
            raise Differs(f'{where}: length {len(a)} instead of {len(b)}')
        for k, (x, y) in enumerate(zip(a, b)):
            yield from pairs(x, y, f'{where}[{k}]')
        return
    if isinstance(b, dict) or isinstance(a, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            raise Differs(f'{where}: {type(a).__name__} instead of {type(b).__name__}')
        if set(a) != set(b):
            raise Differs(f'{where}: keys differ: missing {sorted(map(str, set(b) - set(a)))[:4]} extra {sorted(map(str, set(a) - set(b)))[:4]}')
        for k in b:
            yield from pairs(a[k], b[k], f'{where}[{k!r}]')
        return
    num = lambda x: isinstance(x, (Node, int, float)) and not isinstance(x, (bool, enum.Enum))
    if num(a) and num(b):
        yield (a, b, where)
        return
    if isinstance(a, Node) or isinstance(b, Node):
        raise Differs(f'{where}: {a!r} instead of {b!r}'[:200])
    if type(a) is not type(b) or a is not b and a != b:
        raise Differs(f'{where}: {a!r} instead of {b!r}'[:200])


def freeze(x):
    """A structural snapshot of a value (containers copied, leaves shared)."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(freeze(y) for y in x)
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return x


def _native_bad(a, b, tol):
    a, b = float(a), float(b)
    if np.isnan(a) and np.isnan(b) or a == b:
        return False
    return not np.isfinite(a) or not np.isfinite(b) or abs(a - b) > tol * max(abs(a), abs(b)) + 1e-300


def native(f, seed, tol=1e-9, small=False):
    """Run the case natively; returns (values, [(label, message)])."""
    M = Mode(False, random.Random(seed))
    M.small = small
    bad, n = [], 0
    try:
        for t in f(M):
            n += 1
            label, a, b = t[:3]
            try:
                for x, y, w in pairs(a, b):
                    if _native_bad(x, y, t[3] if len(t) > 3 else tol):
                        bad.append((label, f'{w or ""} {x!r} instead of {y!r}'.strip()))
                        break
            except Differs as d:
                bad.append((label, str(d).lstrip(': ')))
    except (E.NeedConcrete, E.Unsupported):
        raise
    except Skip:
        pass
    except Exception as e:      # noqa: BLE001 - the code under contract must not raise
        bad.append(('no exception', f'{type(e).__name__}: {e}'[:300]))
    return M.values, bad, n


class Skip(Exception):
    pass


class PlainSampler:
    """Points for the variables of data contracts."""
    def __init__(self, seed=0):
        self.seed = seed


def check(name, f, metas=None, max_paths=3000, budget=40.0, seeds=2, symbolic=True, env_mods=(), env_metas=(), search=300):
    R = dict(name=name, obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[], paths=0)
    fails = {}
    for s in range(seeds):
        try:
            vals, bad, n = native(f, env.SEED * 1000 + s)
        except (E.NeedConcrete, E.Unsupported) as e:
            R['undecided'] += 1
            R['notes'].append(f'native run: {e!r}'[:200])
            return R
        for label, msg in bad:
            fails.setdefault(label, (vals, msg))
        if not symbolic:
            R['obligations'] += n
            R['bounded'] += n - len(bad)
    for label, (vals, msg) in fails.items():
        R['obligations'] += 1
        R['violations'].append(dict(key=f'{name}|{label}', message=f'{label}: {msg}', replay=dict(case=name, label=label, values=vals, outcome=msg)))
    if not symbolic:
        return R
    E.reset()
    KINDS.clear()
    TOKENS.clear()
    metas = {} if metas is None else metas

    def run(ctx):
        out = []
        for t in f(Mode(True, None, metas)):
            out.append(t)
        return out
    try:
        with symbolic_env(env_mods, env_metas):
            outs, complete = explore(run, max_paths=max_paths, feasible=_feasible, deadline=time.time() + budget)
    except (E.NeedConcrete, E.Unsupported, RecursionError) as e:
        R['undecided'] += 1
        R['notes'].append(f'symbolic run: {e!r}'[:200])
        return R
    R['complete'] = complete
    if not complete:
        R['undecided'] += 1
        R['notes'].append('path limit')
    suspect = {}

    def dead(ctx):
        return feas.contradictory(list(ctx.conds)) or smt.unsat(list(ctx.conds), timeout=1.5)
    for ctx, res in outs:
        R['paths'] += 1
        if isinstance(res, Skip):
            continue
        if isinstance(res, Exception):
            if dead(ctx):
                continue
            R['obligations'] += 1
            if 'no exception' not in fails:
                suspect.setdefault('no exception', f'symbolic path raises {res!r}'[:200])
            continue
        for t in res:
            label, a, b = t[:3]
            try:
                ps = list(pairs(a, b))
            except Differs as d:
                if dead(ctx):
                    break
                R['obligations'] += 1
                if label not in fails:
                    suspect.setdefault(label, str(d))
                continue
            R['obligations'] += 1
            ok = True
            for x, y, w in ps:
                if x is y:
                    continue
                if not isinstance(x, Node) and not isinstance(y, Node) and not _native_bad(x, y, t[3] if len(t) > 3 else 1e-9):
                    continue
                e = oblig.eq_subst(E.sub(E.lift(x), E.lift(y)), list(ctx.conds))
                if E.isc(e, 0.0) or normal.prove_zero(e, timeout=3.0) == 'proved':
                    continue
                if ctx.conds and smt.unsat(list(ctx.conds), ne=e, timeout=2.0):
                    continue
                if oblig.ite_atoms(e) and all(l is not None and (E.isc(l, 0.0) or normal.prove_zero(l, timeout=3.0) == 'proved' or smt.unsat(cs, ne=l, timeout=2.0))
                                              for l, cs in oblig.split(e, list(ctx.conds), interior=False)):
                    continue
                ok = False
                break
            if ok:
                R['proved'] += 1
            elif label not in fails:
                suspect.setdefault(label, f'{w} not proved: {x!r} against {y!r}'[:200])
    if suspect:
        for s in range(search):
            vals, bad, n = native(f, 7 + s, small=s % 2 == 0)
            for label, msg in bad:
                if label in suspect:
                    del suspect[label]
                    R['violations'].append(dict(key=f'{name}|{label}', message=f'{label}: {msg}', replay=dict(case=name, label=label, values=vals, outcome=msg)))
            if not suspect:
                break
    for label, why in suspect.items():
        R['undecided'] += 1
        R['notes'].append(f'{label}: {why}')
    return R


def _feasible(ctx, c):
    """Branch outcomes the path condition allows (both, unless one is refuted)."""
    conds = list(ctx.conds)
    d = feas.Intervals(conds).decide(c)
    if d is not None:
        return [d]
    out = [v for v in (True, False) if not feas.contradictory(conds + [(c, v)])]
    if len(out) == 2 and conds:
        near = feas.relevant(conds, c)
        out = [v for v in out if not smt.unsat(near + [(c, v)], timeout=0.5)]
    return out


def run_cases(pid, cases, assumptions, min_obligations, functions, symbolic=lambda name: True, **kw):
    """Shared main of the data-handling properties: cases = {name: f}."""
    from . import runner
    R = runner.Result(pid)
    global _CASES
    _CASES = cases, symbolic, kw
    names = sorted(cases)
    n = max(1, min(24, len(names) // 32))
    chunks = [names[i::max(1, len(names) // n)] for i in range(max(1, len(names) // n))]
    for rs in runner.pmap(_chunk, [c for c in chunks if c], timeout=5400 if env.TIER == 'thorough' else 700):
        if 'crash' in rs:
            R.notes.append(rs['name'] + ': ' + rs['crash'][-300:])
            R.undecided += 1
            continue
        R.component_results(rs['rs'])
    R.extra['cases'] = len(names)
    R.functions = list(functions)
    R.backends = {'structural equality of symbolic results / generalized-polynomial normal form over the reals (vc/normal.py)': R.proved}
    R.trusted = runner.ENGINE_TRUST[:2] + ['symbolic numbers stand for Python floats and ints (vc/data.py)']
    R.assumptions = ['floating point arithmetic is treated as real arithmetic'] + list(assumptions)
    return runner.finish(R, min_obligations=min_obligations)


def _chunk(names):
    cases, symbolic, kw = _CASES
    metas = {}
    out = []
    for n in names:
        t0 = time.time()
        out.append(check(n, cases[n], metas, symbolic=symbolic(n), seeds=6 if env.TIER == 'thorough' else 2, **kw))
        if os.environ.get('VC_TIMES'):
            print(f'{time.time() - t0:.1f} {n}', flush=True)
    return dict(name='chunk', rs=out)
