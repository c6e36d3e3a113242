"""Runs the real compute / compute_partials / apply_nonlinear / linearize bodies of a component on
symbolic inputs and options."""
import fnmatch
import re
import contextlib
import importlib
import inspect
import io
import os
import sys
import warnings
from enum import Enum

from . import env
import numpy as np
import openmdao.api as om
from openmdao.utils.options_dictionary import OptionsDictionary

from . import expr as E
from . import symarr as S
from .explore import Ctx
from .expr import Node, Cond, NeedConcrete, Unsupported

OM_OPTIONS = {'assembled_jac_type', 'auto_order', 'always_opt', 'derivs_method', 'distributed', 'run_root_only',
              'use_jit', 'default_shape'}


# ------------------------------------------------------------------ discovery
def repo_modules():
    root0 = os.path.join(env.REPO, 'aviary')
    for root, d, fs in os.walk(root0):
        d.sort()
        r = root.replace(env.REPO, '')
        if '/test' in r or '/docs' in r or 'validation_cases' in r or '/__pycache__' in r:
            continue
        for f in sorted(fs):
            if f.endswith('.py') and not f.startswith('run_') and f != '__main__.py':
                m = os.path.relpath(os.path.join(root, f), env.REPO)[:-3].replace('/', '.')
                if m.endswith('.__init__'):
                    m = m[:-9]
                if m.startswith('aviary.models') or m.startswith('aviary.visualization') or m.startswith('aviary.examples'):
                    continue
                yield m


def components():
    """{qualified name: class} of every Explicit/Implicit component defined in the repository."""
    out, failed = {}, []
    for m in repo_modules():
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mod = importlib.import_module(m)
        except BaseException as e:    # noqa: BLE001
            failed.append((m, repr(e)[:120]))
            continue
        for n, c in list(vars(mod).items()):
            if inspect.isclass(c) and issubclass(c, (om.ExplicitComponent, om.ImplicitComponent)) and c.__module__ == m:
                out[m.replace('aviary.', '', 1) + ':' + n] = c
    return out, failed


def aviary_modules():
    return [m for k, m in list(sys.modules.items()) if k.startswith('aviary') and m is not None]


# ------------------------------------------------------------------ option model
ENGINE_CFG = [
    dict(n=[2], w=[2], f=[0]),
    dict(n=[2, 4], w=[2, 2], f=[0, 2]),
    dict(n=[3], w=[2], f=[1]),
    dict(n=[2], w=[0], f=[2]),
    dict(n=[1], w=[0], f=[1], concrete=True),
    dict(n=[1, 2, 5], w=[0, 2, 4], f=[1, 0, 1], concrete=True),
    dict(n=[2, 3, 4], w=[2, 2, 2], f=[0, 1, 2]),
]
INT_CANDS = [0, 1, 2, 3]


class Controller:
    """Decides the value of every option read; shared by the proxies of one exploration run."""

    def __init__(self, concrete=(), nn=2, fixed=None, cands=None, scalar_engine=False, engine_cfgs=None):
        self.scalar_engine = scalar_engine
        self.engine_cfgs = engine_cfgs or ENGINE_CFG
        self.concrete = set(concrete)
        self.nn = nn
        self.fixed = dict(fixed or {})
        self.cands = cands or {}
        self.phase = 'setup'
        self.values = {}
        self.setup_symbolic = []   # float options read during setup
        self.optvars = {}    # var name -> ('int'|'float', default)
        self.reads = {}

    def get(self, name, base, meta):
        if name in self.fixed:
            return self.fixed[name]
        if name in self.values:
            return self.values[name]
        v = self._pick(name, base, meta)
        self.values[name] = v
        return v

    def _symbolic(self, name, base, kind):
        vn = 'opt:' + name
        self.optvars[vn] = (kind, base)
        return E.var(vn)

    def _pick(self, name, base, meta):
        ctx = Ctx.cur
        if name == 'num_nodes':
            return self.nn
        if name in self.cands:
            c = self.cands[name]
            return ctx.choose(name, c) if len(c) > 1 else c[0]
        if name == 'verbosity' or name == 'settings:verbosity':
            return base
        if _multivalue(name) and not self.scalar_engine and isinstance(base, (bool, np.bool_, Enum)):
            base = [base]
        if isinstance(base, (bool, np.bool_)):
            return ctx.choose(name, [bool(base), not bool(base)])
        if isinstance(base, Enum):
            vals = list(meta['values'] or type(base))
            vals = [v for v in vals if isinstance(v, Enum)] or list(type(base))
            vals = [base] + [v for v in vals if v != base]
            return ctx.choose(name, vals)
        if meta.get('values'):
            vals = list(meta['values'])
            if base in vals:
                vals = [base] + [v for v in vals if v != base]
            return ctx.choose(name, vals)
        mv = _multivalue(name) and not self.scalar_engine
        if name in ENGINE_COUNTS and not self.scalar_engine:
            return self._engines(ENGINE_COUNTS[name])
        if mv and not isinstance(base, (list, np.ndarray, tuple)) and base is not None and not isinstance(base, str):
            base = [base]
        if isinstance(base, str) or base is None:
            return base
        if isinstance(base, tuple) and len(base) == 2 and (base[1] is None or isinstance(base[1], str)) \
                and not isinstance(base[0], str):
            v = self._num(name, base[0], meta)
            return (v, base[1])
        if name in SETUP_SYMBOLIC:
            return self._symbolic(name, float(base), 'float')
        if isinstance(base, (int, float, np.number)) or isinstance(base, (np.ndarray, list)):
            return self._num(name, base, meta)
        return base

    def _engcfg(self):
        c = self.engine_cfgs
        return Ctx.cur.choose('#engine_cfg', c) if len(c) > 1 else c[0]

    def _engines(self, kind):
        """Engine counts of one consistent arrangement: per type n = wing + fuselage, totals are the sums."""
        cfg = self._engcfg()
        conc = any(k in self.concrete for k in ENGINE_COUNTS) or cfg.get('concrete', False)

        def count(name, i, v, lo):
            if conc or v == 0:
                return v
            vn = f'opt:{name}[{i}]'
            self.optvars[vn] = ('count', v)
            x = E.var(vn)
            if Ctx.cur is not None:
                Ctx.cur.assume(E.le(E.const(lo), x))
            return x
        m = len(cfg['n'])
        w = [count('aircraft:engine:num_wing_engines', i, cfg['w'][i], 2.0) for i in range(m)]
        f = [count('aircraft:engine:num_fuselage_engines', i, cfg['f'][i], 1.0 if cfg['w'][i] else 2.0) for i in range(m)]
        n = [a + b for a, b in zip(w, f)]
        r = dict(n=n, w=w, f=f, N=sum(n), W=sum(w), F=sum(f))[kind]
        if isinstance(r, list):
            if all(isinstance(x, int) for x in r):
                return np.array(r)
            a = np.empty(m, dtype=object)
            for i, x in enumerate(r):
                a[i] = E.lift(x)
            return S.wrap(a)
        return r

    def _symarr(self, name, vals, kind):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            vn = f'opt:{name}[{i}]'
            self.optvars[vn] = (kind, v)
            a[i] = E.var(vn)
        return S.wrap(a)

    def _num(self, name, base, meta):
        if isinstance(base, (list, np.ndarray)):
            if name.startswith('aircraft:engine:') and len(base) >= 1 and not isinstance(base[0], str):
                cfg = self._engcfg()
                b = base[0]
                if isinstance(b, Enum):
                    mem = list(type(b))
                    k = Ctx.cur.choose(name, list(range(len(mem))))
                    return [mem[(k + j) % len(mem)] for j in range(len(cfg['n']))]
                if isinstance(b, (bool, np.bool_)):
                    v = Ctx.cur.choose(name, [False, True])
                    return [v] * len(cfg['n'])
                if name in self.concrete:
                    return np.array([b] * len(cfg['n']))
                return self._symarr(name, [b] * len(cfg['n']), 'int' if isinstance(b, (int, np.integer)) else 'float')
            arr = np.asarray(base)
            if arr.dtype.kind not in 'if' or arr.ndim != 1 or arr.size == 0 or arr.size > 12 or name in self.concrete \
                    or self.phase == 'setup':
                return base
            return self._symarr(name, list(arr), 'int' if arr.dtype.kind == 'i' else 'float')
        isint = isinstance(base, (int, np.integer))
        if (self.phase == 'setup' and isint) or name in self.concrete:
            if isint:
                lo = meta.get('lower')
                c = [int(base)] + [k for k in INT_CANDS if k != base and (lo is None or k >= lo)]
                return Ctx.cur.choose(name, c)
            return base if base is not None else base
        if self.phase == 'setup' and base is not None:
            self.setup_symbolic.append(name)
        return self._symbolic(name, base, 'int' if isint else 'float')


SETUP_SYMBOLIC = {'delta_T_Celcius'}     # read during setup but only used as a number in the formulas

ENGINE_COUNTS = {'aircraft:engine:num_engines': 'n', 'aircraft:engine:num_wing_engines': 'w',
                 'aircraft:engine:num_fuselage_engines': 'f', 'aircraft:propulsion:total_num_engines': 'N',
                 'aircraft:propulsion:total_num_wing_engines': 'W', 'aircraft:propulsion:total_num_fuselage_engines': 'F'}


def _multivalue(name):
    from aviary.variable_info.variable_meta_data import CoreMetaData
    return name in CoreMetaData and CoreMetaData[name].get('multivalue') and name.startswith('aircraft:engine:')


class SymOptions(OptionsDictionary):
    def __getitem__(self, name):
        if name not in OM_OPTIONS and _CTRL[0] is not None and name in self._dict \
                and not self._dict[name]['has_been_set']:
            return _CTRL[0].get(name, None, self._dict[name])
        base = OptionsDictionary.__getitem__(self, name)
        if name in OM_OPTIONS or _CTRL[0] is None:
            return base
        return _CTRL[0].get(name, base, self._dict[name])


_CTRL = [None]


# ------------------------------------------------------------------ vectors
class Vec:
    """Stand-in for an OpenMDAO vector: name -> object array, with OpenMDAO's set semantics."""

    def __init__(self, data, readonly=False):
        self._d = dict(data)
        self.written = set()
        self.read = set()
        self.readonly = readonly

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError(k)
        self.read.add(k)
        return self._d[k]

    def __setitem__(self, k, val):
        if k not in self._d:
            raise KeyError(k)
        if self.readonly:
            raise ValueError(f'inputs vector is read only: {k}')
        self.written.add(k)
        _assign(self._d[k], val)

    def get_val(self, k, *a, **kw): return self[k]
    def set_val(self, k, v, *a, **kw): self[k] = v
    def __contains__(self, k): return k in self._d
    def __iter__(self): return iter(self._d)
    def keys(self): return self._d.keys()

    def values(self):
        self.read.update(self._d)
        return list(self._d.values())

    def items(self):
        self.read.update(self._d)
        return list(self._d.items())

    def _get_data(self): return self._d
    def __len__(self): return len(self._d)

    def asarray(self, copy=False):
        return S.wrap(np.concatenate([S.base(v).ravel() for v in self._d.values()]))


def _assign(arr, val):
    v = S.base(val) if not isinstance(val, np.ndarray) or val.dtype == object else val.astype(object)
    b = arr.view(np.ndarray)
    try:
        b[...] = v
    except ValueError:
        b[...] = v.reshape(b.shape)


class Partials:
    """Stand-in for the component Jacobian: (of, wrt) -> declared storage."""

    def __init__(self, comp, info, prev):
        self.info = info
        self._d = prev
        self.written = set()
        self.touched = set()

    def _key(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            return k
        raise KeyError(k)

    def __getitem__(self, k):
        k = self._key(k)
        if k not in self._d:
            raise KeyError(f'Variable name pair {k} must first be declared.')
        self.touched.add(k)
        return self._d[k]

    def __setitem__(self, k, val):
        k = self._key(k)
        if k not in self._d:
            raise KeyError(f'Variable name pair {k} must first be declared.')
        self.written.add(k)
        arr = self._d[k].view(np.ndarray)
        v = S.base(val) if not isinstance(val, np.ndarray) or val.dtype == object else val.astype(object)
        sp = self.info[k]['sparse']
        if sp:
            if v.ndim > 1:
                v = v.ravel() if v.size in (1, arr.size) else v
            arr[...] = v
        else:
            if v.size == 1:
                arr[...] = v.ravel()[0]
            else:
                v = np.atleast_2d(v)
                if v.shape != arr.shape:
                    v = v.reshape(arr.shape)
                arr[...] = v

    def __contains__(self, k): return k in self._d
    def keys(self): return self._d.keys()
    def items(self): return self._d.items()
    def __iter__(self): return iter(self._d)


# ------------------------------------------------------------------ instance
def quiet():
    return contextlib.ExitStack()


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


class Instance:
    """A set-up component plus the metadata the obligations need."""

    def __init__(self, comp):
        self.comp = comp
        path = comp.pathname + '.'
        n = len(path)
        self.inputs = {k[n:]: dict(v) for k, v in comp._var_abs2meta['input'].items()}
        self.outputs = {k[n:]: dict(v) for k, v in comp._var_abs2meta['output'].items()}
        self.discrete_in = {k: v['val'] for k, v in comp._var_discrete['input'].items()}
        self.discrete_out = {k: v['val'] for k, v in comp._var_discrete['output'].items()}
        self.partials = {}
        for (of, wrt), info in comp._subjacs_info.items():
            if not info.get('dependent', True):
                continue
            rows, cols = info.get('rows'), info.get('cols')
            diag = info.get('diagonal')
            of, wrt = of[n:], wrt[n:]
            shape = info['shape']
            if diag:
                rows = cols = np.arange(shape[0])
            val = info.get('val')
            sparse = rows is not None
            if sparse:
                size = (len(rows),)
            else:
                size = tuple(shape)
            if hasattr(val, 'toarray'):
                val, sparse, rows, cols = val.toarray(), False, None, None
                size = tuple(shape)
            arr = np.zeros(size)
            if val is not None:
                arr[...] = np.asarray(val).reshape(size) if np.size(val) == arr.size else val
            sym = None
            for o, w, v in getattr(comp, '_vc_partials', ()):
                if _match(o, of) and _match(w, wrt):
                    sym = v
            if sym is not None:
                b = np.asarray(S.base(sym) if isinstance(sym, np.ndarray) else sym, dtype=object)
                arr = np.empty(size, dtype=object)
                arr[...] = b.reshape(size) if b.size == arr.size else b
                for i in np.ndindex(*size):
                    arr[i] = E.lift(arr[i])
            self.partials[of, wrt] = dict(rows=rows, cols=cols, sparse=sparse, shape=tuple(shape), val=arr,
                                          method=info.get('method'))
        self.approx = set()
        for (of, wrt), info in comp._subjacs_info.items():
            if info.get('method') in ('cs', 'fd'):
                self.approx.add((of[n:], wrt[n:]))
        self.implicit = isinstance(comp, om.ImplicitComponent)


def intercept_partials(comp):
    """Constant partial values that depend on symbolic options are kept aside (OpenMDAO stores floats only)."""
    comp._vc_partials = []
    real = comp.declare_partials

    def declare(of, wrt, dependent=True, rows=None, cols=None, val=None, **kw):
        o = _hassym(val)
        comp._vc_partials.append((of, wrt, val if o else None))
        if o:
            a = np.asarray(S.base(val) if isinstance(val, np.ndarray) else val, dtype=object)
            val = np.zeros(a.shape) if a.ndim else 0.0
        return real(of, wrt, dependent=dependent, rows=rows, cols=cols, val=val, **kw)
    comp.declare_partials = declare


def _hassym(val):
    if isinstance(val, Node):
        return True
    if isinstance(val, (list, tuple)):
        return any(_hassym(x) for x in val)
    return isinstance(val, np.ndarray) and val.dtype == object


def _match(pats, name):
    return any(fnmatch.fnmatchcase(name, p) for p in ([pats] if isinstance(pats, str) else pats))


def build(cls, ctrl, kwargs=None):
    """Instantiate and set up one component under the controller."""
    old = _CTRL[0]
    _CTRL[0] = ctrl
    ctrl.phase = 'setup'
    try:
        with silence():
            comp = cls(**(kwargs or {}))
            comp.options.__class__ = SymOptions
            intercept_partials(comp)
            p = om.Problem(reports=None)
            p.model.add_subsystem('c', comp)
            p.setup()
            p.final_setup()
        inst = Instance(comp)
        inst.prob = p
        return inst
    finally:
        _CTRL[0] = old


_POS = re.compile(r'diameter|chord|:span$|:area$|sls_thrust$')


def precondition(name, units, x):
    """Physical domain of an input, assumed on every path: positive sizes, sweep below 90 degrees."""
    if Ctx.cur is None:
        return
    if _POS.search(name):
        Ctx.cur.assume(E.lt(E.const(0.0), x))
    elif 'sweep' in name and units == 'rad':
        Ctx.cur.assume(E.lt(E.const(0.0), E.fn('cos', x)))


def symvec(meta, prefix):
    out = {}
    for name, m in meta.items():
        shape = m['shape']
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = E.var(prefix + name + '[' + ','.join(map(str, i)) + ']')
            if not prefix.startswith('stale'):
                precondition(name, m.get('units'), a[i])
        if name == 't_curr' and not prefix.startswith('stale') and Ctx.cur is not None:   # time points in ascending order
            for x, y in zip(a.ravel()[:-1], a.ravel()[1:]):
                Ctx.cur.assume(E.lt(x, y))
        out[name] = S.wrap(a)
    return out


class Run:
    """Symbolic results of one path."""


def execute(inst, ctrl, what=('compute', 'partials'), written=None, modules=None, inputs=None, states=None):
    """Run the real methods. Returns Run with .inputs .outputs .partials .resid (dicts of SymArr)."""
    comp = inst.comp
    r = Run()
    r.inputs0 = inputs if inputs is not None else symvec(inst.inputs, 'in:')
    ins = {k: S.wrap(S.base(v).copy()) for k, v in r.inputs0.items()}
    r.in_vec = ins
    r.mutated = []
    old = _CTRL[0]
    _CTRL[0] = ctrl
    ctrl.phase = 'run'
    attrs0 = state_of(comp)
    disc_in = dict(inst.discrete_in)
    try:
        with S.patched(modules if modules is not None else aviary_modules()), silence():
            if inst.implicit:
                st = states if states is not None else symvec(inst.outputs, 'out:')
                r.states = st
                if 'compute' in what:
                    v = Vec(ins)
                    o = Vec({k: S.wrap(S.base(x).copy()) for k, x in st.items()})
                    res = Vec(symvec(inst.outputs, 'stale:'))
                    if _has(comp, 'apply_nonlinear', om.ImplicitComponent):
                        _call(comp.apply_nonlinear, inst, v, o, res, disc=disc_in, dout=True)
                        r.outputs = res._d
                        r.out_written = set(res.written)
                    else:
                        r.outputs = None
                    _mut(r, ins, 'apply_nonlinear')
                    if any(not _same(o._d[k], st[k]) for k in st):
                        r.mutated.append(('states', 'apply_nonlinear'))
                if 'partials' in what and _has(comp, 'linearize', om.ImplicitComponent):
                    r.partials = _run_partials(inst, r, written, lambda J: _call(
                        comp.linearize, inst, Vec(ins), Vec({k: S.wrap(S.base(x).copy()) for k, x in st.items()}), J, disc=disc_in, dout=True))
                    _mut(r, ins, 'linearize')
            else:
                r.outputs = None
                if 'compute' in what and _has(comp, 'compute', om.ExplicitComponent):
                    o = Vec(symvec(inst.outputs, 'stale:'))
                    v = Vec(ins)
                    dout = dict(inst.discrete_out)
                    _call(comp.compute, inst, v, o, disc=disc_in, dout=dout)
                    r.outputs = o._d
                    r.out_written = set(o.written)
                    r.in_read = set(v.read)
                    r.discrete_out = dout
                    _mut(r, ins, 'compute')
                if 'partials' in what and _has(comp, 'compute_partials', om.ExplicitComponent):
                    r.partials = _run_partials(inst, r, written, lambda J: _call(
                        comp.compute_partials, inst, Vec(ins), J, disc=disc_in))
                    _mut(r, ins, 'compute_partials')
                elif 'partials' in what and getattr(comp, '_vc_partials', None) and set(inst.partials) - set(inst.approx):
                    r.partials = _run_partials(inst, r, written, lambda J: None)      # declared constants only
    finally:
        _CTRL[0] = old
    a1 = state_of(comp)
    r.attrs = sorted(k for k in a1 if a1[k] != attrs0.get(k, '(absent)'))
    return r


def fingerprint(v, depth=4):
    """Value identity of a piece of state (arrays and containers by content, symbolic terms by node, the rest by object)."""
    if isinstance(v, (Node, Cond)):
        return ('n', v.id)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('o', v.shape, tuple(fingerprint(x, depth - 1) for x in S.base(v).ravel()))
        return ('a', v.shape, v.tobytes())
    if isinstance(v, (bool, int, float, str, complex, type(None))):
        return ('v', v)
    if depth > 0 and isinstance(v, (list, tuple)) and len(v) < 2000:
        return ('l', type(v).__name__) + tuple(fingerprint(x, depth - 1) for x in v)
    if depth > 0 and isinstance(v, dict) and type(v) is dict and len(v) < 2000:
        return ('d',) + tuple((str(k), fingerprint(x, depth - 1)) for k, x in v.items())
    return ('i', id(v))


_OM_ATTRS = set(vars(om.ImplicitComponent())) | set(vars(om.ExplicitComponent()))


def state_of(comp):
    """Mutable state an evaluation could leave something in: instance attributes, class attributes, module globals."""
    out = {k: fingerprint(v) for k, v in vars(comp).items() if not k.startswith('_') or k.startswith('_' + type(comp).__name__)
           or k not in _OM_ATTRS}
    for c in type(comp).__mro__:
        if c.__module__.startswith('aviary'):
            out.update({f'{c.__name__}.{k}': fingerprint(v) for k, v in vars(c).items()
                        if not callable(v) and not k.startswith('__') and not isinstance(v, (staticmethod, classmethod, property))})
            m = sys.modules.get(c.__module__)
            out.update({f'{c.__module__}:{k}': fingerprint(v, 2) for k, v in vars(m).items()
                        if isinstance(v, (list, dict, np.ndarray, int, float, str, type(None))) and not k.startswith('__')})
    return out


def _same(a, b):
    a, b = S.base(a), S.base(b)
    return a.shape == b.shape and all(E.lift(x) is E.lift(y) for x, y in zip(a.ravel(), b.ravel()))


def _mut(r, ins, where):
    for k, a in ins.items():
        if not _same(a, r.inputs0[k]):
            r.mutated.append((k, where))
            ins[k] = S.wrap(S.base(r.inputs0[k]).copy())


def _has(comp, name, base):
    return getattr(type(comp), name) is not getattr(base, name)


def _call(f, inst, *args, disc=None, dout=None):
    n = len([p for p in inspect.signature(f).parameters.values()
             if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
    extra = []
    if inst.discrete_in or inst.discrete_out:
        extra.append(disc)
        if dout is not None:
            extra.append(dout if isinstance(dout, dict) else {})
    f(*args, *extra)


def _run_partials(inst, r, written, call):
    prev = {}
    for k, info in inst.partials.items():
        a = np.empty(info['val'].shape, dtype=object)
        for i in np.ndindex(*a.shape):
            if written is not None and k in written:
                a[i] = E.var(f'stalepartial:{k[0]}|{k[1]}[{",".join(map(str, i))}]')
            else:
                a[i] = E.lift(info['val'][i]) if info['val'].dtype == object else E.const(float(np.real(info['val'][i])))
        prev[k] = S.wrap(a)
    J = Partials(inst.comp, inst.partials, prev)
    pre = {k: S.base(v).copy() for k, v in prev.items()}
    call(J)
    r.part_written = set(J.written)
    for k in J.touched:
        a, b = pre[k], S.base(J._d[k])
        if any(x is not y for x, y in zip(a.ravel(), b.ravel())):
            r.part_written.add(k)
    return J._d
