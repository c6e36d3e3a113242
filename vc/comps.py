"""Exploration of one component over configurations and paths, shared by several properties."""
import time
import traceback
import numpy as np
from . import env
from . import comprun as C
from . import config
from . import explore as X
from . import expr as E
from . import feas, sample

# exceptions by which the code deliberately rejects an input or configuration
import openmdao.api as om
REJECT = (ValueError, om.AnalysisError, NotImplementedError, Warning)
CRASH = (UnboundLocalError, NameError, AttributeError, TypeError, IndexError, KeyError, ZeroDivisionError, RecursionError)
ENGINE_ERR = (E.Unsupported, E.NeedConcrete)


class PathResult:
    pass


def setup_retry(stage, ctrl, conc, e):
    """A set-up that cannot work on symbolic option values is repeated on concrete ones."""
    left = set(ctrl.setup_symbolic) - conc
    if stage == 'setup' and left and not isinstance(e, REJECT):
        raise E.NeedConcrete(E.var('opt:' + sorted(left)[0]), 'setup') from e


def cfgkey(ctx):
    return tuple(sorted(ctx.choices.items()))


def explore_component(cls, name, nn=2, max_paths=48, what=('compute', 'partials'), deadline=None, two_pass=True, modules=None):
    """All paths of all configurations of a component.

    Returns (list of PathResult, info). A PathResult has .ctx .ctrl .inst .run .exc .stage .sampler"""
    res, info = [], dict(complete=True, notes=[])
    for kwargs, cw in config.class_cfg(name):
        conc = set()
        written = {}
        mp, dl = max_paths, deadline
        for attempt in range(12):
            samplers = {}

            def run(ctx):
                ctrl = C.Controller(conc, nn=nn, **cw)
                pr = PathResult()
                pr.ctx, pr.ctrl, pr.kwargs, pr.cw, pr.nn = ctx, ctrl, kwargs, cw, nn
                pr.exc, pr.run, pr.inst = None, None, None
                pr.stage = 'setup'
                try:
                    pr.inst = C.build(cls, ctrl, kwargs)
                    C.S.wrap_tables(pr.inst.comp)
                    pr.sampler = sample.Sampler(seed=env.SEED, meta={**pr.inst.inputs, **pr.inst.outputs}, optvars=ctrl.optvars)
                    ctx.feasible = feas.Feasibility(pr.sampler)
                    pr.stage = 'compute'
                    pr.run = C.execute(pr.inst, ctrl, what=('compute',), modules=modules) if 'compute' in what else None
                    pr.nconds_compute = len(ctx.conds)
                    if 'partials' in what:
                        pr.stage = 'partials'
                        w = written.get(cfgkey(ctx)) 
                        r2 = C.execute(pr.inst, ctrl, what=('partials',), written=w, modules=modules,
                                       inputs=pr.run.inputs0 if pr.run else None)
                        if pr.run is None:
                            pr.run = r2
                        else:
                            pr.run.partials = getattr(r2, 'partials', None)
                            pr.run.part_written = getattr(r2, 'part_written', set())
                            pr.run.mutated += r2.mutated
                            pr.run.attrs += [a for a in r2.attrs if a not in pr.run.attrs]
                            if hasattr(r2, 'states'):
                                pass
                    pr.stage = 'done'
                except (E.NeedConcrete, X.PathLimit):
                    raise
                except Exception as e:       # noqa: BLE001
                    setup_retry(pr.stage, ctrl, conc, e)
                    pr.exc = e
                    pr.tb = traceback.format_exc(limit=-4)
                return pr
            try:
                out, complete = X.explore(run, max_paths=mp, deadline=dl)
            except E.NeedConcrete as e:
                vs = {v[4:].split('[')[0] for v in E.variables([e.node]) if v.startswith('opt:')}
                if not vs or vs <= conc:
                    info['notes'].append('needs a concrete value of an input: ' + str(e))
                    info['complete'] = False
                    out = []
                    break
                conc |= vs
                continue
            except X.PathLimit:
                info['notes'].append('path length limit')
                info['complete'] = False
                out = []
                break
            # second pass with the written set known: unwritten entries become stale symbols
            grew = False
            for ctx, pr in out:
                if isinstance(pr, PathResult) and pr.run is not None and hasattr(pr.run, 'part_written'):
                    w = written.setdefault(cfgkey(ctx), set())
                    if pr.run.part_written - w:
                        w |= pr.run.part_written
                        grew = True
            if grew and two_pass and 'partials' in what:
                mp, dl = max(1, len(out)), None       # the same paths again
                continue
            break
        info['complete'] &= complete if out else False
        info.setdefault('concrete', set()).update(conc)
        for ctx, pr in out:
            if isinstance(pr, PathResult):
                res.append(pr)
            else:
                info['notes'].append('engine: ' + repr(pr)[:200])
                info['complete'] = False
    for pr in res:
        _unstale(pr, res)
    return res, info


def joint_conditions(pr, pa):
    """Conditions of two evaluations of one instance: first on the path of pa (inputs renamed A..), then on the path of pr.
    None if the two paths exclude each other (they need different option values)."""
    ca = pa.ctx.conds
    m = {}
    for n in E.variables([c for c, _ in ca]):
        if not n.startswith('opt:'):
            m[E.var(n).id] = E.var('A' + n)
    ren = E.subst([c for c, _ in ca], m) if ca else []
    joint = [(c, v) for c, v in pr.ctx.conds if not any(n.startswith('stale') for n in E.variables([c]))]
    for c, (_, v) in zip(ren, ca):
        if any(n.startswith('Astale') for n in E.variables([c])):
            continue
        if c.op in ('true', 'false'):
            if (c.op == 'true') != v:
                return None
            continue
        joint.append((c, v))
    return None if feas.contradictory(joint) else joint


def _unstale(pr, res):
    """Entries that no evaluation of an instance with these options writes keep their declared value."""
    P = getattr(pr.run, 'partials', None) if pr.run is not None else None
    if not P:
        return
    for k, a in P.items():
        b = C.S.base(a)
        if not any(n.startswith('stalepartial') for n in E.variables([E.lift(x) for x in b.ravel()])):
            continue
        if any(pa.run is not None and k in getattr(pa.run, 'part_written', ()) and cfgkey(pa.ctx) == cfgkey(pr.ctx)
               and joint_conditions(pr, pa) is not None for pa in res):
            continue
        val = pr.inst.partials[k]['val']
        for i in np.ndindex(*b.shape):
            if any(n.startswith('stalepartial') for n in E.variables([E.lift(b[i])])):
                b[i] = E.lift(val[i]) if val.dtype == object else E.const(float(np.real(val[i])))


def path_label(pr):
    s = []
    for k, i in pr.ctx.choices.items():
        v = pr.ctrl.values.get(k, i)
        s.append(f'{k}={v!r}' if k != '#engine_cfg' else f'engines={pr.ctrl.engine_cfgs[i]}')
    return ', '.join(s)


def concretise(pr, pt):
    """Concrete option values and inputs of a witness point."""
    opts = {}

    def cv(v, name):
        if isinstance(v, E.Node):
            x = float(E.evaluate([v], {k: pt.get(k, float(np.ravel(pr.ctrl.optvars.get(k, ('', 1.0))[1])[0])) for k in E.variables([v])})[0])
            kind = pr.ctrl.optvars.get('opt:' + name, ('float', 0))[0]
            if kind == 'float' and E.variables([v]) and all(pr.ctrl.optvars.get(k, ('float',))[0] == 'count' for k in E.variables([v])):
                kind = 'count'
            return int(round(x)) if kind in ('int', 'count') else x
        return v
    for name, v in pr.ctrl.values.items():
        if name in C.ENGINE_COUNTS and not isinstance(v, (int, np.integer)):
            x = [int(round(float(E.evaluate([E.lift(q)], {**{k: o[1] for k, o in pr.ctrl.optvars.items()}, **pt})[0]))) for q in np.ravel(C.S.base(v) if not isinstance(v, E.Node) else [v])]
            opts[name] = x[0] if isinstance(v, E.Node) else np.array(x)
            continue
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], (E.Node,)):
            opts[name] = (cv(v[0], name), v[1])
        elif isinstance(v, E.Node):
            opts[name] = cv(v, name)
        elif isinstance(v, np.ndarray) and v.dtype == object:
            opts[name] = np.array([cv(x, f'{name}[{i}]') for i, x in enumerate(v)])
        elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], np.ndarray) and v[0].dtype == object:
            a = v[0]
            opts[name] = (np.array([cv(x, f'{name}[{i}]') for i, x in enumerate(a)]), v[1])
        else:
            opts[name] = v
    ins = {}
    for n, m in list(pr.inst.inputs.items()):
        a = np.zeros(m['shape'])
        for i in np.ndindex(*m['shape']):
            a[i] = pt.get('in:' + n + '[' + ','.join(map(str, i)) + ']', 1.0)
        ins[n] = a
    outs = {}
    if pr.inst.implicit:
        for n, m in list(pr.inst.outputs.items()):
            a = np.zeros(m['shape'])
            for i in np.ndindex(*m['shape']):
                a[i] = pt.get('out:' + n + '[' + ','.join(map(str, i)) + ']', 1.0)
            outs[n] = a
    return opts, ins, outs


def native(cls, pr, opts):
    """The same component, natively, with concrete options."""
    ctrl = C.Controller(fixed={**pr.cw.get('fixed', {}), **opts}, nn=pr.nn, **{k: v for k, v in pr.cw.items() if k != 'fixed'})
    X.Ctx.cur = X.Ctx()
    try:
        return C.build(cls, ctrl, pr.kwargs), ctrl
    finally:
        X.Ctx.cur = None


class NativeEval:
    """compute / compute_partials of the real component on concrete vectors (plain CPython and numpy)."""

    def __init__(self, cls, pr, opts):
        self.inst, self.ctrl = native(cls, pr, opts)
        self.comp = self.inst.comp

    def _prev(self, stale, dt):
        return {k: np.array(stale[k], dtype=dt) if stale is not None else np.full(m['shape'], 0.0, dtype=dt)
                for k, m in self.inst.outputs.items()}

    def outputs(self, ins, outs=None, stale=None):
        old, C._CTRL[0] = C._CTRL[0], self.ctrl
        try:
            with C.silence(), np.errstate(all='ignore'):
                dt = complex if any(np.iscomplexobj(v) for v in ins.values()) else float
                v = {k: np.array(x, dtype=dt) for k, x in ins.items()}
                if self.inst.implicit:
                    o = {k: np.array(x, dtype=dt) for k, x in outs.items()}
                    res = NVec(self._prev(stale, dt))
                    C._call(self.comp.apply_nonlinear, self.inst, NVec(v), NVec(o), res, disc=dict(self.inst.discrete_in), dout=True)
                    return res._d
                o = NVec(self._prev(stale, dt))
                C._call(self.comp.compute, self.inst, NVec(v), o, disc=dict(self.inst.discrete_in), dout=dict(self.inst.discrete_out))
                return o._d
        finally:
            C._CTRL[0] = old

    def partials(self, ins, outs=None, prev=None):
        """Dense partials dict (of, wrt) -> 2-D array."""
        old, C._CTRL[0] = C._CTRL[0], self.ctrl
        try:
            with C.silence(), np.errstate(all='ignore'):
                J = NJac(self.inst, prev)
                v = NVec({k: np.array(x, float) for k, x in ins.items()})
                if self.inst.implicit:
                    C._call(self.comp.linearize, self.inst, v, NVec({k: np.array(x, float) for k, x in outs.items()}), J,
                            disc=dict(self.inst.discrete_in), dout=True)
                else:
                    C._call(self.comp.compute_partials, self.inst, v, J, disc=dict(self.inst.discrete_in))
                self.last = J
                return {k: dense(a, self.inst.partials[k]) for k, a in J._d.items()}
        finally:
            C._CTRL[0] = old


def dense(a, info):
    if not info['sparse']:
        return np.array(a)
    out = np.zeros(info['shape'], dtype=np.asarray(a).dtype)
    if out.dtype == object:
        out[...] = 0.0
    for v, r, c in zip(a, info['rows'], info['cols']):
        out[r, c] = out[r, c] + v
    return out


class NVec(C.Vec):
    def __setitem__(self, k, val):
        if k not in self._d:
            raise KeyError(k)
        self.written.add(k)
        v = np.asarray(val)
        try:
            self._d[k][...] = v
        except ValueError:
            self._d[k][...] = v.reshape(self._d[k].shape)


class NJac(C.Partials):
    def __init__(self, inst, prev=None):
        self.info = inst.partials
        self._d = {k: np.array(prev[k] if prev is not None else i['val'], float) for k, i in inst.partials.items()}
        self.written, self.touched = set(), set()

    def __setitem__(self, k, val):
        k = self._key(k)
        if k not in self._d:
            raise KeyError(k)
        arr = self._d[k]
        v = np.asarray(val)
        if self.info[k]['sparse']:
            if v.ndim > 1:
                v = v.ravel() if v.size in (1, arr.size) else v
            arr[...] = v
        elif v.size == 1:
            arr[...] = v.ravel()[0]
        else:
            v = np.atleast_2d(v)
            arr[...] = v if v.shape == arr.shape else v.reshape(arr.shape)
