"""Functional contracts (postconditions) on component evaluations.

A contract is a function f(c) that yields (label, actual, expected) where actual / expected are built from
c.i(name, units), c.o(name, units) and c.opt(name). It is evaluated once on the symbolic result of every path of the real
compute body (all obligations discharged over the reals) and, to confirm a refutation, on the native floats of the real code."""
import re
import time
import numpy as np
from openmdao.utils.units import unit_conversion
from . import env
from . import comprun as C, comps, expr as E, feas, oblig
from .explore import Ctx
from .derivs import sampler_names


class View:
    """Inputs, outputs and options of one evaluation, in the units the contract asks for."""

    def __init__(self, inst, ins, outs, opts, symbolic, nn, name='', fixed=None):
        self.fixed = fixed or {}
        self.name, self.inst, self.ins, self.outs, self.opts, self.symbolic, self.nn = name, inst, ins, outs, opts, symbolic, nn

    def _conv(self, a, meta, units):
        u = meta.get('units')
        if units is None or u is None or u == units or units == 'unitless' or u == 'unitless':
            if (u in (None, 'unitless')) != (units in (None, 'unitless')) and units is not None:
                raise UnitMismatch(f'{u} vs {units}')
            return a
        f, o = unit_conversion(u, units)
        return (a + o) * f if o else a * f

    def has_i(self, name): return name in self.ins
    def has_o(self, name): return name in self.outs

    def i(self, name, units=None):
        return self._conv(self.ins[name], self.inst.inputs[name], units)

    def o(self, name, units=None):
        return self._conv(self.outs[name], self.inst.outputs[name], units)

    def opt(self, name, units=None, default=None):
        if name not in self.opts and name not in self.inst.comp.options and default is not None:
            return default
        v = self.opts[name] if name in self.opts else self.fixed[name] if name in self.fixed else self.inst.comp.options[name]
        if isinstance(v, tuple) and len(v) == 2 and (v[1] is None or isinstance(v[1], str)):
            if units is not None and v[1] is not None and v[1] != units:
                f, o = unit_conversion(v[1], units)
                return (v[0] + o) * f
            return v[0]
        return v


    def rescaled(self, name, factors, outs):
        """The named outputs when the elements of input `name` are multiplied by the factors."""
        if not self.symbolic:
            ins = {k: np.array(v, float) for k, v in self.ins.items()}
            ins[name] = ins[name] * np.reshape(np.broadcast_to(factors, ins[name].size), ins[name].shape)
            o = self.rerun(ins)
            return {k: np.array(np.real(o[k]), float) for k in outs}
        sym = [E.lift(x) for x in C.S.base(self.ins[name]).ravel()]
        fac = np.broadcast_to(factors, len(sym))
        mapping = {x.id: E.mul(E.const(float(f)), x) for x, f in zip(sym, fac) if f != 1.0}
        names = {x.val for x, f in zip(sym, fac) if f != 1.0}
        conds = Ctx.cur.conds
        for cnd, val in conds:
            if names & E.variables([cnd]):
                # the path must stay the same: the rescaled condition has to follow from the original ones
                c2 = E.subst([cnd], mapping)[0]
                if c2.op in ('true', 'false'):
                    ok = (c2.op == 'true') == val
                else:
                    ok = c2 is cnd or feas.contradictory(list(conds) + [(c2, not val)])
                if not ok:
                    raise E.Unsupported(f'path condition on {name}')
        res = {}
        for k in outs:
            a = C.S.base(self.outs[k])
            res[k] = np.array(E.subst([E.lift(x) for x in a.ravel()], mapping), dtype=object).reshape(a.shape)
        return res


    def with_option(self, name, value, outs):
        """The named outputs when a numeric option has another value (the path must not depend on it)."""
        if not self.symbolic:
            o = self.rerun({k: np.array(v, float) for k, v in self.ins.items()}, {name: value})
            return {k: np.array(np.real(o[k]), float) for k in outs}
        x = self.opts[name]
        x = E.lift(x[0] if isinstance(x, tuple) else x)
        if x.op != 'v':
            raise E.Unsupported(f'option {name} is not symbolic')
        if any(x.val in E.variables([cnd]) for cnd, _ in Ctx.cur.conds):
            raise E.Unsupported(f'path condition on {name}')
        return {k: np.array(E.subst([E.lift(y) for y in C.S.base(self.outs[k]).ravel()], {x.id: E.const(float(value))}),
                            dtype=object).reshape(C.S.base(self.outs[k]).shape) for k in outs}


class UnitMismatch(Exception):
    pass


class Skip(Exception):
    """The contract says nothing about this configuration."""


def _flat(x, n):
    a = C.S.base(x) if isinstance(x, np.ndarray) else np.array([x], dtype=object)
    a = np.asarray(a).ravel()
    if a.size == 1 and n > 1:
        a = np.repeat(a, n)
    return a


def terms(f, view):
    """Evaluate a contract: [(label, index, actual, expected, when)]"""
    out = []
    for t in f(view):
        label, a, b = t[:3]
        when = t[3] if len(t) > 3 else None
        n = max(np.size(C.S.base(a)) if isinstance(a, np.ndarray) else 1, np.size(C.S.base(b)) if isinstance(b, np.ndarray) else 1)
        A, B = _flat(a, n), _flat(b, n)
        W = [bool(w) if isinstance(w, np.bool_) else w for w in _flat(when, n)] if when is not None else [None] * n
        if len(A) != len(B):
            out.append((label, -1, A, B, None))
            continue
        for i in range(n):
            out.append((label, i, A[i], B[i], W[i]))
    return out


def native_terms(name, cls, pr, f, pt, spec_mods):
    opts, ins, outs = comps.concretise(pr, pt)
    nat = comps.NativeEval(cls, pr, opts)
    o = nat.outputs(ins, outs)
    allopts = {**pr.ctrl.values, **opts}
    v = View(nat.inst, {k: np.array(x, float) for k, x in ins.items()}, {k: np.array(np.real(x), float) for k, x in o.items()}, allopts, False, pr.nn, name, pr.ctrl.fixed)
    v.rerun = lambda i2, o2=None: (comps.NativeEval(cls, pr, {**opts, **o2}) if o2 else nat).outputs(i2, outs)
    if nat.inst.implicit:
        v.states = {k: np.array(x, float) for k, x in outs.items()}
    with np.errstate(all='ignore'):
        return terms(f, v), opts, ins, o


def check(name, cls, contracts, nn=2, budget=20.0, max_paths=48, modules=None, spec_mods=(), dims=None):
    t0 = time.time()
    deadline = t0 + budget
    E.reset()
    R = dict(name=name, obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[], paths=0)
    res, info = comps.explore_component(cls, name, nn=nn, max_paths=max_paths, what=('compute',), modules=modules,
                                        deadline=t0 + budget * 0.5)
    R['notes'] += info['notes']
    R['complete'] = info['complete']
    dead = set()
    for pr in res:
        if pr.exc is not None:
            if isinstance(pr.exc, comps.ENGINE_ERR):
                R['undecided'] += 1
                R['notes'].append(f'unsupported at {pr.stage}: {pr.exc}'[:160])
            continue
        if pr.run is None or pr.run.outputs is None:
            continue
        R['paths'] += 1
        view = View(pr.inst, pr.run.inputs0, _initial(pr.run.outputs), pr.ctrl.values, True, nn, name, pr.ctrl.fixed)
        if pr.inst.implicit:
            view.states = pr.run.states
        for f in contracts:
            old, Ctx.cur = Ctx.cur, pr.ctx
            try:
                with C.S.patched(list(spec_mods)):
                    ts = terms(f, view)
            except Skip:
                continue
            except (KeyError, UnitMismatch) as e:
                # the variable the property speaks about is gone or has another dimension
                R['notes'].append(f'{f.__name__}: {e!r}'[:160])
                R['obligations'] += 1
                R['undecided'] += 1
                miss = e.args[0] if isinstance(e, KeyError) and e.args else None
                if isinstance(miss, str) and miss.split(':')[0] in ('aircraft', 'mission') and miss not in dead:
                    dead.add(miss)
                    R['violations'].append(dict(key=f'{name}|{f.__name__}|{miss}', replay=None, config=comps.path_label(pr), message=f'the contract '
                                                f'"{f.__name__}" relates {miss}, which the component no longer has ({comps.path_label(pr)})'))
                continue
            except (E.NeedConcrete, E.Unsupported, TypeError, ValueError, IndexError) as e:
                R['notes'].append(f'{f.__name__}: {e!r}'[:160])
                R['undecided'] += 1
                continue
            finally:
                Ctx.cur = old
            for label, i, a, b, w in ts:
                if (f.__name__, label) in dead:
                    continue
                R['obligations'] += 1
                if i < 0:
                    R['undecided'] += 1
                    R['notes'].append(f'{f.__name__}|{label}: shapes differ')
                    continue
                a, b = E.lift(a), E.lift(b)
                conds = list(pr.ctx.conds)
                if w is not None and w is not True:
                    if w is False or getattr(w, 'op', None) == 'false':
                        R['proved'] += 1
                        continue
                    if getattr(w, 'op', None) != 'true' and w is not True:
                        cs, ok = [], True
                        for atom, val in _conj(w):
                            if atom.op in ('true', 'false'):
                                ok &= (atom.op == 'true') == val
                            else:
                                cs.append((atom, val))
                        if not ok or feas.contradictory(conds + cs):
                            R['proved'] += 1
                            continue
                        conds += cs
                if a is b:
                    R['proved'] += 1
                    continue
                r = oblig.decide_eq(a, b, conds, pr.sampler, pr.ctx.feasible.cache, names=set(sampler_names(pr)), timeout=3.0,
                                    deadline=deadline, use_smt=True)
                if r['status'] == oblig.PROVED:
                    R['proved'] += 1
                elif r['status'] == oblig.BOUNDED:
                    R['bounded'] += 1
                    R['notes'].append(f'{label}[{i}] bounded: {r.get("why")} {comps.path_label(pr)}'[:300])
                elif r['status'] == oblig.REFUTED:
                    rp = replay(name, cls, pr, f, label, i, r['point'], spec_mods)
                    if rp:
                        dead.add((f.__name__, label))
                        R['violations'].append(dict(key=f'{name}|{label}', replay=rp, config=comps.path_label(pr), message=f'{label}[{i}]: '
                                                    f'computed {rp["actual"]:.8g}, contract requires {rp["expected"]:.8g} ({comps.path_label(pr)})'))
                    else:
                        R['undecided'] += 1
                        R['notes'].append(f'{label}[{i}] refuted symbolically ({r["lhs"]:.6g} vs {r["rhs"]:.6g}), not replayed'[:160])
                else:
                    R['undecided'] += 1
                    R['notes'].append(f'{label}[{i}]: {r.get("why")}'[:160])
    R['wall'] = time.time() - t0
    return R


def _initial(outs):
    """Entries a path never writes keep their initial value (0 here; C02 decides whether that is legitimate)."""
    res = {}
    for k, a in outs.items():
        b = C.S.base(a)
        flat = [E.lift(x) for x in b.ravel()]
        mp = {v.id: E.const(0.0) for v in E.topo(flat) if getattr(v, 'op', None) == 'v' and v.val.startswith('stale:')}
        res[k] = np.array(E.subst(flat, mp), dtype=object).reshape(b.shape) if mp else a
    return res


def _conj(c, v=True):
    while c.op == 'not':
        c, v = c.args[0], not v
    if c.op == 'and' and v:
        return _conj(c.args[0]) + _conj(c.args[1])
    return [(c, v)]


def replay(name, cls, pr, f, label, i, pt, spec_mods):
    try:
        ts, opts, ins, outs = native_terms(name, cls, pr, f, pt, spec_mods)
    except Exception:   # noqa: BLE001
        return None
    for lb, k, a, b, w in ts:
        if lb == label and k == i:
            if w is not None and not w:     # several terms may carry one label: any of them that fails at the point confirms
                continue
            a, b = float(a), float(b)
            if not (np.isfinite(a) and np.isfinite(b)) or abs(a - b) <= 2e-6 * max(abs(a), abs(b)):
                continue
            return dict(contract=f.__name__, label=label, index=i, actual=a, expected=b, options={k: repr(v) for k, v in opts.items()},
                        inputs={k: v.tolist() for k, v in ins.items()}, outputs={k: np.real(v).tolist() for k, v in outs.items()})
    return None


# ------------------------------------------------------------------ registry
class Registry:
    def __init__(self):
        self.items = []       # (regex, function)

    def __call__(self, *patterns):
        def deco(f):
            for p in patterns:
                self.items.append((re.compile(p), f))
            return f
        return deco

    def select(self, comps_):
        out = {}
        for k in comps_:
            fs = [f for p, f in self.items if p.search(k)]
            if fs:
                out[k] = fs
        missing = [p.pattern for p, f in self.items if not any(p.search(k) for k in comps_)]
        return out, missing


def run_property(pid, module, assumptions, min_obligations, backend='generalized-polynomial normal form over the reals (vc/normal.py)'):
    """Shared main() of the contract-based properties."""
    from . import runner
    R = runner.Result(pid)
    COMPS, failed = C.components()
    mods = C.aviary_modules()
    sel, missing = module.contract.select(COMPS)
    thorough = env.TIER == 'thorough'

    def work(item):
        k, nn = item
        return check(k, COMPS[k], sel[k], nn=nn, modules=mods, spec_mods=[module], budget=150.0 if thorough else 25.0,
                     max_paths=160 if thorough else 64)
    global _WORK
    _WORK = work
    nodes = getattr(module, 'NODES', {})
    def base(k):
        return next((n for p, n in nodes.items() if re.search(p, k)), 2)
    items = [(k, base(k)) for k in sel] + ([(k, base(k) + 1) for k in sel] if thorough else [])
    rs = runner.pmap(_work, items, timeout=5400 if thorough else 700)
    R.component_results(rs)
    extra = getattr(module, 'extra', None)
    if extra:
        extra(R)
    R.notes += [f'no component matches {m}' for m in missing] + [f'module not importable: {m}' for m, _ in failed]
    R.backends = {backend: R.proved}
    R.trusted = runner.ENGINE_TRUST + [f'the contracts as written in {module.__name__}']
    R.assumptions = ['floating point arithmetic is treated as real arithmetic', 'boundaries between formula branches are excluded',
                     'array sizes fixed at 2 nodes (3 in the thorough tier) and the listed engine configurations'] + list(assumptions)
    return runner.finish(R, min_obligations=min_obligations)


def _work(item):
    return _WORK(item)
