"""C02: an evaluation depends only on current inputs and options; inputs are not modified (frame condition)."""
import time
import numpy as np
from . import env
from . import comprun as C, comps, expr as E, explore as X, feas, oblig, sample
from .derivs import sampler_names


def _stale(nodes, prefix='stale'):
    return sorted(v for v in E.variables(nodes) if v.startswith(prefix))


def _points(conds, pr, names):
    return feas.find_points(conds, pr.sampler, names=names)


def _each(pts, k=8):
    n = min((len(v) for v in pts.values()), default=0)
    for i in sorted(set(np.linspace(0, n - 1, min(n, k)).astype(int))) if n else ():
        yield {a: float(v[i]) for a, v in pts.items()}


def _histories(pr, others, writes, npts=8):
    """Witness points (A, B) of two-evaluation histories whose first evaluation takes a path that writes the entry."""
    for pa in others:
        if not writes(pa) or comps.cfgkey(pa.ctx) != comps.cfgkey(pr.ctx):
            continue
        joint = comps.joint_conditions(pr, pa)
        if joint is None:
            continue
        names = set(sampler_names(pr)) | {('A' + n if not n.startswith('opt:') else n) for n in sampler_names(pa)}
        pts = _points(joint, pr, names)
        for pt in _each(pts or {}, npts):
            ptA = {(k[1:] if k.startswith('A') else k): v for k, v in pt.items() if k.startswith('A') or k.startswith('opt:')}
            yield pa, ptA, {k: v for k, v in pt.items() if not k.startswith('A')}


def replay_output(cls, pr, others, of):
    """The result at B differs between a fresh instance and one that was evaluated at A before."""
    for pa, ptA, ptB in _histories(pr, others, lambda q: of in getattr(q.run, 'out_written', ())):
        try:
            opts, ia, oa = comps.concretise(pa, ptA)
            _, ib, ob = comps.concretise(pr, ptB)
            nat = comps.NativeEval(cls, pr, opts)
            fresh = np.array(np.real(nat.outputs(ib, ob)[of]))
            prev = nat.outputs(ia, oa)
            used = np.array(np.real(nat.outputs(ib, ob, stale=prev)[of]))
        except Exception:   # noqa: BLE001
            continue
        d = np.isfinite(fresh) & np.isfinite(used) & (np.abs(fresh - used) > 1e-6 * np.maximum(np.abs(fresh), np.abs(used)))
        if d.any():
            return dict(output=of, first_inputs={k: v.tolist() for k, v in ia.items()}, second_inputs={k: v.tolist() for k, v in ib.items()},
                        fresh=fresh.tolist(), after_history=used.tolist(), options={k: repr(v) for k, v in opts.items()})
    return None


def replay_partial(cls, pr, others, key):
    """Evaluate at a point of a path of the same configuration that writes the entry, then here: the stale entry survives."""
    for pa, ptA, ptB in _histories(pr, others, lambda q: key in q.run.part_written):
        try:
            opts, ia, oa = comps.concretise(pa, ptA)
            _, ib, ob = comps.concretise(pr, ptB)
            nat = comps.NativeEval(cls, pr, opts)
            if not nat.inst.implicit:
                nat.outputs(ib)
            fresh = np.array(nat.partials(ib, ob)[key])
            if not nat.inst.implicit:
                nat.outputs(ia)
            nat.partials(ia, oa)
            prev = nat.last._d
            if not nat.inst.implicit:
                nat.outputs(ib)
            used = np.array(nat.partials(ib, ob, prev=prev)[key])
        except Exception:   # noqa: BLE001
            continue
        d = np.isfinite(fresh) & np.isfinite(used) & (np.abs(fresh - used) > 1e-6 * np.maximum(np.abs(fresh), np.abs(used)))
        if d.any():
            return dict(partial=list(key), first_inputs={k: v.tolist() for k, v in ia.items()},
                        second_inputs={k: v.tolist() for k, v in ib.items()}, fresh=fresh.tolist(), after_history=used.tolist(),
                        options={k: repr(v) for k, v in opts.items()})
    return None


def replay_mutation(cls, pr, what):
    pts = _points([(c, v) for c, v in pr.ctx.conds if not _stale([c])], pr, set(sampler_names(pr)))
    for pt in _each(pts or {}):
        try:
            opts, ins, outs = comps.concretise(pr, pt)
            nat = comps.NativeEval(cls, pr, opts)
            old, C._CTRL[0] = C._CTRL[0], nat.ctrl
            try:
                with C.silence(), np.errstate(all='ignore'):
                    v = {k: np.array(x, float) for k, x in ins.items()}
                    o = {k: np.array(x, float) for k, x in outs.items()} if nat.inst.implicit else {
                        k: np.zeros(m['shape']) for k, m in nat.inst.outputs.items()}
                    J = comps.NJac(nat.inst)
                    di, do = dict(nat.inst.discrete_in), dict(nat.inst.discrete_out)
                    if what == 'compute':
                        C._call(nat.comp.compute, nat.inst, comps.NVec(v), comps.NVec(o), disc=di, dout=do)
                    elif what == 'compute_partials':
                        C._call(nat.comp.compute, nat.inst, comps.NVec({k: x.copy() for k, x in v.items()}), comps.NVec(o), disc=di, dout=do)
                        C._call(nat.comp.compute_partials, nat.inst, comps.NVec(v), J, disc=di)
                    elif what == 'apply_nonlinear':
                        C._call(nat.comp.apply_nonlinear, nat.inst, comps.NVec(v), comps.NVec(o),
                                comps.NVec({k: np.zeros_like(x) for k, x in o.items()}), disc=di, dout=True)
                    else:
                        C._call(nat.comp.linearize, nat.inst, comps.NVec(v), comps.NVec(o), J, disc=di, dout=True)
            finally:
                C._CTRL[0] = old
        except Exception:   # noqa: BLE001
            continue
        bad = [k for k in ins if not np.array_equal(v[k], ins[k], equal_nan=True)]
        if bad:
            return dict(method=what, before={k: ins[k].tolist() for k in bad}, after={k: v[k].tolist() for k in bad},
                        options={k: repr(x) for k, x in opts.items()}, inputs={k: x.tolist() for k, x in ins.items()})
    return None


def two_runs(cls, name, nn, modules, max_paths, deadline):
    """Relational obligation for components that keep state: the evaluation at B on a used instance (evaluated at A before)
    equals the evaluation at B on a fresh instance."""
    from . import config
    out = dict(obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[])
    for kwargs, cw in config.class_cfg(name):
        conc = set()
        for attempt in range(12):
            def run(ctx):
                pr = comps.PathResult()
                ctrl = C.Controller(conc, nn=nn, **cw)
                pr.ctx, pr.ctrl, pr.kwargs, pr.cw, pr.nn, pr.exc, pr.run = ctx, ctrl, kwargs, cw, nn, None, None
                pr.stage = 'setup'
                try:
                    fresh = C.build(cls, ctrl, kwargs)
                    C.S.wrap_tables(fresh.comp)
                    pr.inst = fresh
                    pr.sampler = sample.Sampler(seed=env.SEED, meta={**fresh.inputs, **fresh.outputs}, optvars=ctrl.optvars)
                    ctx.feasible = feas.Feasibility(pr.sampler)
                    ctrl.phase = 'setup'
                    used = C.build(cls, ctrl, kwargs)
                    C.S.wrap_tables(used.comp)
                    insA = {k: C.S.wrap(C.S.base(v).copy()) for k, v in _symA(fresh).items()}
                    pr.stage = 'A'
                    C.execute(used, ctrl, what=('compute', 'partials'), modules=modules, inputs=insA)
                    pr.stage = 'B'
                    pr.r0 = C.execute(fresh, ctrl, modules=modules)
                    pr.r1 = C.execute(used, ctrl, modules=modules, inputs=pr.r0.inputs0)
                    pr.stage = 'done'
                except (E.NeedConcrete, X.PathLimit):
                    raise
                except Exception as e:   # noqa: BLE001
                    comps.setup_retry(pr.stage, ctrl, conc, e)
                    pr.exc = e
                return pr
            try:
                res, complete = X.explore(run, max_paths=max_paths, deadline=deadline)
            except E.NeedConcrete as e:
                vs = {v[4:].split('[')[0] for v in E.variables([e.node]) if v.startswith('opt:')}
                if not vs or vs <= conc:
                    out['notes'].append('two-run: needs a concrete value ' + str(e))
                    res = []
                    break
                conc |= vs
                continue
            except X.PathLimit:
                out['notes'].append('two-run: path limit')
                res = []
                break
            break
        for ctx, pr in res:
            if not isinstance(pr, comps.PathResult) or pr.stage != 'done':
                if isinstance(pr, comps.PathResult) and pr.stage == 'B':
                    out['undecided'] += 1
                    out['notes'].append(f'two-run: {pr.exc!r}'[:160])
                continue
            for what in ('outputs', 'partials'):
                a, b = getattr(pr.r0, what, None) or {}, getattr(pr.r1, what, None) or {}
                for k in a:
                    for x, y in zip(C.S.base(a[k]).ravel(), C.S.base(b[k]).ravel()):
                        out['obligations'] += 1
                        x, y = E.lift(x), E.lift(y)
                        if x is y:
                            out['proved'] += 1
                            continue
                        if deadline and time.time() > deadline:
                            out['undecided'] += 1
                            continue
                        r = oblig.decide_eq(x, y, pr.ctx.conds, pr.sampler, ctx.feasible.cache, names=set(sampler_names(pr)), timeout=1.0, deadline=deadline)
                        if r['status'] == oblig.PROVED:
                            out['proved'] += 1
                            continue
                        if r['status'] == oblig.BOUNDED:
                            out['bounded'] += 1
                            continue
                        rp = replay_two(cls, pr, what, k) if r['status'] == oblig.REFUTED else None
                        if rp:
                            out['violations'].append(dict(key=f'{name}|state|{what}|{k}', replay=rp, config=comps.path_label(pr),
                                                          message=f'{what} {k} of a used instance differ from those of a fresh one'))
                        else:
                            out['undecided'] += 1
    return out


def _symA(inst):
    out = {}
    for name, m in inst.inputs.items():
        a = np.empty(m['shape'], dtype=object)
        for i in np.ndindex(*m['shape']):
            a[i] = E.var('Ain:' + name + '[' + ','.join(map(str, i)) + ']')
            C.precondition(name, m.get('units'), a[i])
        out[name] = C.S.wrap(a)
    return out


def replay_two(cls, pr, what, key):
    names = set(sampler_names(pr)) | {'A' + n for n in sampler_names(pr) if not n.startswith('opt:')}
    pts = _points(pr.ctx.conds, pr, names)
    for pt in _each(pts or {}):
        try:
            ptA = {(k[1:] if k.startswith('A') else k): v for k, v in pt.items() if k.startswith('A') or k.startswith('opt:')}
            ptB = {k: v for k, v in pt.items() if not k.startswith('A')}
            opts, ia, oa = comps.concretise(pr, ptA)
            _, ib, ob = comps.concretise(pr, ptB)
            f, u = comps.NativeEval(cls, pr, opts), comps.NativeEval(cls, pr, opts)
            u.outputs(ia, oa)
            if what == 'partials':
                u.partials(ia, oa)
            x, y = f.outputs(ib, ob), u.outputs(ib, ob)
            if what == 'partials':
                x, y = f.partials(ib, ob), u.partials(ib, ob)
            x, y = np.array(np.real(x[key]), float), np.array(np.real(y[key]), float)
        except Exception:   # noqa: BLE001
            continue
        d = np.isfinite(x) & (~np.isfinite(y) | (np.abs(x - y) > 1e-6 * np.maximum(np.abs(x), np.abs(y))))
        if d.any():
            return dict(first_inputs={k: v.tolist() for k, v in ia.items()}, second_inputs={k: v.tolist() for k, v in ib.items()},
                        fresh=x.tolist(), used=y.tolist(), options={k: repr(v) for k, v in opts.items()})
    return None


def _never(good, pr, of):
    """No path of this configuration writes the output: it keeps its declared value, whatever the history."""
    return not any(of in getattr(q.run, 'out_written', ()) and comps.joint_conditions(pr, q) is not None
                   for q in good if comps.cfgkey(q.ctx) == comps.cfgkey(pr.ctx))


def check_component(name, cls, nn=2, budget=20.0, max_paths=48, modules=None):
    t0 = time.time()
    E.reset()
    R = dict(name=name, obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[], paths=0)
    res, info = comps.explore_component(cls, name, nn=nn, max_paths=max_paths, modules=modules, deadline=t0 + budget * 0.7)
    R['notes'] += info['notes']
    R['complete'] = info['complete']
    good = [pr for pr in res if pr.run is not None and pr.exc is None]
    dead = set()
    attrs = set()

    def vio(key, rp, msg, pr):
        R['violations'].append(dict(key=f'{name}|{key}', replay=rp, message=msg, config=comps.path_label(pr)))
    for pr in res:
        if pr.exc is not None and isinstance(pr.exc, comps.ENGINE_ERR):
            R['undecided'] += 1
            R['notes'].append(f'unsupported at {pr.stage}: {pr.exc}'[:160])
    for pr in good:
        R['paths'] += 1
        run = pr.run
        attrs |= set(run.attrs)
        for of, a in (run.outputs or {}).items():
            for x in C.S.base(a).ravel():
                R['obligations'] += 1
                st = _stale([E.lift(x)])
                if not st or _never(good, pr, of):
                    R['proved'] += 1
                elif ('out', of) in dead:
                    continue
                else:
                    rp = replay_output(cls, pr, good, of)
                    if rp:
                        dead.add(('out', of))
                        vio('output|' + of, rp, f'{of} depends on its value before the evaluation ({st[0]})', pr)
                    else:
                        R['undecided'] += 1
        for k, a in (getattr(run, 'partials', None) or {}).items():
            if k in pr.inst.approx and k not in run.part_written:
                continue
            for x in C.S.base(a).ravel():
                R['obligations'] += 1
                st = _stale([E.lift(x)])
                if not st:
                    R['proved'] += 1
                elif ('p', k) in dead:
                    continue
                else:
                    rp = replay_partial(cls, pr, good, k)
                    if rp:
                        dead.add(('p', k))
                        vio(f'partial|{k[0]}|{k[1]}', rp, f'd {k[0]} / d {k[1]} keeps the value of an earlier evaluation', pr)
                    else:
                        R['undecided'] += 1
        R['obligations'] += 1
        if not _stale([c for c, _ in pr.ctx.conds]):
            R['proved'] += 1
        else:
            R['undecided'] += 1
        done = set()
        for k in pr.inst.inputs:
            R['obligations'] += 1
            mm = [m for m in run.mutated if m[0] == k]
            if not mm:
                R['proved'] += 1
                continue
            for m in mm:
                if m in dead:
                    continue
                rp = replay_mutation(cls, pr, m[1])
                if rp:
                    dead.add(m)
                    vio(f'input modified|{k}|{m[1]}', rp, f'{m[1]} modifies the input {k}', pr)
                else:
                    R['undecided'] += 1
    if not attrs:
        R['obligations'] += 1
        R['proved'] += 1      # frame: the instance, its class and its module are unchanged on every path
    else:
        R['notes'].append('state kept between evaluations: ' + ', '.join(sorted(attrs)))
        t = two_runs(cls, name, nn, modules, max(4, max_paths // 6), time.time() + budget)
        for f in ('obligations', 'proved', 'bounded', 'undecided'):
            R[f] += t[f]
        R['notes'] += t['notes']
        seen = set()
        for v in t['violations']:
            if v['key'] not in seen:
                seen.add(v['key'])
                R['violations'].append(v)
    R['wall'] = time.time() - t0
    return R
