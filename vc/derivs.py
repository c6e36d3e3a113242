"""C01: reported partials equal the derivatives of the computed outputs."""
import time
import numpy as np
from . import env
from . import comprun as C, comps, expr as E, explore as X, feas, oblig


def fd(nat, ins, outs, wrt, j, of, i, is_state):
    """Central difference derivative of the native outputs with Richardson extrapolation and error estimate."""
    src = outs if is_state else ins
    x0 = float(src[wrt].ravel()[j])
    best = None
    for rel in (1e-3, 1e-4, 1e-5, 1e-6):
        h = rel * max(abs(x0), 1e-3)

        def f(x):
            s = {k: np.array(v, float) for k, v in src.items()}
            s[wrt].ravel()[j] = x
            r = nat.outputs(ins if is_state else s, s if is_state else outs)
            return float(np.real(r[of].ravel()[i]))
        try:
            a = (f(x0 + h) - f(x0 - h)) / (2 * h)
            b = (f(x0 + h / 2) - f(x0 - h / 2)) / h
        except Exception:   # noqa: BLE001
            continue
        d = (4 * b - a) / 3
        err = abs(b - a)
        if np.isfinite(d) and (best is None or err < best[1]):
            best = (d, err)
    return best


def replay(cls, pr, pt, of, wrt, i, j, dsym, psym):
    """Confirm on the real code that the reported partial differs from the derivative. Returns dict or None."""
    try:
        opts, ins, outs = comps.concretise(pr, pt)
        nat = comps.NativeEval(cls, pr, opts)
        is_state = wrt not in ins
        base = nat.outputs(ins, outs)
        P = nat.partials(ins, outs)
        rep = float(np.real(P[of, wrt].reshape(-1, (outs if is_state else ins)[wrt].size)[i, j])) if (of, wrt) in P else 0.0
        d = fd(nat, ins, outs, wrt, j, of, i, is_state)
        if d is None:
            return None
        dv, err = d
        scale = max(abs(dv), abs(rep))
        if not np.isfinite(rep):
            return None
        x0 = float((outs if is_state else ins)[wrt].ravel()[j])
        y0 = float(np.real(base[of].ravel()[i]))
        if scale * max(abs(x0), 1e-3) < 1e-9 * abs(y0) or scale < 1e-25:
            return None      # numerically irrelevant (tails of smoothing functions)
        if abs(rep - psym) > 1e-6 * max(abs(psym), abs(rep)) + 1e-300:
            return None
        if abs(dv - rep) > 1e-5 * scale and abs(dv - rep) > 5 * err and abs(dv - dsym) <= max(5 * err, 0.02 * abs(dv - rep)):
            return dict(reported=rep, finite_difference=dv, symbolic=dsym, options={k: repr(v) for k, v in opts.items()},
                        inputs={k: v.tolist() for k, v in ins.items()}, states={k: v.tolist() for k, v in outs.items()},
                        outputs={k: np.real(v).tolist() for k, v in base.items()})
    except Exception as e:     # noqa: BLE001
        return None
    return None


def crash_replay(cls, pr, sampler):
    """compute succeeds, compute_partials raises an internal error: reproduce natively."""
    pts = feas.find_points(pr.ctx.conds, sampler, need=4, names=set(sampler_names(pr)))
    if not pts:
        return None
    n = len(next(iter(pts.values())))
    for k in range(min(n, 8)):
        pt = {a: float(v[k]) for a, v in pts.items()}
        try:
            opts, ins, outs = comps.concretise(pr, pt)
            nat = comps.NativeEval(cls, pr, opts)
        except Exception:   # noqa: BLE001
            continue
        stage = 'compute'
        try:
            nat.outputs(ins, outs)
            stage = 'partials'
            nat.partials(ins, outs)
        except comps.CRASH as e:
            return dict(stage=stage, error=repr(e), options={a: repr(b) for a, b in opts.items()},
                        inputs={a: b.tolist() for a, b in ins.items()})
        except Exception:   # noqa: BLE001
            continue
    return None


def sampler_names(pr):
    s = set()
    if pr.inst is not None:
        for n, m in pr.inst.inputs.items():
            for i in np.ndindex(*m['shape']):
                s.add('in:' + n + '[' + ','.join(map(str, i)) + ']')
        if pr.inst.implicit:
            for n, m in pr.inst.outputs.items():
                for i in np.ndindex(*m['shape']):
                    s.add('out:' + n + '[' + ','.join(map(str, i)) + ']')
    s |= set(pr.ctrl.optvars)
    return s


def nan_const(e):
    return any(x.op == 'c' and x.val != x.val for x in E.topo([e]))


def check_component(name, cls, nn=2, budget=20.0, max_paths=48, modules=None, pair_timeout=6.0):
    t0 = time.time()
    deadline = t0 + budget
    E.reset()
    R = dict(name=name, obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[], paths=0, rejected=0, excluded=0,
             unknown=[])
    res, info = comps.explore_component(cls, name, nn=nn, max_paths=max_paths, modules=modules, deadline=t0 + budget * 0.5)
    R['complete'] = info['complete']
    R['notes'] += info['notes']
    for pr in res:
        if pr.exc is not None:
            if isinstance(pr.exc, comps.ENGINE_ERR):
                R['notes'].append(f'unsupported at {pr.stage}: {pr.exc}')
                R['undecided'] += 1
            elif pr.stage == 'partials' and isinstance(pr.exc, comps.CRASH):
                rp = crash_replay(cls, pr, pr.sampler)
                R['obligations'] += 1
                if rp and rp['stage'] == 'partials':
                    R['violations'].append(dict(kind='crash', component=name, error=rp['error'], config=comps.path_label(pr), replay=rp,
                                                key=f'{name}|crash|{type(pr.exc).__name__}'))
                else:
                    R['notes'].append(f'exception at {pr.stage} not reproduced: {pr.exc!r}'[:200])
            else:
                R['rejected'] += 1
                R['notes'].append(f'rejected at {pr.stage}: {pr.exc!r}'[:160])
            continue
        if pr.run is None or pr.run.outputs is None:
            continue
        P = getattr(pr.run, 'partials', None)
        R['paths'] += 1
        conds = pr.ctx.conds
        if oblig.boundary(conds):
            R['excluded'] += 1       # no interior
            continue
        inst, run = pr.inst, pr.run
        cache = pr.ctx.feasible.cache
        ins = dict(run.inputs0)
        if inst.implicit:
            ins.update(run.states)
        outs = run.outputs
        approx = inst.approx
        allout = [(of, i, E.lift(x)) for of, a in outs.items() for i, x in enumerate(C.S.base(a).ravel())]
        densep = {}
        for k, a in (P or {}).items():
            if k in approx and k not in run.part_written:
                continue
            densep[k] = comps.dense(C.S.base(a), inst.partials[k])
        has_partials = P is not None or bool(approx)
        if not has_partials and not inst.partials:
            continue
        dead = set()
        for wrt, a in ins.items():
            for j, v in enumerate(C.S.base(a).ravel()):
                v = E.lift(v)
                if v.op != 'v':
                    continue
                try:
                    D = E.diff_all([x for _, _, x in allout], v)
                except E.Unsupported as e:
                    R['undecided'] += 1
                    R['notes'].append(str(e))
                    continue
                for (of, i, x), d in zip(allout, D):
                    if (of, wrt) in dead:
                        continue
                    if (of, wrt) in approx and (of, wrt) not in densep:
                        # approximated by the framework: only its sparsity pattern is an obligation
                        info_p = inst.partials[of, wrt]
                        if not info_p['sparse']:
                            continue
                        if any(r == i and c == j for r, c in zip(info_p['rows'], info_p['cols'])):
                            continue
                        p = E.const(0.0)
                    elif (of, wrt) in densep:
                        p = E.lift(densep[of, wrt].reshape(-1, C.S.base(a).size)[i, j])
                    else:
                        if P is None and not approx:
                            continue
                        p = E.const(0.0)
                    if p is not d and d.op != 'c' and nan_const(d):
                        continue        # division by zero in this configuration, outside the domain
                    R['obligations'] += 1
                    if p is d:
                        R['proved'] += 1
                        continue
                    if time.time() > deadline:
                        # numeric only
                        hit, used = oblig.refute_numeric(d, p, conds, pr.sampler, names=sampler_names(pr), cache=cache)
                        r = dict(status=oblig.REFUTED, point=hit[0], lhs=hit[1], rhs=hit[2]) if hit else dict(
                            status=oblig.BOUNDED if used else oblig.UNDECIDED, why=['time'])
                    else:
                        r = oblig.decide_eq(d, p, conds, pr.sampler, cache, names=sampler_names(pr), timeout=pair_timeout,
                                            deadline=deadline)
                    st = r['status']
                    if st == oblig.PROVED:
                        R['proved'] += 1
                    elif st == oblig.REFUTED:
                        rp = None
                        if not any(q.startswith('stale') for q in E.variables([p])):
                            rp = replay(cls, pr, r['point'], of, wrt, i, j, r['lhs'], r['rhs'])
                        if rp:
                            dead.add((of, wrt))
                            R['violations'].append(dict(kind='partial', component=name, of=of, wrt=wrt, i=i, j=j, config=comps.path_label(pr),
                                                        replay=rp, key=f'{name}|{of}|{wrt}'))
                        else:
                            R['undecided'] += 1
                            R['unknown'].append((of, wrt, i, j, 'refuted symbolically, not replayed', r['lhs'], r['rhs'], comps.path_label(pr)))
                    elif st == oblig.BOUNDED:
                        R['bounded'] += 1
                        R['unknown'].append((of, wrt, i, j, st, r.get('why')))
                    else:
                        R['undecided'] += 1
                        R['unknown'].append((of, wrt, i, j, st, r.get('why')))
    R['wall'] = time.time() - t0
    return R
