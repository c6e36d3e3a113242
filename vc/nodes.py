"""C03: the evaluation of node i of a vectorised component equals the single-node evaluation at that node's inputs.

Relational obligation, discharged on the real code: compute is run on nn nodes and, on the same symbolic inputs restricted to
node i, on a second instance set up for one node; both runs share one path (every joint path is explored)."""
import time
import numpy as np
from . import env
from . import comprun as C, comps, config, expr as E, explore as X, feas, oblig, sample
from .derivs import sampler_names


# cumulative along the phase by definition: the value at a node includes the nodes before it
CUMULATIVE = {'RangeComp', 'ElectricRangeComp', 'DistanceComp'}


def node_axes(i1, i2, nn):
    """name -> axis that grows with the number of nodes (None: not vectorised)"""
    ax = {}
    for n, m in i2.items():
        s1, s2 = i1[n]['shape'], m['shape']
        if s1 == s2 or len(s1) != len(s2):
            ax[n] = None
            continue
        d = [k for k, (a, b) in enumerate(zip(s1, s2)) if a != b]
        ax[n] = d[0] if len(d) == 1 and s1[d[0]] == 1 and s2[d[0]] == nn else 'irregular'
    return ax


def check_component(name, cls, nn=3, budget=20.0, max_paths=32, modules=None):
    t0 = time.time()
    E.reset()
    R = dict(name=name, obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[], paths=0, applicable=False)
    dead = set()
    if name.split(':')[-1] in CUMULATIVE:
        R['notes'].append('cumulative by definition')
        return R
    for kwargs, cw in config.class_cfg(name):
        conc = set()
        res = []
        for attempt in range(12):
            def run(ctx):
                pr = comps.PathResult()
                ctrl = C.Controller(conc, nn=nn, **cw)
                pr.ctx, pr.ctrl, pr.kwargs, pr.cw, pr.nn, pr.exc, pr.run = ctx, ctrl, kwargs, cw, nn, None, None
                pr.stage = 'setup'
                try:
                    pr.inst = many = C.build(cls, ctrl, kwargs)
                    if not ({'num_nodes'} & set(ctrl.values)):
                        pr.stage = 'no nodes'
                        return pr
                    ctrl.values['num_nodes'] = ctrl.nn = 1
                    one = C.build(cls, ctrl, kwargs)
                    ones = [one] + [C.build(cls, ctrl, kwargs) for _ in range(nn - 1)]
                    ctrl.values['num_nodes'] = ctrl.nn = nn
                    pr.ax_in = node_axes(one.inputs, many.inputs, nn)
                    pr.ax_out = node_axes(one.outputs, many.outputs, nn)
                    if not any(isinstance(a, int) for a in pr.ax_out.values()):
                        pr.stage = 'no nodes'
                        return pr
                    for i in [many] + ones:
                        C.S.wrap_tables(i.comp)
                    pr.sampler = sample.Sampler(seed=env.SEED, meta={**many.inputs, **many.outputs}, optvars=ctrl.optvars)
                    ctx.feasible = feas.Feasibility(pr.sampler)
                    pr.stage = 'many'
                    pr.run = C.execute(many, ctrl, what=('compute',), modules=modules)
                    pr.singles = []
                    if pr.run.outputs is None:
                        pr.stage = 'no nodes'
                        return pr
                    for i in range(nn):
                        pr.stage = f'single {i}'
                        ctrl.values['num_nodes'] = ctrl.nn = 1
                        ins = {k: _take(v, pr.ax_in[k], i) for k, v in pr.run.inputs0.items()}
                        st = {k: _take(v, pr.ax_out[k], i) for k, v in pr.run.states.items()} if many.implicit else None
                        pr.singles.append(C.execute(ones[i], ctrl, what=('compute',), modules=modules, inputs=ins, states=st))
                        ctrl.values['num_nodes'] = ctrl.nn = nn
                    pr.stage = 'done'
                except (E.NeedConcrete, X.PathLimit):
                    raise
                except Exception as e:   # noqa: BLE001
                    comps.setup_retry(pr.stage, ctrl, conc, e)
                    pr.exc = e
                finally:
                    ctrl.nn = nn
                    if 'num_nodes' in ctrl.values:
                        ctrl.values['num_nodes'] = nn
                return pr
            try:
                res, complete = X.explore(run, max_paths=max_paths, deadline=t0 + budget * 0.6)
            except E.NeedConcrete as e:
                vs = {v[4:].split('[')[0] for v in E.variables([e.node]) if v.startswith('opt:')}
                if not vs or vs <= conc:
                    R['notes'].append('needs a concrete value: ' + str(e)[:120])
                    break
                conc |= vs
                continue
            except X.PathLimit:
                R['notes'].append('path limit')
                break
            if not complete:
                R['notes'].append('paths not exhausted')
            break
        for ctx, pr in res:
            if not isinstance(pr, comps.PathResult):
                R['undecided'] += 1
                continue
            if pr.stage == 'no nodes':
                continue
            R['applicable'] = True
            if pr.exc is not None:
                if isinstance(pr.exc, comps.ENGINE_ERR):
                    R['undecided'] += 1
                    R['notes'].append(f'unsupported at {pr.stage}: {pr.exc}'[:160])
                else:
                    R['notes'].append(f'rejected at {pr.stage}: {pr.exc!r}'[:160])
                continue
            R['paths'] += 1
            for of, arr in pr.run.outputs.items():
                ax = pr.ax_out[of]
                if not isinstance(ax, int):
                    continue
                for i in range(nn):
                    a = C.S.base(_take(arr, ax, i)).ravel()
                    b = C.S.base(pr.singles[i].outputs[of]).ravel()
                    for x, y in zip(a, b):
                        x, y = E.lift(x), E.lift(y)
                        R['obligations'] += 1
                        if x is y or (x.op == 'v' and x.val.startswith('stale') and y.op == 'v' and y.val.startswith('stale')):
                            R['proved'] += 1
                            continue
                        if of in dead:
                            continue
                        if time.time() > t0 + budget:
                            R['undecided'] += 1
                            continue
                        r = oblig.decide_eq(x, y, pr.ctx.conds, pr.sampler, ctx.feasible.cache, names=set(sampler_names(pr)), timeout=1.5,
                                            deadline=t0 + budget)
                        if r['status'] == oblig.PROVED:
                            R['proved'] += 1
                        elif r['status'] == oblig.BOUNDED:
                            R['bounded'] += 1
                        elif r['status'] == oblig.REFUTED:
                            rp = replay(cls, pr, r['point'], of, ax, i)
                            if rp:
                                dead.add(of)
                                R['violations'].append(dict(key=f'{name}|{of}', replay=rp, config=comps.path_label(pr), message=f'{of} at node {i}: '
                                                            f'{rp["vector"]} in a vector of {nn} nodes, {rp["single"]} for the node alone'))
                            else:
                                R['undecided'] += 1
                        else:
                            R['undecided'] += 1
    R['wall'] = time.time() - t0
    return R


def _take(v, ax, i):
    if not isinstance(ax, int):
        return C.S.wrap(C.S.base(v).copy())
    return C.S.wrap(np.take(C.S.base(v), [i], axis=ax).copy())


def replay(cls, pr, pt, of, ax, i):
    try:
        opts, ins, outs = comps.concretise(pr, pt)
        many = comps.NativeEval(cls, pr, opts)
        nn = pr.nn
        pr.nn = 1
        try:
            one = comps.NativeEval(cls, pr, {**opts, 'num_nodes': 1})
        finally:
            pr.nn = nn
        f = lambda v, ax: np.take(v, [i], axis=ax) if isinstance(ax, int) else v
        a = np.real(f(many.outputs(ins, outs)[of], ax)).ravel()
        b = np.real(one.outputs({k: f(v, pr.ax_in[k]) for k, v in ins.items()}, {k: f(v, pr.ax_out[k]) for k, v in outs.items()})[of]).ravel()
        d = np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) > 1e-6 * np.maximum(np.abs(a), np.abs(b)))
        if d.any():
            return dict(output=of, node=i, vector=a.tolist(), single=b.tolist(), options={k: repr(v) for k, v in opts.items()},
                        inputs={k: v.tolist() for k, v in ins.items()}, states={k: v.tolist() for k, v in outs.items()})
    except Exception:   # noqa: BLE001
        return None
    return None
