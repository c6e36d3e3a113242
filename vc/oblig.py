"""Discharge of equational obligations `guard -> expr == 0`, with case splits on conditional terms,
numeric refutation (never a proof) and classification."""
import time
import numpy as np
from . import expr as E
from . import feas, sample, smt
from .normal import prove_zero, RTOL

PROVED, REFUTED, BOUNDED, UNDECIDED = 'proved', 'refuted', 'bounded', 'undecided'


def first_atom(c):
    while c.op in ('not', 'and'):
        c = c.args[0]
    return c


def ite_atoms(node):
    out = []
    seen = set()
    for n in E.topo([node]):
        if n.op == 'ite':
            for a in _atoms(n.args[0]):
                if a.id not in seen:
                    seen.add(a.id)
                    out.append(a)
    return out


def _atoms(c):
    if c.op in ('not', 'and'):
        for x in c.args:
            yield from _atoms(x)
    elif c.op in ('lt', 'eq'):
        yield c


def is_input_eq(c):
    """equality between real quantities (a set without interior)"""
    return c.op == 'eq' and not any(v.startswith('opt:') for v in E.variables([c]))


_OPP = {}


def boundary(conds):
    """The conditions force an equality between real quantities (a set without interior)."""
    if any(v and is_input_eq(c) for c, v in conds):
        return True
    lts = [c for c, v in conds if not v and c.op == 'lt' and not all(x.startswith('opt:') for x in E.variables([c]))]
    for i, a in enumerate(lts):
        for b in lts[:i]:
            k = (a, b)
            r = _OPP.get(k)
            if r is None:
                va, vb = E.variables([a]), E.variables([b])
                r = va == vb and prove_zero(E.add(E.sub(a.args[0], a.args[1]), E.sub(b.args[0], b.args[1])), timeout=0.2) == 'proved'
                if len(_OPP) > 20000:
                    _OPP.clear()
                _OPP[k] = r
            if r:
                return True
    return False


def split(expr, conds, max_leaves=96, interior=True):
    """Yield (leaf expr without ites, leaf conds). Contradictory leaves are dropped."""
    stack = [(expr, list(conds))]
    n = 0
    while stack:
        e, cs = stack.pop()
        if E.isc(e, 0.0):
            yield e, cs
            continue
        atoms = ite_atoms(e)
        if not atoms:
            n += 1
            if n > max_leaves:
                yield None, cs
                return
            yield e, cs
            continue
        a = atoms[0]
        v = dict((c.id, v) for c, v in cs).get(a.id)
        if v is None:
            v = feas.implied(cs, a)
        for val in ([v] if v is not None else [False, True]):
            if val and a.op == 'eq' and interior and v is None:
                continue
            if not val and a.op == 'lt' and interior and v is None and any(c.op == 'lt' and not w and c.args[0] is a.args[1] and c.args[1] is a.args[0] for c, w in cs):
                continue        # a == b, a set without interior
            (e2,) = E.subst([e], {}, {a.id: val})
            cs2 = cs if v is not None else cs + [(a, val)]
            if feas.contradictory(cs2):
                continue
            stack.append((e2, cs2))


def eq_subst(e, conds):
    """Use decided equalities `variable == constant` of the path."""
    mp = {}
    for c, v in conds:
        if v and c.op == 'eq':
            a, b = c.args
            if b.op == 'c':
                a, b = b, a
            if a.op != 'c':
                continue
            while a.val == 0 and b.op == 'div':
                b = b.args[0]
            if b.op == 'v':
                mp[b.id] = a
    if not mp:
        return e
    try:
        (e2,) = E.subst([e], mp)
    except ZeroDivisionError:
        return e
    for x in E.topo([e2]):
        if (x.op == 'c' and x.val - x.val != 0) or (x.op == 'div' and E.isc(x.args[1], 0.0)):
            return e
    return e2


def rel_bad(e, *terms, tol=1e-5):
    """mask of points where e is not small against the terms"""
    e = np.asarray(e, float)
    m = np.zeros_like(e)
    for t in terms:
        m = np.maximum(m, np.abs(np.asarray(t, float)))
    with np.errstate(all='ignore'):
        return np.isfinite(e) & np.isfinite(m) & (np.abs(e) > tol * m) & (m > 0)


def refute_numeric(lhs, rhs, conds, sampler, names=(), tol=1e-5, cache=None, extra_pts=None, check=None, max_try=12):
    """Look for a point with the conditions true and lhs != rhs. Returns (point dict | None, n points used)."""
    e = E.sub(lhs, rhs)
    used = 0
    names = sorted(set(names) | E.variables([e] + [c for c, _ in conds]))
    if extra_pts is not None:
        k = len(next(iter(extra_pts.values()))) if extra_pts else 1
        env = {n: extra_pts[n] if n in extra_pts else np.asarray(sampler.get(n))[:k] if k <= sampler.n else np.resize(sampler.get(n), k) for n in names}
        vals = E.evaluate([lhs, rhs, e] + [c for c, _ in conds], env)
        n = k
        get = lambda i: {x: float(env[x][i]) for x in names}
    else:
        vals = [cache.ev(x) for x in [lhs, rhs, e] + [c for c, _ in conds]]
        n = sampler.n
        get = lambda i: {x: float(sampler.get(x)[i]) for x in names}
    L, R, D = [np.broadcast_to(np.asarray(v, float), (n,)) for v in vals[:3]]
    m = np.ones(n, bool)
    for (c, v), x in zip(conds, vals[3:]):
        m &= (np.broadcast_to(np.asarray(x), (n,)) == v)
    with np.errstate(all='ignore'):
        ok = m & np.isfinite(L) & np.isfinite(R)
    used = int(ok.sum())
    bad = ok & rel_bad(D, L, R, tol=tol)
    # most significant disagreements first
    with np.errstate(all='ignore'):
        w = np.where(bad, np.abs(D) / np.maximum(np.abs(L), np.abs(R)), 0)
        floor = 1e-15 * max((float(np.max(np.abs(v[ok]))) for v in (L, R)), default=0.0) if used else 0.0     # rounding noise of exactly cancelling terms
    tries = 0
    for i in np.argsort(-w):
        if not bad[i] or tries >= max_try:
            break
        tries += 1
        pt = get(i)
        l, r = E.evaluate_mp([lhs, rhs], pt)
        try:
            lf, rf = float(l), float(r)
        except (OverflowError, TypeError, ValueError):
            continue
        if not (np.isfinite(lf) and np.isfinite(rf)):
            continue
        if abs(lf - rf) <= tol * max(abs(lf), abs(rf)) or max(abs(lf), abs(rf)) < max(1e-25, floor):
            continue
        if check is None or check(pt, lf, rf):
            return (pt, lf, rf), used
    return None, used


def unsigned(conds):
    """Inputs of the conditions that are not signed quantities (precondition: they are positive)."""
    out = {}
    for x in E.topo([c for c, _ in conds]):
        if x.op == 'v' and not x.val.startswith('opt:') and not sample.MIXED_SIGN.search(sample.bare(x.val)):
            out[x.id] = x
    return list(out.values())


def cache_of(cache):
    """Condition sets known to be contradictory (per path)."""
    d = getattr(cache, 'dead_sets', None)
    if d is None:
        d = set()
        try:
            cache.dead_sets = d
        except AttributeError:
            pass
    return d


def close_consts(lhs, rhs, cs):
    """Both sides are the same constant up to the accuracy of decimal constants."""
    try:
        l, r = (eq_subst(x, cs) for x in E.subst([lhs, rhs], {}, {c.id: v for c, v in cs}))
    except ZeroDivisionError:
        return False
    return l.op == 'c' and r.op == 'c' and abs(l.val - r.val) <= RTOL * max(abs(l.val), abs(r.val))


def transition_points(e, conds, sampler, names, base=None, per=6):
    """Points at the centres of smoothed switches: arguments of sigmoids (and of exponentials) moved to values near zero along one
    input. Ordinary samples almost never hit them."""
    args = {x.args[0].id: x.args[0] for x in E.topo([e]) if x.op in ('sigm', 'dsigm', 'exp')}
    if not args:
        return None
    names = sorted(set(names) | E.variables([e] + [c for c, _ in conds]))
    if base is None:
        base = feas.find_points(conds, sampler, names=names)
    if not base:
        return None
    k = len(next(iter(base.values())))
    pts = [{n: float(base[n][i]) if n in base else float(np.asarray(sampler.get(n))[i % sampler.n]) for n in names} for i in range(min(k, per))]
    grid = np.concatenate([-np.logspace(6, -3, 40), [0.0], np.logspace(-3, 6, 200)])
    out = []
    for a in list(args.values())[:12]:
        vs = [v for v in sorted(E.variables([a])) if not v.startswith('opt:')]
        for p in pts:
            for v in vs[:8]:
                g = grid if p[v] < 0 or sampler_mixed(v) else grid[grid > 0]
                g = np.sort(np.concatenate([g, p[v] * np.linspace(0.2, 3, 60)]))

                def ev(x):
                    q = {n: np.full(len(x), y) for n, y in p.items()}
                    q[v] = x
                    with np.errstate(all='ignore'):
                        return np.broadcast_to(np.asarray(E.evaluate([a], q)[0], float), (len(x),))
                y = ev(g)
                with np.errstate(all='ignore'):
                    i = np.nonzero(np.isfinite(y[1:]) & np.isfinite(y[:-1]) & (np.sign(y[1:]) != np.sign(y[:-1])))[0]
                for j in i[:2]:
                    lo, hi, sl = g[j], g[j + 1], np.sign(y[j + 1])
                    for t in (-1.3, 0.4, 1.7):
                        l, h = lo, hi
                        for _ in range(60):
                            m = 0.5 * (l + h)
                            if (float(ev(np.array([m]))[0]) - t) * sl > 0:
                                h = m
                            else:
                                l = m
                        if lo < m < hi:
                            out.append({**p, v: m})
            if len(out) > 60:
                break
    if not out:
        return None
    return {n: np.array([q[n] for q in out]) for n in names}


def sampler_mixed(v):
    return bool(sample.MIXED_SIGN.search(sample.bare(v)))


def decide_eq(lhs, rhs, conds, sampler, cache, names=(), timeout=4.0, tol=1e-5, interior=True, check=None, max_leaves=96,
              deadline=None, use_smt=False):
    """Decide forall points with conds: lhs == rhs.
    Returns dict(status, point, leaves, proved_leaves, npts, why)."""
    e = eq_subst(E.sub(lhs, rhs), conds)
    if E.isc(e, 0.0):
        return dict(status=PROVED, how='syntactic', leaves=1)
    hit, used = refute_numeric(lhs, rhs, conds, sampler, names, tol, cache, check=check)
    if hit:
        return dict(status=REFUTED, point=hit[0], lhs=hit[1], rhs=hit[2])
    t0 = time.time()
    leaves = proved = 0
    why = []
    bounded_pts = used
    status = PROVED
    for le, cs in split(e, conds, max_leaves, interior):
        leaves += 1
        if le is None:
            status = BOUNDED if used else UNDECIDED
            why.append('too many cases')
            break
        if E.isc(le, 0.0):
            proved += 1
            continue
        if le.op == 'c' and close_consts(lhs, rhs, cs):
            proved += 1
            continue
        left = timeout - (time.time() - t0)
        if deadline is not None:
            left = min(left, deadline - time.time())
        r = prove_zero(le, timeout=max(0.05, min(left, timeout / 2))) if left > 0 else 'unknown:time'
        if r == 'proved':
            proved += 1
            continue
        if use_smt and left > 0.3 and smt.unsat(cs, ne=le, timeout=min(0.6, left)):
            proved += 1
            continue
        # try to refute inside this leaf
        new = cs[len(conds):]
        if new or used < 3:
            fk = frozenset((c.id, v) for c, v in cs)
            if fk in cache_of(cache) or smt.unsat(cs, timeout=0.15):
                cache_of(cache).add(fk)
                proved += 1
                continue
            pts = feas.find_points(cs, sampler, names=set(names) | E.variables([e])) if (deadline is None or time.time() < deadline) else None
            if pts is None:
                if smt.unsat(cs, timeout=max(0.2, min(1.5, left)), positive=unsigned(cs)):
                    cache_of(cache).add(fk)
                    proved += 1
                    continue
                status = UNDECIDED if status != BOUNDED else status
                why.append('no witness of case; ' + r)
                continue
            hit, u = refute_numeric(lhs, rhs, cs, sampler, names, tol, cache, extra_pts=pts, check=check)
            if hit:
                return dict(status=REFUTED, point=hit[0], lhs=hit[1], rhs=hit[2])
            bounded_pts += u
        if use_smt and left > 0.3 and smt.unsat(cs, ne=le, timeout=min(2.0, left)):
            proved += 1
            continue
        if deadline is None or time.time() < deadline:
            tp = transition_points(le, cs, sampler, names)
            if tp is not None:
                hit, u = refute_numeric(lhs, rhs, cs, sampler, names, tol, cache, extra_pts=tp, check=check)
                if hit:
                    return dict(status=REFUTED, point=hit[0], lhs=hit[1], rhs=hit[2])
                bounded_pts += u
        status = BOUNDED if status != UNDECIDED else status
        why.append(r)
    return dict(status=status, leaves=leaves, proved_leaves=proved, npts=bounded_pts, why=why[:3])
