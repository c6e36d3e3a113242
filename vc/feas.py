"""Feasibility of decisions (by witness points and by simple bound reasoning) and witness search."""
import numpy as np
from . import expr as E
from . import sample


class EvalCache:
    """Incremental vectorised evaluation over one sampler."""

    def __init__(self, sampler):
        self.s = sampler
        self.memo = {}

    def ev(self, node):
        if node.id in self.memo:
            return self.memo[node.id]
        order = [x for x in E.topo([node])]
        with np.errstate(all='ignore'):
            for x in order:
                if x.id not in self.memo:
                    self.memo[x.id] = self._one(x)
        return self.memo[node.id]

    def _one(self, x):
        m, a, op = self.memo, x.args, x.op
        if op == 'c':
            return x.val
        if op == 'v':
            return self.s.get(x.val)
        g = [m[y.id] for y in a]
        if op == 'add':
            return g[0] + g[1]
        if op == 'mul':
            return g[0] * g[1]
        if op == 'div':
            return np.divide(g[0], g[1])
        if op == 'pow':
            return np.power(np.asarray(g[0], float), np.asarray(g[1], float))
        if op == 'ite':
            return np.where(g[0], g[1], g[2])
        if op == 'lt':
            return np.less(g[0], g[1])
        if op == 'eq':
            return np.equal(g[0], g[1])
        if op == 'not':
            return np.logical_not(g[0])
        if op == 'and':
            return np.logical_and(*g)
        if op in ('true', 'false'):
            return op == 'true'
        if op == 'arctan2':
            return np.arctan2(*g)
        if op == 'uf':
            return E.uf_eval(E.UF[x.val][0], g)
        return E._NPF[op](g[0])


def _lin1(n):
    """(core, scale, offset) with n == scale*core + offset, core without constant affine wrapper."""
    s, o = 1.0, 0.0
    while True:
        if n.op == 'mul' and n.args[0].op == 'c':
            s, n = s * n.args[0].val, n.args[1]
        elif n.op == 'add' and n.args[0].op == 'c':
            o, n = o + s * n.args[0].val, n.args[1]
        elif n.op == 'add' and n.args[1].op == 'c':
            o, n = o + s * n.args[1].val, n.args[0]
        else:
            return n, s, o


def bounds_of(conds):
    """{core id: (lo, lo_strict, hi, hi_strict, set(ne))} from decided atoms against constants"""
    B = {}
    for c, v in conds:
        r = _bound(c, v)
        if r is None:
            continue
        k, kind, x, strict = r
        b = B.setdefault(k, [-np.inf, False, np.inf, False, set()])
        if kind == 'lo' and (x > b[0] or (x == b[0] and strict)):
            b[0], b[1] = x, strict
        elif kind == 'hi' and (x < b[2] or (x == b[2] and strict)):
            b[2], b[3] = x, strict
        elif kind == 'eq':
            if x > b[0]:
                b[0], b[1] = x, False
            if x < b[2]:
                b[2], b[3] = x, False
        elif kind == 'ne':
            b[4].add(x)
    return B


def _bound(c, v):
    if c.op not in ('lt', 'eq'):
        return None
    a, b = c.args
    if b.op == 'c':
        core, s, o = _lin1(a)
        rhs, flip = b.val, False
    elif a.op == 'c':
        core, s, o = _lin1(b)
        rhs, flip = a.val, True
    else:
        d = None
        return None
    if s == 0 or core.op == 'c':
        return None
    x = (rhs - o) / s
    if c.op == 'eq':
        return core.id, ('eq' if v else 'ne'), x, False
    # a < b : core*s+o < rhs (not flip) or rhs < core*s+o (flip)
    upper = (not flip) == (s > 0)      # True: core < x
    if v:
        return core.id, ('hi' if upper else 'lo'), x, True
    return core.id, ('lo' if upper else 'hi'), x, False


def implied(conds, c):
    """True/False if the atom is decided by constant bounds of the path, else None."""
    for v in (True, False):
        B = bounds_of(list(conds) + [(c, v)])
        r = _bound(c, v)
        if r is None:
            return None
        b = B[r[0]]
        if b[0] > b[2] or (b[0] == b[2] and (b[1] or b[3] or b[0] in b[4])):
            return not v
    return None


def contradictory(conds):
    for b in bounds_of(conds).values():
        if b[0] > b[2] or (b[0] == b[2] and (b[1] or b[3] or b[0] in b[4])):
            return True
    d = {}
    for c, v in conds:
        if d.setdefault(c.id, v) != v:
            return True
    return False


class Feasibility:
    def __init__(self, sampler):
        self.s = sampler
        self.cache = EvalCache(sampler)

    def mask(self, conds):
        m = np.ones(self.s.n, bool)
        for c, v in conds:
            r = np.broadcast_to(np.asarray(self.cache.ev(c)), (self.s.n,))
            m = m & (r == v)
        return m

    def __call__(self, ctx, c):
        v = implied(ctx.conds, c)
        if v is not None:
            return [v]
        m = self.mask(ctx.conds)
        r = np.broadcast_to(np.asarray(self.cache.ev(c)), (self.s.n,))
        nt, nf = int((m & r).sum()), int((m & ~r).sum())
        if c.op == 'eq' and nt == 0:
            # equality of real expressions
            return [False, True]
        return [True, False] if nt >= nf else [False, True]


def find_points(conds, sampler, need=8, rounds=60, seed=0, names=None):
    """Witness points for a conjunction of decided conditions: {var: array} or None."""
    names = sorted(set(names or ()) | E.variables([c for c, _ in conds]))
    if not names:
        return {}
    env = {k: np.array(sampler.get(k), float).copy() for k in names}
    n = sampler.n
    roots = [c for c, _ in conds]
    want = np.array([v for _, v in conds])
    wcol = want.astype(bool)[:, None] if len(want) else want

    def score(e, k):
        if not roots:
            return np.ones((0, k), bool)
        vals = E.evaluate(roots, e, order=order)
        r = np.empty((len(vals), k), bool)
        for q, x in enumerate(vals):
            r[q] = x
        return r == wcol
    order = E.topo(roots) if roots else []
    sc = score(env, n)
    ok = sc.all(axis=0) if len(roots) else np.ones(n, bool)
    if ok.sum() >= need or not roots:
        return {k: v[ok] for k, v in env.items()}
    good = [{k: float(v[i]) for k, v in env.items()} for i in np.nonzero(ok)[0]]
    r = np.random.default_rng(seed + 17)
    idx = np.argsort(-sc.sum(axis=0))[:12]
    cvars = [sorted(E.variables([c])) for c in roots]
    consts = sorted({x.val for x in order if isinstance(x, E.Node) and x.op == 'c' and np.isfinite(x.val)})
    for i in idx:
        pt = {k: float(v[i]) for k, v in env.items()}
        for _ in range(rounds):
            s = score({k: np.array([v]) for k, v in pt.items()}, 1)[:, 0]
            bad = np.nonzero(~s)[0]
            if len(bad) == 0:
                good.append(dict(pt))
                break
            b = r.choice(bad)
            cv = cvars[b]
            if not cv:
                break
            v = cv[r.integers(len(cv))]
            x = pt[v]
            ext = [c * f for c in consts[:60] for f in (1.0, 1.001, 0.999) if c >= 0 or sample.MIXED_SIGN.search(sample.bare(v))]
            cand = np.concatenate([x * np.exp(r.normal(0, 2, 24)), x * (1 + r.normal(0, .1, 12)), *( [-x * r.random(3), r.normal(0, 1, 6)] if sample.MIXED_SIGN.search(sample.bare(v)) else []), np.exp(r.uniform(-7, 12, 24)), np.array(ext, float), [0.0, 1.0, 2.0, 3.0]])
            if v in sampler.optvars and sampler.optvars[v][0] in ('int', 'count'):
                cand = np.unique(np.abs(np.round(cand)))
                cand = np.unique(np.concatenate([cand, cand + 1, np.abs(cand - 1), np.arange(12.)]))
            e = {k: np.full(len(cand), y) for k, y in pt.items()}
            e[v] = cand
            t = score(e, len(cand)).sum(axis=0) + 0.01 * r.random(len(cand))
            j = int(np.argmax(t))
            if t[j] < s.sum():
                continue
            pt[v] = float(cand[j])
        if len(good) >= need:
            break
    if not good:
        return None
    # jitter around found points
    out = list(good)
    for g in good[:4]:
        for _ in range(6):
            q = {k: (v * (1 + 0.02 * r.normal()) if not (k in sampler.optvars and sampler.optvars[k][0] in ('int', 'count')) else v) for k, v in g.items()}
            s = score({k: np.array([v]) for k, v in q.items()}, 1)
            if s.all():
                out.append(q)
    return {k: np.array([g[k] for g in out]) for k in names}


class Intervals:
    """Interval evaluation of terms under the bounds a path condition puts on its variables (linear sums are cancelled first)."""
    INF = float('inf')

    def __init__(self, conds):
        self.B = bounds_of(conds)
        self.memo, self.lmemo, self.known = {}, {}, {c.id: v for c, v in conds}

    def linear(self, n):
        """({atom id: (atom, coefficient)}, constant)"""
        r = self.lmemo.get(n.id)
        if r is not None:
            return r
        op, a = n.op, n.args
        if op == 'c':
            r = ({}, n.val)
        elif op == 'add':
            (p, x), (q, y) = self.linear(a[0]), self.linear(a[1])
            d = dict(p)
            for k, (t, c) in q.items():
                s = d[k][1] + c if k in d else c
                if s == 0:
                    d.pop(k, None)
                else:
                    d[k] = (t, s)
            r = (d, x + y)
        elif op == 'mul' and 'c' in (a[0].op, a[1].op):
            k, m = (a[0].val, a[1]) if a[0].op == 'c' else (a[1].val, a[0])
            p, x = self.linear(m)
            r = ({i: (t, c * k) for i, (t, c) in p.items()}, x * k) if k else ({}, 0.0)
        else:
            r = ({n.id: (n, 1.0)}, 0.0)
        self.lmemo[n.id] = r
        return r

    def __call__(self, n):
        r = self.memo.get(n.id)
        if r is None:
            p, x = self.linear(n)
            lo = hi = x
            for t, c in p.values():
                u, v = self.atom(t)
                lo += c * u if c > 0 else c * v
                hi += c * v if c > 0 else c * u
            if lo != lo:
                lo = -self.INF
            if hi != hi:
                hi = self.INF
            b = self.B.get(n.id)
            if b is not None:
                lo, hi = max(lo, b[0]), min(hi, b[2])
            r = self.memo[n.id] = (lo, hi)
        return r

    def atom(self, n):
        r = self._atom(n)
        b = self.B.get(n.id)
        return r if b is None else (max(r[0], b[0]), min(r[1], b[2]))

    def _atom(self, n):
        op, a, inf = n.op, n.args, self.INF
        if op == 'mul' or op == 'div':
            u, v = self(a[0]), self(a[1])
            if op == 'div':
                if v[0] <= 0 <= v[1]:
                    return (-inf, inf)
                v = (1 / v[1], 1 / v[0])
            if a[0] is a[1] and op == 'mul':
                m = max(abs(u[0]), abs(u[1]))
                return (0.0, m * m)
            ps = [0.0 if 0 in (x, y) else x * y for x in u for y in v]
            return (min(ps), max(ps))
        if op == 'abs':
            u = self(a[0])
            return (0.0 if u[0] <= 0 <= u[1] else min(abs(u[0]), abs(u[1])), max(abs(u[0]), abs(u[1])))
        if op == 'ite':
            d = self.decide(a[0])
            if d is not None:
                return self(a[1] if d else a[2])
            u, v = self(a[1]), self(a[2])
            if a[0].op == 'lt' and a[0].args[1].op == 'c' and a[0].args[1].val == 0:   # |x| written as a choice
                x = a[0].args[0]
                lx, l1, l2 = self.linear(x), self.linear(a[1]), self.linear(a[2])
                neg = ({k: (t, -c) for k, (t, c) in lx[0].items()}, -lx[1])
                same = lambda p, q: p[1] == q[1] and {k: c for k, (_, c) in p[0].items()} == {k: c for k, (_, c) in q[0].items()}
                if same(l2, lx) and same(l1, neg):
                    w = self(x)
                    return (0.0 if w[0] <= 0 <= w[1] else min(abs(w[0]), abs(w[1])), max(abs(w[0]), abs(w[1])))
            return (min(u[0], v[0]), max(u[1], v[1]))
        return (-inf, inf)

    def decide(self, c):
        """True / False if the bounds settle the condition, else None."""
        if c.op in ('true', 'false'):
            return c.op == 'true'
        if c.id in self.known:
            return self.known[c.id]
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == 'and':
            r = [self.decide(x) for x in c.args]
            return False if False in r else True if r == [True, True] else None
        if c.op not in ('lt', 'eq'):
            return None
        a, b = c.args
        if a.op == 'div' and b.op == 'div' and a.args[1] is b.args[1]:
            d = self(a.args[1])
            if d[0] > 0:
                a, b = a.args[0], b.args[0]
            elif d[1] < 0:
                a, b = b.args[0], a.args[0]
        lo, hi = self(E.sub(a, b))
        if c.op == 'lt':
            return True if hi < 0 else False if lo >= 0 else None
        return False if lo > 0 or hi < 0 else True if lo == hi == 0 else None


def relevant(conds, c):
    """The conditions connected to c by shared variables."""
    vs = set(E.variables([c]))
    rest = [(x, set(E.variables([x[0]]))) for x in conds]
    out = []
    while True:
        hit = [r for r in rest if r[1] & vs]
        if not hit:
            return out
        out += [r[0] for r in hit]
        for r in hit:
            vs |= r[1]
        rest = [r for r in rest if not any(r is h for h in hit)]
