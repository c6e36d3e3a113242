"""z3 back end: unsatisfiability of a conjunction of path conditions (with an optional negated goal) over the reals.

Transcendental sub-terms are abstracted by one fresh real constant per distinct term (plus sound sign facts), so an `unsat`
answer is a proof and anything else is not an answer."""
from fractions import Fraction
from . import expr as E
from .normal import Blowup, Normalizer

INTEGER = lambda x: False       # variables ranging over the integers (vc/data.py)
COUNT = dict(calls=0, unsat=0, time=0.0)


def _frac(x):
    return Fraction(f'{x:.12g}')


class Tr:
    def __init__(self):
        import z3
        self.z = z3
        self.memo = {}
        self.side = []
        self.canon = {}
        self.N = None

    def num(self, x):
        f = _frac(x)
        return self.z.RealVal(f'{f.numerator}/{f.denominator}')

    def real(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        for x in E.topo([n]):
            if x.id not in self.memo:
                self.memo[x.id] = self._one(x)
        return self.memo[n.id]

    def fresh(self, x):
        """One constant per distinct function application (arguments compared in normal form)."""
        if x.op in ('v', 'c'):
            return self.z.Real(f'n{x.id}')
        try:
            if self.N is None:
                self.N = Normalizer(max_terms=200, expand_mul=16)
            key = (x.op, x.val) + tuple(self.N.key_of(self.N.norm(a)) for a in x.args)
        except (Blowup, OverflowError, ZeroDivisionError, RecursionError):
            key = x.id
        return self.z.Real(f'n{self.canon.setdefault(key, x.id)}')

    def integer(self, x):
        """The term as a z3 integer term, or None."""
        k = ('int', x.id)
        if k not in self.memo:
            self.memo[k] = self._integer(x)
        return self.memo[k]

    def _integer(self, x):
        z = self.z
        if x.op == 'c':
            return z.IntVal(int(x.val)) if abs(x.val) < 1e15 and float(x.val) == int(x.val) else None
        if x.op == 'v':
            return z.Int(f'n{x.id}') if INTEGER(x) else None
        if x.op in ('add', 'mul'):
            g = [self.integer(y) for y in x.args]
            if any(y is None for y in g):
                return None
            return g[0] + g[1] if x.op == 'add' else g[0] * g[1]
        return None

    def inv(self, n, t):
        """1/t, unconstrained (but the same value) where t is zero"""
        if n.op == 'c' and n.val != 0:
            return self.num(1.0 / n.val)
        k = ('inv', n.id)
        if k not in self.memo:
            y = self.memo[k] = self.z.Real(f'i{n.id}')
            self.side.append(self.z.Implies(t != 0, y * t == 1))
        return self.memo[k]

    def _one(self, x):
        z, m, a, op = self.z, self.memo, x.args, x.op
        if op == 'c':
            if x.val != x.val or x.val in (float('inf'), float('-inf')):
                return self.fresh(x)
            return self.num(x.val)
        if op == 'v' and INTEGER(x):
            return z.ToReal(self.integer(x))
        if op in ('lt', 'eq'):
            i = [self.integer(y) for y in a]
            if i[0] is not None and i[1] is not None and any(y.op != 'c' for y in a):
                return i[0] < i[1] if op == 'lt' else i[0] == i[1]
        if op == 'v':
            return self.fresh(x)
        if op == 'true':
            return z.BoolVal(True)
        if op == 'false':
            return z.BoolVal(False)
        g = [m[y.id] for y in a]
        if op == 'add':
            return g[0] + g[1]
        if op == 'mul':
            return g[0] * g[1]
        if op == 'div':
            return g[0] * self.inv(a[1], g[1])
        if op == 'pow':
            if a[1].op == 'c':
                p = a[1].val
                if p == int(p) and 1 <= abs(p) <= 6:
                    t = g[0]
                    for _ in range(int(abs(p)) - 1):
                        t = t * g[0]
                    if p > 0:
                        return t
                    y = self.fresh(x)
                    self.side.append(z.Implies(t != 0, y * t == 1))
                    return y
                y = self.fresh(x)
                self.side.append(z.Implies(g[0] > 0, y > 0))
                if p == 0.5:
                    self.side.append(z.Implies(g[0] >= 0, z.And(y >= 0, y * y == g[0])))
                return y
            y = self.fresh(x)
            self.side.append(z.Implies(g[0] > 0, y > 0))
            return y
        if op == 'lt':
            return g[0] < g[1]
        if op == 'eq':
            return g[0] == g[1]
        if op == 'not':
            return z.Not(g[0])
        if op == 'and':
            return z.And(g[0], g[1])
        if op == 'ite':
            return z.If(g[0], g[1], g[2])
        y = self.fresh(x)
        if op == 'exp':
            self.side.append(y > 0)
        elif op == 'abs':
            self.side.append(y == z.If(g[0] < 0, -g[0], g[0]))
        elif op in ('sin', 'cos', 'tanh'):
            self.side += [y <= 1, y >= -1]
        elif op == 'floor':
            self.side += [y <= g[0], g[0] < y + 1]
        return y


def unsat(conds, ne=None, lt=None, positive=(), timeout=1.5):
    """True if  conds  [and ne != 0]  [and lt < 0]  has no solution over the reals."""
    import time
    import z3
    t0 = time.time()
    COUNT['calls'] += 1
    try:
        t = Tr()
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        fs = []
        for c, v in conds:
            b = t.real(c)
            fs.append(b if v else z3.Not(b))
        if ne is not None:
            fs.append(t.real(ne) != 0)
        if lt is not None:
            fs.append(t.real(lt) < 0)
        for p in positive:
            fs.append(t.real(p) > 0)
        s.add(*fs)
        s.add(*t.side)
        r = s.check() == z3.unsat
    except z3.Z3Exception:
        r = False
    COUNT['time'] += time.time() - t0
    COUNT['unsat'] += bool(r)
    return r
