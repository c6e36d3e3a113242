"""Normal form for real expressions and a zero test: the deductive back end for equational obligations.

A term is a generalised polynomial: a map from monomials (products of atoms with real exponents) to
float coefficients.  Atoms are variables, sums raised to non-natural powers, and applications of
elementary or uninterpreted functions to normal forms.  Identities used: field and power laws on the
positive orthant (bases of non-integer powers and arguments of logarithms positive), exp/log laws,
sin^2+cos^2=1, cosh^2-sinh^2=1, tan=sin/cos, and inverses.  Coefficients agree up to RTOL of the
magnitudes that were summed (decimal constants in the code are compared to that relative accuracy)."""
import math
import time
from . import expr as E

RTOL = 2e-8
ATOL_EXP = 1e-9


class Blowup(Exception):
    pass


def rs(x, digits=9):
    """round to significant digits for atom keys"""
    if x == 0:
        return 0.0
    return float(f'%.{digits - 1}e' % x)


def rexp(e):
    r = round(e, 9)
    n = round(r)
    if abs(r - n) < ATOL_EXP:
        return float(n)
    return r


class Atom:
    __slots__ = ('id', 'kind', 'key', 'poly', 'pos', 'depth')


class Normalizer:
    def __init__(self, max_terms=4000, deadline=None, expand_mul=64):
        self.atoms = []
        self.index = {}
        self.memo = {}
        self.max_terms = max_terms
        self.deadline = deadline
        self.expand_mul = expand_mul
        self.opaque = {}
        self.steps = 0

    def _tick(self, n=1):
        self.steps += n
        if self.deadline and time.time() > self.deadline:
            raise Blowup('time')

    # ---------------- atoms
    def atom(self, kind, key, poly=None, depth=0):
        k = (kind, key)
        a = self.index.get(k)
        if a is None:
            a = Atom()
            a.id, a.kind, a.key, a.poly = len(self.atoms), kind, key, poly
            self.atoms.append(a)
            self.index[k] = a
        return a

    # ---------------- polys: dict mono -> [val, mag]; mono = tuple((atomid, exp)) sorted
    @staticmethod
    def c(v):
        return {(): (v, abs(v))} if v != 0 else {}

    @staticmethod
    def mono(aid, e=1.0):
        return {((aid, e),): (1.0, 1.0)}

    def padd(self, p, q, s=1.0):
        r = dict(p)
        for m, (v, g) in q.items():
            if m in r:
                v0, g0 = r[m]
                r[m] = (v0 + s * v, g0 + g)
            else:
                r[m] = (s * v, g)
        return self.clean(r)

    def clean(self, r):
        dead = [m for m, (v, g) in r.items() if abs(v) <= RTOL * g]
        for m in dead:
            del r[m]
        if len(r) > self.max_terms:
            raise Blowup('terms')
        return r

    @staticmethod
    def mmul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            t = rexp(d.get(a, 0.0) + e)
            if t == 0:
                d.pop(a, None)
            else:
                d[a] = t
        return tuple(sorted(d.items()))

    def pmul_expand(self, p, q):
        self._tick(len(p) * len(q))
        if len(p) * len(q) > 40 * self.max_terms:
            raise Blowup('mul')
        r = {}
        mm = self.mmul
        for m1, (v1, g1) in p.items():
            for m2, (v2, g2) in q.items():
                m = mm(m1, m2)
                v, g = v1 * v2, g1 * g2
                o = r.get(m)
                r[m] = (v, g) if o is None else (o[0] + v, o[1] + g)
        return self.clean(r)

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > 1 and len(q) > 1 and len(p) * len(q) > self.expand_mul:
            # keep factored
            if len(p) >= len(q):
                p = self.as_atom_power(p, 1.0)
            else:
                q = self.as_atom_power(q, 1.0)
        return self.pmul_expand(p, q)

    def primitive(self, p):
        """p = coef * mono * s with s primitive (gcd monomial removed, leading |coef| = 1).
        Returns (coef, mono, s) with coef > 0 (the sign stays in s)."""
        items = list(p.items())
        # gcd monomial: smallest exponent of every atom (0 where it is absent): common factors and common denominators
        common = dict(items[0][0])
        for m, _ in items[1:]:
            d = dict(m)
            for a in list(common):
                if a not in d:
                    if common[a] > 0:
                        del common[a]
                else:
                    common[a] = min(common[a], d[a])
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
        common = {a: e for a, e in common.items() if e}
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        s = {self.mmul(m, inv): vg for m, vg in items}
        lead = max(s)      # deterministic choice
        c = abs(s[lead][0])
        s = {m: (v / c, g / c) for m, (v, g) in s.items()}
        return c, tuple(sorted(common.items())), s

    def key_of(self, s):
        return tuple(sorted((m, rs(v)) for m, (v, g) in s.items()))

    def as_atom_power(self, p, e):
        """p ** e as a single monomial, p having more than one term."""
        c, m, s = self.primitive(p)
        lead = max(s)
        sign = 1.0
        if rexp(e) == int(rexp(e)) and s[lead][0] < 0:
            s = {k: (-v, g) for k, (v, g) in s.items()}
            sign = -1.0 if int(rexp(e)) % 2 else 1.0
        a = self.atom('sum', self.key_of(s), s)
        mm = tuple(sorted((x, rexp(y * e)) for x, y in m))
        mm = self.mmul(mm, ((a.id, rexp(e)),))
        v = sign * c ** e
        return {mm: (v, abs(v))}

    def ppow(self, p, e):
        e = rexp(e)
        if e == 0:
            return self.c(1.0)
        if e == 1:
            return p
        if not p:
            if e < 0:
                raise Blowup('0**negative')
            return {}
        if len(p) == 1:
            (m, (v, g)), = p.items()
            if v < 0 and e != int(e):
                a = self.atom('sum', self.key_of({m: (v, g)}), {m: (v, g)})
                return self.mono(a.id, e)
            try:
                nv = v ** e
            except OverflowError:
                raise Blowup('overflow')
            return {tuple(sorted((a, rexp(x * e)) for a, x in m)): (nv, abs(nv))}
        if e == int(e) and 0 < e <= 3 and len(p) ** e <= self.expand_mul:
            r = p
            for _ in range(int(e) - 1):
                r = self.pmul_expand(r, p)
            return r
        return self.as_atom_power(p, e)

    # ---------------- conversion
    def norm(self, root):
        for n in E.topo([root]):
            if n.id in self.memo:
                continue
            if isinstance(n, E.Cond):
                self.memo[n.id] = None
                continue
            self._tick()
            self.memo[n.id] = self._conv(n)
        return self.memo[root.id]

    def _conv(self, n):
        op, a = n.op, n.args
        if n.id in self.opaque:
            return self.mono(self.atom('opaque', n.id).id)
        g = lambda i: self.memo[a[i].id]
        if op == 'c':
            if not math.isfinite(n.val):
                raise Blowup('nonfinite constant')
            return self.c(n.val)
        if op == 'v':
            return self.mono(self.atom('var', n.val).id)
        if op == 'add':
            return self.padd(g(0), g(1))
        if op == 'mul':
            return self.pmul(g(0), g(1))
        if op == 'div':
            return self.pmul(g(0), self.ppow(g(1), -1.0))
        if op == 'pow':
            q = g(1)
            if not q:
                return self.c(1.0)
            if len(q) == 1 and () in q:
                return self.ppow(g(0), q[()][0])
            return self.fexp(self.pmul(q, self.flog(g(0))))
        if op == 'ite':
            raise Blowup('unresolved ite')
        if op == 'exp':
            return self.fexp(g(0))
        if op == 'log':
            return self.flog(g(0))
        if op == 'sin':
            return self.trig('sin', g(0))
        if op == 'cos':
            return self.trig('cos', g(0))
        if op == 'tan':
            return self.pmul(self.trig('sin', g(0)), self.ppow(self.trig('cos', g(0)), -1.0))
        if op in ('tanh',):
            return self.pmul(self.hyp('sinh', g(0)), self.ppow(self.hyp('cosh', g(0)), -1.0))
        if op in ('sinh', 'cosh'):
            return self.hyp(op, g(0))
        if op == 'arctan2':
            return self.mono(self.atom('f', ('arctan2', self.key_of(g(0)), self.key_of(g(1)))).id)
        if op == 'uf':
            return self.mono(self.atom('f', ('uf', n.val) + tuple(self.key_of(self.memo[x.id]) for x in a)).id)
        if op in ('sigm', 'dsigm'):        # S(-t) = 1 - S(t), S' even
            p = g(0)
            flip = bool(p) and p[max(p)][0] < 0
            if flip:
                p = {m: (-v, w) for m, (v, w) in p.items()}
            r = self.mono(self.atom('f', (op, self.key_of(p)), p).id)
            return self.padd(self.c(1.0), r, -1.0) if flip and op == 'sigm' else r
        # odd functions
        if op in ('arcsin', 'arctan', 'arcsinh'):
            p = g(0)
            s = 1.0
            if p and p[max(p)][0] < 0:
                p = {m: (-v, w) for m, (v, w) in p.items()}
                s = -1.0
            at = self.atom('f', (op, self.key_of(p)), p)
            return {((at.id, 1.0),): (s, 1.0)}
        at = self.atom('f', (op, self.key_of(g(0))), g(0))
        return self.mono(at.id)

    def fexp(self, p):
        r = self.c(1.0)
        if len(p) > 8:
            c, m, s = self.primitive(p)
            a = self.atom('sum', self.key_of(s), s)
            mm = self.mmul(m, ((a.id, 1.0),))
            at = self.atom('f', ('exp', mm))
            return self.mono(at.id, rexp(c))
        for m, (v, g) in p.items():
            if m == ():
                try:
                    ev = math.exp(v)
                except OverflowError:
                    ev = 0
                if ev == 0:         # not a float: a power of e
                    r = self.pmul_expand(r, self.mono(self.atom('f', ('e',)).id, rexp(v)))
                    continue
                r = self.pmul_expand(r, self.c(ev))
                continue
            # v * log(x) -> x**v
            if len(m) == 1 and m[0][1] == 1.0 and self.atoms[m[0][0]].kind == 'log':
                at = self.atoms[m[0][0]]
                r = self.pmul_expand(r, self.mono(at.key, rexp(v)))
                continue
            at = self.atom('f', ('exp', m))
            r = self.pmul_expand(r, self.mono(at.id, rexp(v)))
        return r

    def flog(self, p):
        if not p:
            raise Blowup('log 0')
        if len(p) > 1:
            p = self.as_atom_power(p, 1.0)
        (m, (v, g)), = p.items()
        if v <= 0:
            at = self.atom('f', ('log', self.key_of(p)))
            return self.mono(at.id)
        r = self.c(math.log(v)) if v != 1.0 else {}
        for a, e in m:
            A = self.atoms[a]
            if A.kind == 'f' and A.key[0] == 'exp':
                r = self.padd(r, {A.key[1]: (e, abs(e))})
                continue
            at = self.atom('log', a)
            r = self.padd(r, {((at.id, 1.0),): (e, abs(e))})
        return r

    def trig(self, f, p):
        if not p:
            return self.c(0.0 if f == 'sin' else 1.0)
        s = 1.0
        if p[max(p)][0] < 0:
            p = {m: (-v, g) for m, (v, g) in p.items()}
            if f == 'sin':
                s = -1.0
        if len(p) == 1 and () in p:
            v = getattr(math, f)(p[()][0]) * s
            return self.c(v)
        if len(p) == 1:
            (m, (v, g)), = p.items()
            if v == 2.0:        # double angle
                h = {m: (1.0, 1.0)}
                sn, cs = self.trig('sin', h), self.trig('cos', h)
                r = self.pmul_expand(self.c(2.0 * s), self.pmul(sn, cs)) if f == 'sin' else self.padd(self.c(1.0), self.pmul_expand(self.c(2.0), self.pmul(sn, sn)), -1.0)
                return r
            if len(m) == 1 and m[0][1] == 1.0 and abs(v - 1) < 1e-12:
                A = self.atoms[m[0][0]]
                if A.kind == 'f' and A.poly is not None:
                    q = A.poly
                    if A.key[0] == 'arcsin':
                        r = q if f == 'sin' else self.ppow(self.padd(self.c(1.0), self.pmul(q, q), -1.0), 0.5)
                        return {k: (s * a, b) for k, (a, b) in r.items()}
                    if A.key[0] == 'arccos':
                        r = q if f == 'cos' else self.ppow(self.padd(self.c(1.0), self.pmul(q, q), -1.0), 0.5)
                        return {k: (s * a, b) for k, (a, b) in r.items()}
                    if A.key[0] == 'arctan':
                        h = self.ppow(self.padd(self.c(1.0), self.pmul(q, q)), -0.5)
                        r = self.pmul(q, h) if f == 'sin' else h
                        return {k: (s * a, b) for k, (a, b) in r.items()}
        at = self.atom('f', (f, self.key_of(p)), p)
        return {((at.id, 1.0),): (s, 1.0)}

    def hyp(self, f, p):
        if not p:
            return self.c(0.0 if f == 'sinh' else 1.0)
        s = 1.0
        if p[max(p)][0] < 0:
            p = {m: (-v, g) for m, (v, g) in p.items()}
            if f == 'sinh':
                s = -1.0
        if len(p) == 1 and () in p:
            return self.c(s * getattr(math, f)(p[()][0]))
        at = self.atom('f', (f, self.key_of(p)), p)
        return {((at.id, 1.0),): (s, 1.0)}

    # ---------------- zero test
    def is_zero(self, p, depth=0):
        self._tick(len(p))
        if not p:
            return True
        if depth > 200:
            raise Blowup('depth')
        # highest-numbered reducible atom present
        best = None
        present = set()
        for m in p:
            for a, e in m:
                present.add(a)
        for a in sorted(present, reverse=True):
            A = self.atoms[a]
            if A.kind == 'sum' or (A.kind == 'f' and A.key[0] in ('cos', 'cosh')):
                if A.kind == 'f':
                    other = ('sin' if A.key[0] == 'cos' else 'sinh')
                    o = self.index.get(('f', (other, A.key[1])))
                    if o is None or not any(abs(e) >= 2 or e < 0 for m in p for x, e in m if x == a):
                        continue
                best = A
                break
        if best is None:
            return False
        A = best
        classes = {}
        for m, vg in p.items():
            e = 0.0
            rest = []
            for x, y in m:
                if x == A.id:
                    e = y
                else:
                    rest.append((x, y))
            fr = round(e - math.floor(e), 8) % 1.0
            classes.setdefault(fr, []).append((e, tuple(rest), vg))
        for fr, items in classes.items():
            lo = min(e for e, _, _ in items)
            byk = {}
            for e, rest, vg in items:
                k = int(round(e - lo))
                byk.setdefault(k, {})[rest] = vg
            if A.kind == 'sum':
                base = A.poly
                acc = {}
                # Horner
                for k in range(max(byk), -1, -1):
                    if acc:
                        acc = self.pmul_expand(acc, base)
                    if k in byk:
                        acc = self.padd(acc, byk[k])
                if max(byk) == 0:
                    acc = byk[0]
                if not self.is_zero(self.clean(dict(acc)), depth + 1):
                    return False
            else:
                o = self.index[('f', ('sin' if A.key[0] == 'cos' else 'sinh', A.key[1]))]
                sgn = -1.0 if A.key[0] == 'cos' else 1.0
                sq = {(): (1.0, 1.0), ((o.id, 2.0),): (sgn, 1.0)}
                even, odd = {}, {}
                for k in sorted(byk):
                    q = byk[k]
                    for _ in range(k // 2):
                        q = self.pmul_expand(q, sq)
                    if k % 2:
                        odd = self.padd(odd, q)
                    else:
                        even = self.padd(even, q)
                if not self.is_zero(even, depth + 1) or not self.is_zero(odd, depth + 1):
                    return False
        return True


def prove_zero(node, timeout=5.0, opaque=(), max_terms=4000):
    """'proved' | 'unknown:<reason>'"""
    if E.isc(node, 0.0):
        return 'proved'
    last = 'nonzero'
    t0 = time.time()
    for em in (64, 4, 2000):
        N = Normalizer(deadline=t0 + timeout, expand_mul=em, max_terms=max_terms)
        N.opaque = {i: 1 for i in opaque}
        try:
            if N.is_zero(N.norm(node)):
                return 'proved'
            return 'unknown:not zero in normal form'
        except Blowup as e:
            last = str(e)
        except (OverflowError, ZeroDivisionError, RecursionError) as e:
            last = repr(e)
        if time.time() - t0 > timeout:
            break
    return 'unknown:' + last


def prove_eq(a, b, **k):
    return prove_zero(E.sub(a, b), **k)
