"""Path exploration by decision-prefix replay.

A run of the real code is repeated with every feasible sequence of outcomes for (a) finite choices
(options with a finite domain) and (b) truth values of symbolic conditions used as Python booleans."""
from . import expr as E


class PathLimit(Exception):
    pass


class Dead(BaseException):
    """The path condition is contradictory: nothing runs this way."""


class Ctx:
    cur = None

    def __init__(self, prefix=(), feasible=None):
        self.prefix = list(prefix)
        self.trace = []        # [(key, chosen, alternatives, kind)]
        self.memo = {}         # cond id -> bool ; choice name -> value
        self.conds = []        # [(cond, bool)] decided atoms, in order
        self.choices = {}      # name -> value
        self.feasible = feasible
        self.limit = 400
        self.taken = 0

    def _take(self, key, alts, kind):
        i = len(self.trace)
        if i < len(self.prefix):
            k, v, kind = self.prefix[i]
            if k != key:
                raise PathLimit(f'replay diverged at {key}')
        else:
            v = alts[0]
        self.taken += kind != 'implied'
        if self.taken > self.limit:
            raise PathLimit(str(key))
        self.trace.append((key, v, [a for a in alts if a is not v and a != v] if i >= len(self.prefix) else [], kind))
        return v

    def choose(self, name, alts):
        if name in self.choices:
            return alts[self.choices[name]]
        idx = self._take(('choice', name), list(range(len(alts))), 'choice')
        self.choices[name] = idx
        return alts[idx]

    def assume(self, c):
        """Precondition: recorded in the path condition, never a decision point."""
        neg = False
        while c.op == 'not':
            c, neg = c.args[0], not neg
        if c.op in ('true', 'false') or c.id in self.memo:
            return
        if c.op == 'and' and not neg:
            self.assume(c.args[0])
            self.assume(c.args[1])
            return
        self.memo[c.id] = not neg
        self.conds.append((c, not neg))

    def decide_atom(self, c):
        if c.id in self.memo:
            return self.memo[c.id]
        alts = [True, False]
        if len(self.trace) >= len(self.prefix):
            if self.feasible is not None:
                alts = self.feasible(self, c)
                if not alts:
                    raise Dead
        # an outcome implied by the path condition is recorded, without alternatives, so that replays stay aligned
        v = self._take(('cond', c.id), alts, 'cond' if len(alts) > 1 else 'implied')
        self.memo[c.id] = v
        self.conds.append((c, v))
        return v


def decide(c):
    op = c.op
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'not':
        return not decide(c.args[0])
    if op == 'and':
        return decide(c.args[0]) and decide(c.args[1])
    if Ctx.cur is None:
        raise E.Unsupported('symbolic condition outside exploration: ' + repr(c))
    return Ctx.cur.decide_atom(c)


def explore(run, max_paths=64, feasible=None, deadline=None):
    """Run `run(ctx)` on every path; yields (ctx, result or exception). Sets .complete on exhaustion."""
    import time
    stack = [[]]
    n = 0
    out = []
    complete = True
    while stack:
        if n >= max_paths or (deadline and time.time() > deadline):
            complete = False
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, feasible)
        old, Ctx.cur = Ctx.cur, ctx
        try:
            try:
                res = run(ctx)
            except (E.NeedConcrete, PathLimit, KeyboardInterrupt, MemoryError):
                raise
            except Dead as e:
                res = e
            except Exception as e:      # noqa: BLE001 - the outcome of the code under analysis
                res = e
        finally:
            Ctx.cur = old
        n += 1
        if not isinstance(res, Dead):
            out.append((ctx, res))
        vals = [(t[0], t[1], t[3]) for t in ctx.trace]
        for i in range(len(prefix), len(ctx.trace)):
            for alt in ctx.trace[i][2]:
                stack.append(vals[:i] + [(ctx.trace[i][0], alt, ctx.trace[i][3])])
    return out, complete
