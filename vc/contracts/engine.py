"""C16: what EngineDeck makes of a table of engine data, for every table on the grids enumerated here.

A deck is given in memory; mach numbers, altitudes, throttles and all outputs are symbolic. The oracle below restates the documented
processing (sorting, normalisation of throttles, flight idle, reference thrust) from the description of a grid, not from the code."""
import itertools
import numpy as np
import aviary.subsystems.propulsion.engine_deck as ed
from aviary.subsystems.propulsion.utils import EngineModelVariables as V
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.enums import Verbosity
from aviary.variable_info.variables import Aircraft, Settings
from .. import expr as E
from ..data import freeze
from ..expr import Node
from .values import conv

Eng = Aircraft.Engine
DEF = ed.default_units
NAME = {V.MACH: 'mach', V.ALTITUDE: 'altitude', V.THROTTLE: 'throttle', V.HYBRID_THROTTLE: 'hybrid_throttle', V.THRUST: 'thrust', V.FUEL_FLOW: 'fuel_flow',
        V.NOX_RATE: 'nox', V.SHAFT_POWER: 'shp', V.SHAFT_POWER_CORRECTED: 'shpcor', V.GROSS_THRUST: 'gross_thrust', V.RAM_DRAG: 'ram_drag',
        V.TAILPIPE_THRUST: 'tailpipe_thrust', V.TEMPERATURE_T4: 't4', V.ELECTRIC_POWER_IN: 'electric_power', V.RPM: 'rpm'}


def ranges(M, x, lo=None, hi=None):
    if lo is not None:
        M.assume(x >= lo)
    if hi is not None:
        M.assume(x <= hi)
    return x


def rising(M, tag, n, start, step, jump):
    """n values, each at least `step` above the one before."""
    out = [ranges(M, M.f(f'{tag}0', start, start + jump), start, start + jump)]
    for k in range(1, n):
        out.append(out[-1] + step + ranges(M, M.f(f'{tag}{k}', 0, jump), 0, jump))
    return out


class Grid:
    """counts: {(mach index, altitude index): number of throttle points}; rows come in ascending (mach, altitude, throttle)."""
    def __init__(self, M, counts, outputs, mono=(), extreme=None):
        nm, na = 1 + max(k[0] for k in counts), 1 + max(k[1] for k in counts)
        self.mach, self.alt = rising(M, 'mach', nm, 0, 0.05, 0.3), rising(M, 'alt', na, 0, 100, 9000)
        self.conds = sorted(counts)
        self.rows = {}
        for c in self.conds:
            n = counts[c]
            t = f'{c[0]}{c[1]}_'
            th = rising(M, 't' + t, n, 10, 1, 20)
            if extreme:     # the lowest and the highest throttle of the deck belong to the flight conditions given
                first = ranges(M, M.f('tfirst', 0, 20), 0, 20)
                th = [first + x for x in th]
                if c == extreme[0]:
                    th[0] = self.lo = first
                if c == extreme[1]:
                    th[-1] = self.hi = first + 200 + ranges(M, M.f('tlast', 0, 20), 0, 20)
            col = {V.MACH: [self.mach[c[0]]] * n, V.ALTITUDE: [self.alt[c[1]]] * n, V.THROTTLE: th}
            for o in outputs:
                col[o] = rising(M, f'{o.name}{t}', n, 100, 10, 1000) if o in mono else [M.f(f'{o.name}{t}{k}', 1, 1000) for k in range(n)]
            self.rows[c] = col

    def column(self, key):
        return [x for c in self.conds for x in self.rows[c][key]]

    def sorted_conds(self, sort):
        return self.conds if sort == 'mach' else sorted(self.conds, key=lambda c: (c[1], c[0]))


def options(sort='mach', **kw):
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, Verbosity.QUIET)
    o.set_val(Eng.INTERPOLATION_SORT, sort)
    o.set_val(Eng.GENERATE_FLIGHT_IDLE, False)
    o.set_val(Eng.GEOPOTENTIAL_ALT, False)
    o.set_val(Eng.IGNORE_NEGATIVE_THRUST, False)
    o.set_val(Eng.INTERPOLATION_METHOD, 'slinear')
    o.set_val(Eng.GLOBAL_THROTTLE, True)
    o.set_val(Eng.GLOBAL_HYBRID_THROTTLE, True)
    o.set_val(Eng.REFERENCE_SLS_THRUST, 20000.0, 'lbf')
    o.set_val(Eng.SCALE_FACTOR, 1.0)
    for k, v in kw.items():
        v = v if isinstance(v, tuple) else (v,)
        o.set_val(getattr(Eng, k), *v)
    return o


def table(M, cols, perm=None, units=None, names=None, container=None):
    """The deck as given: columns in another order of rows, in the units given."""
    d = NamedValues()
    for key, vals in cols.items():
        u = (units or {}).get(key, DEF[key])
        vs = [conv(v, DEF[key], u) if u != DEF[key] else v for v in vals]
        vs = [vs[i] for i in perm] if perm is not None else vs
        d.set_val((names or {}).get(key, NAME[key]), M.arr(vs) if container is None else container(vs), u)
    return d


def mix(n, k):
    """A permutation of range(n)."""
    p = sorted(range(n), key=lambda i: (i * (7 + 2 * k) + 3 * k) % n if np.gcd(n, 7 + 2 * k) == 1 else (-i if k % 2 else i))
    return p[::-1] if k % 3 == 2 else p


def expected(grid, sort, keys, glob=True, scale=True):
    cols = {k: [x for c in grid.sorted_conds(sort) for x in grid.rows[c][k]] for k in keys}
    return cols


def lo_hi(xs):
    return xs[0], xs[-1]


def norm(xs, lo, hi):
    return [(x - lo) / (hi - lo) for x in xs]


def get(deck, key):
    return list(deck.data[key])


def lookups(deck, grid, sort):
    return deck


OUT = (V.THRUST, V.FUEL_FLOW, V.NOX_RATE)


def table_case(counts, sort, glob, perm, extreme=None, units=None, names=None, container=None):
    """Without flight idle the processed deck is the deck given: sorted, in working units, throttle normalised."""
    def f(M):
        g = Grid(M, counts, OUT, extreme=extreme)
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *OUT]
        cols = {k: g.column(k) for k in keys}
        n = len(cols[V.MACH])
        t = table(M, cols, mix(n, perm), units, names, container)
        deck = ed.EngineDeck('deck', options(sort, GLOBAL_THROTTLE=glob), t)
        want = expected(g, sort, keys)
        for k in keys:
            if k is V.THROTTLE:
                continue
            yield f'{k.name}: every row of the deck, sorted, in working units', get(deck, k), want[k]
        if glob:
            th = norm(want[V.THROTTLE], g.lo, g.hi)
        else:
            th = [y for c in g.sorted_conds(sort) for y in norm(g.rows[c][V.THROTTLE], *lo_hi(g.rows[c][V.THROTTLE]))]
        yield 'throttle normalised to 0..1' + (' over the deck' if glob else ' at each flight condition'), get(deck, V.THROTTLE), th
        for k in (V.HYBRID_THROTTLE, V.SHAFT_POWER, V.ELECTRIC_POWER_IN):
            yield 'quantities the deck does not have are zero', get(deck, k), [0.0] * n
        yield 'variables the deck offers', {k.name: u for k, u in deck.engine_variables.items()}, {k.name: DEF[k] for k in keys}
        yield 'flags', [deck.use_thrust, deck.use_hybrid_throttle, deck.use_t4, deck.use_shaft_power], [True, False, False, False]
        # the packed arrangement: rows of one flight condition together
        if sort == 'mach':
            for k in OUT:
                for c in g.conds:
                    a = [i for i in g.conds if i[0] == c[0]].index(c)
                    m = sorted({i[0] for i in g.conds}).index(c[0])
                    yield 'packed data of a flight condition', list(deck.packed_data[k][m, a][:counts[c]]), g.rows[c][k]
    return f


GRIDS = {
    '2x2x2': {(m, a): 2 for m in range(2) for a in range(2)},
    '2x2x3': {(m, a): 3 for m in range(2) for a in range(2)},
    '3x2x2': {(m, a): 2 for m in range(3) for a in range(2)},
    '2x3x2': {(m, a): 2 for m in range(2) for a in range(3)},
    'fewer throttles last': {(0, 0): 3, (0, 1): 3, (1, 0): 3, (1, 1): 2},
    'more throttles last': {(0, 0): 2, (0, 1): 2, (1, 0): 2, (1, 1): 3},
    'more throttles first': {(0, 0): 4, (0, 1): 2, (1, 0): 2, (1, 1): 2},
    'more altitudes last': {(0, 0): 2, (0, 1): 2, (1, 0): 2, (1, 1): 2, (1, 2): 2},
    'more altitudes first': {(0, 0): 2, (0, 1): 2, (0, 2): 2, (1, 0): 2, (1, 1): 2},
    'hole': {(0, 0): 2, (0, 1): 2, (1, 1): 2, (1, 2): 2},
    'single throttle point': {(0, 0): 2, (0, 1): 1, (1, 0): 2, (1, 1): 2},
}



# ------------------------------------------------------------------------------------------------------------ flight idle
def clip(M, x, lo, hi):
    if M.symbolic:
        return E.ite(E.lt(x, lo), lo, E.ite(E.lt(hi, x), hi, x))
    return lo if x < lo else hi if x > hi else x


def idle_case(counts, sort, glob, live, mode, extreme=None):
    """live: the conditions that produce more than 1 lbf at their lowest throttle. mode: variables that drive the extrapolation."""
    drive = {'thrust': (V.THRUST,), 'power': (V.SHAFT_POWER,), 'corrected': (V.SHAFT_POWER_CORRECTED,), 'both': (V.THRUST, V.SHAFT_POWER)}[mode]
    other = (V.FUEL_FLOW,)

    def f(M):
        g = Grid(M, counts, other, extreme=extreme)
        for c in g.conds:
            n = counts[c]
            for d in drive:
                if c in live:
                    g.rows[c][d] = rising(M, f'{d.name}{c[0]}{c[1]}_', n, 100, 10, 1000)
                else:
                    low = ranges(M, M.f(f'{d.name}{c[0]}{c[1]}_low', 0, 1), 0, 1)
                    g.rows[c][d] = [low] + [low + 10 * (k + 1) for k in range(n - 1)]
        fr = ranges(M, M.f('idle', 0, 0.4), 0, 0.4)
        lo = ranges(M, M.f('lowest', 0, 0.4), 0, 0.4)
        hi = ranges(M, M.f('highest', 0.5, 1), 0.5, 1)
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *drive, *other]
        cols = {k: g.column(k) for k in keys}
        n = len(cols[V.MACH])
        o = options(sort, GLOBAL_THROTTLE=glob, GENERATE_FLIGHT_IDLE=True, FLIGHT_IDLE_THRUST_FRACTION=fr, FLIGHT_IDLE_MIN_FRACTION=lo, FLIGHT_IDLE_MAX_FRACTION=hi)
        deck = ed.EngineDeck('deck', o, table(M, cols, mix(n, 1)), required_variables={V.MACH, V.ALTITUDE, V.THROTTLE, drive[0]})
        want, idle = {k: [] for k in keys}, []
        for c in g.sorted_conds(sort):
            r = g.rows[c]
            t = norm(r[V.THROTTLE], g.lo, g.hi) if glob else norm(r[V.THROTTLE], *lo_hi(r[V.THROTTLE])) if len(r[V.THROTTLE]) > 1 else None
            if c in live:
                idle.append((len(want[V.MACH]), counts[c] < max(counts.values())))
                want[V.MACH].append(r[V.MACH][0])
                want[V.ALTITUDE].append(r[V.ALTITUDE][0])
                want[V.THROTTLE].append(0.0)
                for d in drive:
                    want[d].append(fr * r[d][-1])
                d = r[drive[-1]]
                for k in other:
                    y = r[k]
                    x = y[0] + (y[1] - y[0]) * (fr * d[-1] - d[0]) / (d[1] - d[0]) if counts[c] > 1 else y[0] * fr
                    want[k].append(clip(M, x, y[-1] * lo, y[-1] * hi))
            for k in keys:
                if k is V.THROTTLE:
                    want[k] += [(x + 0.1) / 1.1 for x in t] if (c in live or (glob and live)) else t
                else:
                    want[k] += r[k]
        for k in keys:
            have = get(deck, k)
            yield f'{k.name}: one idle row for each flight condition above idle', len(have), len(want[k])
            at = [i for i, _ in idle]
            yield f'{k.name}: rows of the deck', [x for i, x in enumerate(have) if i not in at], [x for i, x in enumerate(want[k]) if i not in at]
            for i, few in idle:
                if i < len(have):
                    yield f'{k.name}: idle row' + (' of a flight condition with fewer points than another' if few else ''), have[i], want[k][i]
        yield 'number of points', deck.model_length, len(want[V.MACH])
    return f


def negative_case(pattern, sort):
    """IGNORE_NEGATIVE_THRUST: rows with negative thrust are removed, all others stay. pattern: sign of each thrust of each condition."""
    counts = {c: len(p) for c, p in pattern.items()}

    def f(M):
        g = Grid(M, counts, (V.FUEL_FLOW,))
        for c, p in pattern.items():
            g.rows[c][V.THRUST] = [{'-': lambda x: -x, '+': lambda x: x, '0': lambda x: 0.0}[s](1 + ranges(M, M.f(f'T{c[0]}{c[1]}{k}', 0, 1000), 0, 1000)) for k, s in enumerate(p)]
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, V.THRUST, V.FUEL_FLOW]
        cols = {k: g.column(k) for k in keys}
        for ign in (True, False):
            deck = ed.EngineDeck('deck', options(sort, GLOBAL_THROTTLE=False, IGNORE_NEGATIVE_THRUST=ign), table(M, cols, mix(len(cols[V.MACH]), 2)))
            keep = {c: [k for k, s in enumerate(p) if s != '-' or not ign] for c, p in pattern.items()}
            for k in keys:
                want = []
                for c in g.sorted_conds(sort):
                    r = [g.rows[c][k][i] for i in keep[c]]
                    want += norm(r, *lo_hi(r)) if k is V.THROTTLE else r
                yield f'{k.name}: rows with negative thrust are removed' if ign else f'{k.name}: all rows', get(deck, k), want
    return f


# ------------------------------------------------------------------------------------------------------------ what the columns mean
def thrust_case(given, units):
    """Net thrust from the columns given."""
    given = tuple(getattr(V, n) for n in given)

    def f(M):
        counts = {(m, a): 2 for m in range(2) for a in range(2)}
        g = Grid(M, counts, (V.FUEL_FLOW,), extreme=((0, 0), (1, 1)))
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *given, V.FUEL_FLOW]
        want = []
        for c in g.conds:
            cols = {k: [ranges(M, M.f(f'{k.name}{c[0]}{c[1]}{i}', 1, 1000), 1, 1000) for i in range(2)] for k in given}
            if V.GROSS_THRUST in given and V.RAM_DRAG in given and V.THRUST in given:
                cols[V.THRUST] = [x - y + ranges(M, M.f(f'off{c[0]}{c[1]}{i}', -0.9, 0.9), -0.9, 0.9) for i, (x, y) in enumerate(zip(cols[V.GROSS_THRUST], cols[V.RAM_DRAG]))]
            g.rows[c].update(cols)
            net = cols.get(V.THRUST) or ([x - y for x, y in zip(cols[V.GROSS_THRUST], cols[V.RAM_DRAG])] if V.GROSS_THRUST in given and V.RAM_DRAG in given else None)
            if V.TAILPIPE_THRUST in given:
                net = cols[V.TAILPIPE_THRUST] if net is None else [x + y for x, y in zip(net, cols[V.TAILPIPE_THRUST])]
            want += net
        cols = {k: g.column(k) for k in keys}
        before = {k: list(v) for k, v in cols.items()}
        t = table(M, cols, mix(8, 1), units)
        make = lambda: ed.EngineDeck('deck', options(), t)
        deck = make()
        yield 'net thrust', get(deck, V.THRUST), want
        yield 'other columns', get(deck, V.FUEL_FLOW), g.column(V.FUEL_FLOW)
        yield 'columns that were folded into net thrust are gone', {k.name for k in deck.engine_variables}, {k.name for k in keys if k not in (V.GROSS_THRUST, V.RAM_DRAG, V.TAILPIPE_THRUST)} | {'THRUST'}
        again = make()
        yield 'the same table gives the same deck again', get(again, V.THRUST), want
        for k in given:
            u = (units or {}).get(k, DEF[k])
            order = mix(8, 1)
            yield 'the original data are kept', list(deck._original_data[k]), [conv(conv(cols[k][i], DEF[k], u), u, DEF[k]) for i in order]
    return f


def conflict_case(row, off):
    """Net thrust that differs from gross thrust minus ram drag is rejected."""
    def f(M):
        g = Grid(M, {(m, a): 2 for m in range(2) for a in range(2)}, (V.GROSS_THRUST, V.RAM_DRAG, V.FUEL_FLOW), extreme=((0, 0), (1, 1)))
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, V.THRUST, V.GROSS_THRUST, V.RAM_DRAG, V.FUEL_FLOW]
        i = 0
        for c in g.conds:
            r = g.rows[c]
            r[V.THRUST] = []
            for x, y in zip(r[V.GROSS_THRUST], r[V.RAM_DRAG]):
                r[V.THRUST].append(x - y + (off * (1.1 + ranges(M, M.f('off', 0, 100), 0, 100)) if i == row else 0.0))
                i += 1
        cols = {k: g.column(k) for k in keys}
        yield 'inconsistent net thrust is rejected', M.raises(lambda: ed.EngineDeck('deck', options(), table(M, cols)), UserWarning), 'raised'
    return f


def required_case(required, present):
    """A deck without one of its required variables is rejected, any other is accepted."""
    required, present = [tuple(getattr(V, n) for n in x) for x in (required, present)]

    def f(M):
        g = Grid(M, {(m, a): 2 for m in range(2) for a in range(2)}, OUT + (V.SHAFT_POWER, V.ELECTRIC_POWER_IN, V.TEMPERATURE_T4), extreme=((0, 0), (1, 1)))
        cols = {k: g.column(k) for k in present}
        got = M.raises(lambda: ed.EngineDeck('deck', options(), table(M, cols), required_variables=set(required)), UserWarning)
        yield 'missing required variables', got, 'raised' if set(required) - set(present) else 'no exception'
    return f


def power_case(verbosity, which):
    """With both shaft powers in the deck only the uncorrected one is used."""
    which = tuple(getattr(V, n) for n in which)

    def f(M):
        g = Grid(M, {(m, a): 2 for m in range(2) for a in range(2)}, which + (V.FUEL_FLOW,), extreme=((0, 0), (1, 1)))
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *which, V.FUEL_FLOW]
        o = options()
        o.set_val(Settings.VERBOSITY, verbosity)
        deck = ed.EngineDeck('deck', o, table(M, {k: g.column(k) for k in keys}, mix(8, 3)), required_variables={V.MACH, V.ALTITUDE, V.THROTTLE})
        left = [k for k in which if not (k is V.SHAFT_POWER_CORRECTED and V.SHAFT_POWER in which)]
        yield 'variables in use', {k.name for k in deck.engine_variables}, {k.name for k in keys if k in left or k not in which}
        for k in left:
            yield f'{k.name} is as given', get(deck, k), g.column(k)
        yield 'flags', [deck.use_thrust, deck.use_shaft_power, deck.use_t4], [V.THRUST in which, V.SHAFT_POWER in left or V.SHAFT_POWER_CORRECTED in left, V.TEMPERATURE_T4 in which]
    return f


# ------------------------------------------------------------------------------------------------------------ reference thrust
def sls_case(where, units, unit):
    """The reference thrust is the largest thrust at sea level and rest."""
    def f(M):
        g = Grid(M, {(0, 0): 3, (0, 1): 2, (1, 0): 2, (1, 1): 2}, OUT, extreme=((0, 0), (1, 1)))
        ths = g.rows[0, 0][V.THRUST]
        base = [ranges(M, M.f(f's{k}', 1, 500), 1, 500) for k in range(3)]
        top = 600 + ranges(M, M.f('top', 0, 500), 0, 500)
        for k in range(3):
            ths[k] = top if k == where else base[k]
        g.mach[0] = 0.0
        for c in g.conds:
            g.rows[c][V.MACH] = [0.0 if c[0] == 0 else 0.3] * len(g.rows[c][V.MACH])
            g.rows[c][V.ALTITUDE] = [0.0 if c[1] == 0 else 5000.0] * len(g.rows[c][V.MACH])
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *OUT]
        o = options()
        o.delete(Eng.REFERENCE_SLS_THRUST)
        o.delete(Eng.SCALE_FACTOR)
        deck = ed.EngineDeck('deck', o, table(M, {k: g.column(k) for k in keys}, mix(9, where), units))
        yield 'reference thrust is the largest static thrust at sea level', deck.get_val(Eng.REFERENCE_SLS_THRUST, unit), conv(top, 'lbf', unit)
        yield 'scaled thrust defaults to the reference', deck.get_val(Eng.SCALED_SLS_THRUST, unit), conv(top, 'lbf', unit)
        yield 'scale factor defaults to one', deck.get_val(Eng.SCALE_FACTOR), 1
        return
    return f


def nosls_case(m0, a0, ok):
    """Points within 0.01 Mach and 10 ft of sea level static count; without one, the reference thrust cannot be found."""
    def f(M):
        g = Grid(M, {(m, a): 2 for m in range(2) for a in range(2)}, OUT, mono=(V.THRUST,), extreme=((0, 0), (1, 1)))
        for c in g.conds:
            g.rows[c][V.MACH] = [m0 if c[0] == 0 else m0 + 0.3] * 2
            g.rows[c][V.ALTITUDE] = [a0 if c[1] == 0 else a0 + 5000.0] * 2
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *OUT]
        o = options()
        o.delete(Eng.REFERENCE_SLS_THRUST)
        o.set_val(Eng.DATA_FILE, 'deck.csv')
        made = []
        got = M.raises(lambda: made.append(ed.EngineDeck('deck', o, table(M, {k: g.column(k) for k in keys}, mix(8, 1)))), UserWarning)
        yield 'a sea level static point is needed', got, 'no exception' if ok else 'raised'
        if ok and made:
            yield 'reference thrust', made[0].get_val(Eng.REFERENCE_SLS_THRUST, 'lbf'), g.rows[0, 0][V.THRUST][-1]
    return f


def scale_case(sf, st, ru, su, agree):
    """SCALED_SLS_THRUST = SCALE_FACTOR * REFERENCE_SLS_THRUST whatever was given."""
    def f(M):
        g = Grid(M, {(m, a): 2 for m in range(2) for a in range(2)}, OUT, extreme=((0, 0), (1, 1)))
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *OUT]
        o = options()
        o.delete(Eng.SCALE_FACTOR)
        ref = 10000 + ranges(M, M.f('ref', 0, 90000), 0, 90000)
        k = (1.25 if ru == 'lbf' else 2.0) if sf and st else ranges(M, M.f('sf', 0.5, 2), 0.5, 2)
        target = ref * k
        given = target
        if sf and st:
            near, far = ranges(M, M.f('near', 0, 1), 0, 1), ranges(M, M.f('far', 0, 5000), 0, 5000)
            given = {'near': target + near, 'near below': target - near, 'above': target * (1 + 1.5e-4) + far, 'below': target * (1 - 1.5e-4) - far}[agree]
        o.set_val(Eng.REFERENCE_SLS_THRUST, conv(ref, 'lbf', ru), ru)
        if sf:
            o.set_val(Eng.SCALE_FACTOR, k)
        if st:
            o.set_val(Eng.SCALED_SLS_THRUST, conv(given, 'lbf', su), su)
        made = []
        got = M.raises(lambda: made.append(ed.EngineDeck('deck', o, table(M, {k: g.column(k) for k in keys}, mix(8, 1)))), AttributeError)
        bad = bool(sf and st and agree in ('above', 'below'))
        yield 'conflicting scale factor and scaled thrust', got, 'raised' if bad else 'no exception'
        if made and not bad:
            d = made[0]
            yield 'scale factor', d.get_val(Eng.SCALE_FACTOR), k if sf or st else 1
            yield 'scaled thrust', d.get_val(Eng.SCALED_SLS_THRUST, 'lbf'), target if sf or st else ref
            yield 'reference thrust', d.get_val(Eng.REFERENCE_SLS_THRUST, 'lbf'), ref
            yield 'the table is not scaled', get(d, V.THRUST), g.column(V.THRUST)
    return f


# ------------------------------------------------------------------------------------------------------------ hybrid throttle
def hybrid_case(signs, glob):
    """signs: hybrid throttles of each flight condition and throttle, in rising order."""
    nh = len(signs)

    def f(M):
        conds = [(m, a) for m in range(2) for a in range(2)]
        mach, alt = rising(M, 'mach', 2, 0, 0.05, 0.3), rising(M, 'alt', 2, 0, 100, 9000)
        cols = {k: [] for k in (V.MACH, V.ALTITUDE, V.THROTTLE, V.HYBRID_THROTTLE, V.THRUST, V.FUEL_FLOW)}
        want = []
        nneg = signs.count('-')
        shared = None
        for c in conds:
            if shared is None or not glob:
                tag = '' if glob else f'{c[0]}{c[1]}'
                neg = [-x for x in rising(M, 'hn' + tag, nneg, 1, 0.5, 3)][::-1] if nneg else []
                npos = signs.count('+')
                pos = rising(M, 'hp' + tag, npos, 1, 0.5, 3) if npos else []
                shared = neg + [0.0] * signs.count('0') + pos
            h = shared
            t = rising(M, f't{c[0]}{c[1]}', 2, 10, 1, 20) if not glob else [10.0, 20.0]
            for i, x in enumerate(t):
                for j, y in enumerate(h):
                    cols[V.MACH].append(mach[c[0]])
                    cols[V.ALTITUDE].append(alt[c[1]])
                    cols[V.THROTTLE].append(x)
                    cols[V.HYBRID_THROTTLE].append(y)
                    cols[V.THRUST].append(M.f(f'T{c[0]}{c[1]}{i}{j}', 1, 100))
                    cols[V.FUEL_FLOW].append(M.f(f'F{c[0]}{c[1]}{i}{j}', 1, 100))
                    want.append((float(i), y / -h[0] if signs[j] == '-' else y / h[-1] if signs[j] == '+' else 0.0))
        deck = ed.EngineDeck('deck', options(GLOBAL_THROTTLE=glob, GLOBAL_HYBRID_THROTTLE=glob), table(M, cols, mix(len(want), 1)))
        yield 'throttle', get(deck, V.THROTTLE), [w[0] for w in want]
        yield 'hybrid throttle: negative values on -1..0, positive values on 0..1, zero stays', get(deck, V.HYBRID_THROTTLE), [w[1] for w in want]
        yield 'thrust', get(deck, V.THRUST), cols[V.THRUST]
        yield 'fuel flow', get(deck, V.FUEL_FLOW), cols[V.FUEL_FLOW]
        yield 'flags', [deck.use_thrust, deck.use_hybrid_throttle], [True, True]
    return f


# ------------------------------------------------------------------------------------------------------------ interpolators
class Rec:
    """Stands for an OpenMDAO component or group: records what is declared."""
    def __init__(self, *a, **kw):
        self.kw, self.ins, self.outs, self.subs, self.conns = kw, {}, {}, {}, {}

    def add_input(self, name, data=None, units=None, **k):
        self.ins[name] = (list(data), units)

    def add_output(self, name, data=None, units=None, val=None, **k):
        self.outs[name] = (list(data if data is not None else val), units)

    def add_subsystem(self, name, subsys, promotes_inputs=(), promotes_outputs=(), promotes=(), **k):
        self.subs[name] = (subsys, list(promotes_inputs) + list(promotes), list(promotes_outputs) + list(promotes))
        return subsys

    def connect(self, src, tgt, **k):
        for t in tgt if isinstance(tgt, (list, tuple)) else [tgt]:
            self.conns[t] = src


class Om:
    Group = Rec
    IndepVarComp = Rec
    MetaModelSemiStructuredComp = Rec

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)


class recorded:
    def __enter__(self):
        self.om, self.ec, self.un = ed.om, ed.EngineScaling, ed.UncorrectData
        ed.om, ed.EngineScaling, ed.UncorrectData = Om(self.om), Rec, Rec

    def __exit__(self, *a):
        ed.om, ed.EngineScaling, ed.UncorrectData = self.om, self.ec, self.un


def mission_case(outputs, sort, glob, method='slinear'):
    """The mission model interpolates the columns of the deck, and every scaled output is fed with its own quantity."""
    outputs = tuple(getattr(V, n) for n in outputs)

    def f(M):
        g = Grid(M, {(m, a): 2 for m in range(2) for a in range(2)}, outputs, extreme=((0, 0), (1, 1)) if glob else None)
        keys = [V.MACH, V.ALTITUDE, V.THROTTLE, *outputs]
        deck = ed.EngineDeck('deck', options(sort, GLOBAL_THROTTLE=glob, INTERPOLATION_METHOD=method), table(M, {k: g.column(k) for k in keys}, mix(8, 2)), required_variables={V.MACH, V.ALTITUDE, V.THROTTLE})
        with recorded():
            grp = deck.build_mission(4, AviaryValues(), {}, {})
        order = [V.MACH, V.ALTITUDE, V.THROTTLE] if sort == 'mach' else [V.ALTITUDE, V.MACH, V.THROTTLE]
        it = grp.subs['interpolation'][0]
        unit = lambda k: DEF[k]
        yield 'table inputs in the order of the sort', list(it.ins), [k.value for k in order]
        for k in order:
            yield 'table inputs hold the columns of the deck', it.ins[k.value], (get(deck, k), unit(k))
        col = {}
        for k in outputs:
            col[k.value + ('' if k in (V.TEMPERATURE_T4, V.RPM) else '_unscaled')] = (get(deck, k), unit(k))
        yield 'table outputs hold the columns of the deck', it.outs, col
        yield 'number of nodes and method', [it.kw.get('vec_size'), it.kw.get('method')], [4, method]
        yield 'the table inputs are those of the mission', grp.subs['interpolation'][1], ['*']
        cor = V.SHAFT_POWER_CORRECTED in outputs and V.SHAFT_POWER not in outputs

        def source(t):
            s = grp.conns.get(t)
            if s is None:
                return None
            c, _, v = s.partition('.')
            if v in grp.subs[c][0].outs:
                return grp.subs[c][0].outs[v]
            return source(c + '.corrected_data') if v == 'uncorrected_data' else None
        for k in outputs:
            if k in (V.TEMPERATURE_T4, V.RPM):
                continue
            name = 'shaft_power' if k is V.SHAFT_POWER_CORRECTED else k.value
            yield 'each scaled output is fed with its own quantity', source(f'engine_scaling.{name}_unscaled'), (get(deck, k), unit(k))
            if k in (V.THRUST, V.SHAFT_POWER, V.SHAFT_POWER_CORRECTED):
                yield 'maximum outputs are fed with their own quantity', source(f'engine_scaling.{name}_max_unscaled'), (get(deck, k), unit(k))
        if cor:
            yield 'corrected shaft power is corrected before scaling', [grp.conns['engine_scaling.shaft_power_unscaled'].split('.')[0] in grp.subs, grp.conns['engine_scaling.shaft_power_unscaled'].split('.')[1]], [True, 'uncorrected_data']
        yield 'scaling covers the quantities of the deck', {k.name: u for k, u in grp.subs['engine_scaling'][0].kw['engine_variables'].items()}, \
            {('SHAFT_POWER' if k is V.SHAFT_POWER_CORRECTED else k.name): DEF[k] for k in keys}
        mx = grp.subs['max_interpolation'][0]
        yield 'maximum is taken from the same table', list(mx.ins.values()), [(get(deck, k), unit(k)) for k in order]
        src = grp.conns['max_interpolation.throttle_max'].split('.')
        yield 'throttle at maximum', grp.subs[src[0]][0].outs[src[1]][0], [1.0] * 4
        if not glob:
            one = grp.subs[src[0]][0]
            cs = g.sorted_conds(sort)
            yield 'conditions of the maximum throttles', sorted([str(k.split(':')[-1]) for k in one.ins]), ['altitude', 'mach']
            for k, v in one.ins.items():
                key = V.ALTITUDE if k.endswith('altitude') else V.MACH
                yield 'conditions of the maximum throttles', v, ([g.rows[c][key][0] for c in cs], unit(key))
    return f


# ------------------------------------------------------------------------------------------------------------ utilities
def normalize_case(n, top, bottom):
    def f(M):
        xs = rising(M, 'x', n, -5, 1, 20)
        perm = mix(n, 1)
        lo, hi = xs[0], xs[-1]
        kw = {}
        if top:
            hi = kw['maximum'] = xs[-1] + ranges(M, M.f('up', 0, 5), 0, 5)
        if bottom:
            lo = kw['minimum'] = xs[0] - ranges(M, M.f('down', 0, 5), 0, 5)
        for L in (list, tuple, M.arr):
            got = ed.normalize(L([xs[i] for i in perm]), **kw)
            yield 'linear, lowest to 0, highest to 1', list(got), [(xs[i] - lo) / (hi - lo) for i in perm]
    return f


def extend_case(shape, size):
    def f(M):
        v = np.empty(shape, dtype=object if M.symbolic else float)
        for i in np.ndindex(*shape):
            v[i] = M.f('v' + '_'.join(map(str, i)))
        keep = v.copy()
        got = ed.extend_array(v, list(size))
        full = tuple(shape) + (1,) * (len(size) - len(shape))
        out = tuple(max(a, b) for a, b in zip(full, size))
        want = np.zeros(out, dtype=object)
        for i in np.ndindex(*shape):
            want[i + (0,) * (len(size) - len(shape))] = v[i]
        yield 'the array with zeros where it was extended', got, want if M.symbolic else want.astype(float)
        yield 'the array given is unchanged', v, keep
    return f


def cases():
    out = {}
    for n, (gn, counts) in enumerate(GRIDS.items()):
        for sort in ('mach', 'altitude'):
            per = {}
            for (m, a) in counts:
                per.setdefault(m if sort == 'mach' else a, []).append((m, a))
            if any(len(v) < 2 for v in list(per.values())):
                continue
            cs = sorted(counts)
            for glob in (True, False):
                if glob or 1 not in counts.values():
                    for k, ex in enumerate([(cs[0], cs[-1]), (cs[-1], cs[0]), (cs[-1], cs[-1])] if glob else [None]):
                        out[f'table:{gn}:{sort}:{"global" if glob else "local"}:{k}'] = table_case(counts, sort, glob, n + k, ex)
                if gn in ('2x2x2', '2x2x3', 'fewer throttles last', 'more throttles last', 'single throttle point', 'more altitudes last'):
                    for j, c in enumerate(cs):
                        if glob or 1 not in counts.values():
                            out[f'idle:{gn}:{sort}:{"global" if glob else "local"}:{c[0]}{c[1]}'] = idle_case(counts, sort, glob, [c], ['thrust', 'power', 'corrected', 'both'][(j + n) % 4], (cs[0], cs[-1]) if glob else None)
    for glob in (True, False):
        g = GRIDS['2x2x2']
        out[f'idle:none:{glob}'] = idle_case(g, 'mach', glob, [], 'thrust', ((0, 0), (1, 1)) if glob else None)
        out[f'idle:two:{glob}'] = idle_case(g, 'mach', glob, [(0, 1), (1, 0)], 'thrust', ((0, 0), (1, 1)) if glob else None)
    for n, p in enumerate(('++ ++ ++ ++', '-++ ++ ++ ++', '-++ -0+ ++ --++', '0+ ++ -++ ++', '++ ++ ++ -++')):
        pat = dict(zip([(0, 0), (0, 1), (1, 0), (1, 1)], p.split()))
        for sort in ('mach', 'altitude'):
            out[f'negative:{p}:{sort}'] = negative_case(pat, sort)
    for given in (('THRUST',), ('GROSS_THRUST', 'RAM_DRAG'), ('THRUST', 'GROSS_THRUST'), ('THRUST', 'RAM_DRAG'), ('THRUST', 'GROSS_THRUST', 'RAM_DRAG'), ('TAILPIPE_THRUST',),
                  ('THRUST', 'TAILPIPE_THRUST'), ('GROSS_THRUST', 'RAM_DRAG', 'TAILPIPE_THRUST')):
        for k, u in enumerate((None, ('kN', 'N', 'lbf'), ('N', 'lbf', 'kN'))):
            out[f'net thrust:{"+".join(given)}:{k}'] = thrust_case(given, u and {getattr(V, x): y for x, y in zip(given, u)})
    for row in range(8):
        for off in (1, -1):
            out[f'conflict:{row}:{off}'] = conflict_case(row, off)
    full = ('MACH', 'ALTITUDE', 'THROTTLE', 'THRUST', 'FUEL_FLOW')
    std = full[:4]
    for m in (None, 'THROTTLE', 'THRUST', 'MACH', 'ALTITUDE', 'FUEL_FLOW'):
        out[f'required:standard without {m}'] = required_case(std, [x for x in full if x != m])
    for req in (std + ('SHAFT_POWER',), std + ('TEMPERATURE_T4', 'ELECTRIC_POWER_IN')):
        out[f'required:{req[-1]} missing'] = required_case(req, full)
        out[f'required:{req[-1]} present'] = required_case(req, full + ('SHAFT_POWER', 'TEMPERATURE_T4', 'ELECTRIC_POWER_IN'))
    for v in (Verbosity.QUIET, Verbosity.BRIEF, Verbosity.VERBOSE):
        for w in (('SHAFT_POWER',), ('SHAFT_POWER_CORRECTED',), ('SHAFT_POWER', 'SHAFT_POWER_CORRECTED'), ('THRUST', 'SHAFT_POWER_CORRECTED', 'SHAFT_POWER'), ('THRUST', 'TEMPERATURE_T4', 'SHAFT_POWER')):
            out[f'power:{v.name}:{"+".join(w)}'] = power_case(v, w)
    for w in range(3):
        for k, (u, r) in enumerate(((None, 'lbf'), ({V.THRUST: 'kN'}, 'lbf'), ({V.THRUST: 'N', V.ALTITUDE: 'm'}, 'kN'))):
            out[f'reference:{w}:{k}'] = sls_case(w, u, r)
    for m0, a0, ok in ((0.0, 0.0, True), (0.005, 9.0, True), (0.0, 50.0, False), (0.05, 0.0, False), (0.0, -9.0, True), (0.2, 1000.0, False)):
        out[f'sea level:{m0}:{a0}'] = nosls_case(m0, a0, ok)
    for sf in (True, False):
        for st in (True, False):
            for k, (ru, su) in enumerate((('lbf', 'lbf'), ('kN', 'lbf'), ('lbf', 'N'), ('N', 'kN'))):
                for ag in (('near', 'near below', 'above', 'below') if sf and st else ('',)):
                    out[f'scaling:{sf}:{st}:{k}:{ag}'] = scale_case(sf, st, ru, su, ag)
    for signs in ('-0+', '--0++', '0++', '--0', '-+', '++', '--'):
        for glob in (True, False):
            out[f'hybrid:{signs}:{glob}'] = hybrid_case(signs, glob)
    for n, o in enumerate((('THRUST', 'FUEL_FLOW', 'NOX_RATE'), ('THRUST', 'FUEL_FLOW', 'TEMPERATURE_T4', 'ELECTRIC_POWER_IN'), ('SHAFT_POWER', 'FUEL_FLOW', 'RPM'), ('THRUST', 'SHAFT_POWER_CORRECTED', 'FUEL_FLOW'), ('THRUST', 'SHAFT_POWER', 'FUEL_FLOW', 'NOX_RATE'))):
        for sort in ('mach', 'altitude'):
            for glob in (True, False):
                out[f'mission:{"+".join(o)}:{sort}:{glob}'] = mission_case(o, sort, glob, ['slinear', 'lagrange3', 'akima'][n % 3])
    for n in (2, 3, 4):
        for top in (True, False):
            for bottom in (True, False):
                out[f'normalize:{n}:{top}:{bottom}'] = normalize_case(n, top, bottom)
    for shape, size in (((1,), (3,)), ((2,), (1,)), ((1, 0), (2, 2)), ((2, 3), (3, 2)), ((2, 2), (2, 2)), ((2,), (3, 2)), ((2, 2, 1), (1, 3, 2)), ((2, 1), (4, 1))):
        out[f'extend:{shape}:{size}'] = extend_case(shape, size)
    return out
