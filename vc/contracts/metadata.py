"""C13: the variable hierarchy and its metadata, and the functions that extend and merge them."""
import itertools
import re
import numpy as np
from enum import Enum
from openmdao.utils.units import valid_units, unit_conversion
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.develop_metadata import add_meta_data, update_meta_data
from aviary.utils.merge_hierarchies import merge_hierarchies
from aviary.utils.merge_variable_metadata import merge_meta_data
from aviary.utils.utils import check_type
from aviary.variable_info import variables as V
from aviary.variable_info.variable_meta_data import CoreMetaData

ROOTS = (V.Aircraft, V.Dynamic, V.Mission, V.Settings)
FIELDS = ('historical_name', 'units', 'desc', 'option', 'default_value', 'types', 'multivalue')
# what the last word of a name says about the dimension of the quantity: name pattern -> a unit of that dimension
DIMENSION = [
    (r'_to_[a-z_]*$|_over_|center_distance$', 'unitless'),
    (r'mass_per_unit_area$', 'lbm/ft**2'),
    (r'specific_torque$', 'N*m/kg'),
    (r'capacity_volume$', 'ft**3'),
    (r'_scaler$|_factor$|_fraction$|(^|[:_])mach$|_ratio$|coefficient$|efficiency$|^throttle|num_[a-z_]*$|fineness$', 'unitless'),
    (r'aspect_ratio|taper_ratio|thickness_to_chord$', 'unitless'),
    (r':mass$|_mass$|(^|_)mass_(base|additional|increment|margin|total|residual)$|capacity_[a-z]*$|(^|:)mass$', 'lbm'),
    (r'(^|[:_])areas?$', 'ft**2'),
    (r'(^|[:_])(length|lengths|span|height|diameter|avg_diameter|width|arm|altitude|avg_chord|aisle_width)$', 'ft'),
    (r'mean_aerodynamic_chord$|average_chord$|root_chord$', 'ft'),
    (r':volume$|volume_(design|geometric_max|structural_max)$', 'ft**3'),
    (r'(^|[:_])(velocity|touchdown_sink_rate|maximum_sink_rate|speed|altitude_rate|speed_of_sound)$|speed_increment$', 'ft/s'),
    (r'(^|[:_])(range|distance)$', 'NM'),
    (r'(angle|sweep|dihedral|incidence|deflection|angle_of_attack)$', 'deg'),
    (r'(^|[:_])temperature$', 'degR'),
    (r'(^|[:_])pressure$|pressure_differential$|wing_loading$', 'psi'),
    (r'(^|[:_])(thrust|thrust_net|thrust_net_max|drag|lift|reference_sls_thrust|scaled_sls_thrust)$|thrust_net_(max_)?total$', 'lbf'),
    (r'(^|[:_])(shaft_power|shaft_power_max|electric_power_in|electric_power_in_total|shaft_power_design)$', 'hp'),
    (r'(^|[:_])(torque|torque_max)$', 'N*m'),
    (r'(^|[:_])rpm(_design)?$', 'rpm'),
    (r'(^|[:_])(duration|time|delay)$', 's'),
    (r'(^|[:_])(fuel_flow_rate|nox_rate|mass_rate)', 'lbm/s'),
    (r'(^|:)density$|sea_level_density$', 'kg/m**3'),
    (r'gravity$|velocity_rate$', 'm/s**2'),
]
NOT_A_QUANTITY = ('mission:objectives:range', 'aircraft:design:percent_excrescence_drag')     # composite objectives, percentages


def leaves(cls, path=()):
    for k, v in vars(cls).items():
        if k.startswith('__'):
            continue
        if isinstance(v, type):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def _plain(v):
    return [_plain(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else v.item() if isinstance(v, np.generic) else v


def numeric(m):
    t = m['types'] if isinstance(m['types'], tuple) else (m['types'],)
    return any(x in (int, float) for x in t)


def entry(key):
    def f(M):
        m = CoreMetaData[key]
        yield 'fields of the entry', sorted(m), sorted(FIELDS)
        u = m['units']
        yield 'unit is a known unit', isinstance(u, str) and (u == 'unitless' or bool(valid_units(u))), True
        t = m['types'] if isinstance(m['types'], tuple) else (m['types'],)
        yield 'types are types', all(isinstance(x, type) for x in t), True
        yield 'a non-numeric variable has no unit', numeric(m) or u == 'unitless', True
        yield 'flags are booleans', (type(m['option']), type(m['multivalue'])), (bool, bool)
        d = m['default_value']
        if d is not None:
            av = AviaryValues()
            av.set_val(key, d, u)
            got = av.get_item(key)
            yield 'the default is an acceptable value of the variable', (_plain(got[0]), got[1]), (_plain(d), u)
        for pat, unit in DIMENSION:
            if re.search(pat, key) and numeric(m) and key not in NOT_A_QUANTITY:
                ok = (u == unit) if unit == 'unitless' else u != 'unitless'
                if ok and unit != 'unitless':
                    try:
                        unit_conversion(u, unit)
                    except Exception:       # noqa: BLE001
                        ok = False
                yield f'the unit has the dimension the name says ({unit})', ok or u, True
                break
    return f


SPELL = {'BWB': 'blended_wing_body_design', 'CrewPayload': 'crew_and_payload'}
ODD = ('ijeff',)


def hierarchy(M):
    seen = {}
    for root in ROOTS:
        for path, name in leaves(root):
            yield f'{root.__name__}.{".".join(path)} is the name of a variable with metadata', name in CoreMetaData, True
            yield f'{root.__name__}.{".".join(path)} is the only attribute with its name', seen.setdefault(name, (root.__name__,) + path), (root.__name__,) + path
            if root is not V.Dynamic and name not in ODD:
                want = ':'.join([root.__name__.lower()] + [SPELL.get(p, _word(p)) for p in path])
                yield f'{root.__name__}.{".".join(path)} spells its own name', name, want
    for k in CoreMetaData:
        yield f'{k} is reachable in the hierarchy', k in seen, True


def _word(p):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', p).lower()


class Token:
    """An opaque value: contracts that hold for tokens hold for every value."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'token{self.n}'


def add_case(given, update):
    """add_meta_data / update_meta_data: exactly the named entry gets exactly what was given."""
    def f(M):
        meta = {'other': {'units': Token('o')}}
        if update:
            meta['key'] = {'units': Token('old')}
        snap = dict(meta['other'])
        kw = {k: Token(k) for k in given if k not in ('option', 'multivalue')}
        kw.update({k: True for k in given if k in ('option', 'multivalue')})
        if 'default_value' in kw and 'types' not in kw:
            kw['default_value'] = M.f('d')
        (update_meta_data if update else add_meta_data)('key', meta, **kw)
        e = dict(units='unitless', desc=None, option=False, default_value=0.0, multivalue=False, historical_name=None, types=float)
        e.update(kw)
        if 'types' not in kw and isinstance(kw.get('default_value'), (str, list)):
            e['types'] = type(kw['default_value'])
        got = dict(meta['key'])
        t, et = got.pop('types'), e.pop('types')
        for k in e:
            yield f'field {k}', got[k] is e[k] or (k in ('default_value', 'units', 'desc') and not isinstance(e[k], Token) and str(got[k]) == str(e[k])), True
        if not M.symbolic:
            yield 'types', t is et, True
        yield 'fields', sorted(meta['key']), sorted(FIELDS)
        yield 'no other entry changes', (sorted(meta), meta['other'] == snap), (['key', 'other'], True)
        if update:
            yield 'updating an unknown variable is rejected', M.raises(lambda: update_meta_data('new', meta, **kw), ValueError), 'raised'
        else:
            before = dict(meta['key'])
            yield 'adding a known variable is rejected', M.raises(lambda: add_meta_data('key', meta, **kw), ValueError), 'raised'
            yield 'a rejected addition changes nothing', meta['key'] == before, True
        yield 'the rejected name is not added', sorted(meta), ['key', 'other']
    return f


def merge_case(layout):
    """layout: for every variable, the version (0 = absent) each dictionary holds."""
    def f(M):
        n = len(layout[0])
        vals = {}

        def version(var, v):
            # equal versions are equal but not identical objects
            b = vals.setdefault((var, v), (M.rng.randint(0, 99) if not M.symbolic else 7, Token((var, v))))
            return {'units': 'ft', 'desc': b[1], 'default_value': 1.5 + b[0] + v, 'types': float, 'historical_name': {'FLOPS': f'X{v}'}, 'option': False, 'multivalue': False}
        dicts = []
        for j in range(n):
            dicts.append({f'v{i}': version(i, row[j]) for i, row in enumerate(layout) if row[j]})
        snap = [{k: dict(e) for k, e in d.items()} for d in dicts]
        conflict = any(len({v for v in row if v}) > 1 for row in layout)
        if conflict:
            yield 'conflicting metadata are rejected', M.raises(lambda: merge_meta_data(dicts), ValueError), 'raised'
        else:
            got = merge_meta_data(dicts)
            want = {}
            for d in snap:
                want.update(d)
            yield 'the merged metadata are the union', sorted(got), sorted(want)
            yield 'every entry is the one that was given', all(got[k] == want[k] for k in want if k in got), True
        yield 'the inputs are unchanged', [{k: dict(e) for k, e in d.items()} for d in dicts] == snap, True
    return f


PAIRS = [('units', ('ft', 'm', 'unitless', None, '')), ('desc', ('a', 'b', '', None)), ('types', (float, int, bool, str, None, (float, int))), ('option', (False, True)),
         ('multivalue', (False, True)), ('default_value', (0.0, 3.0, 1, True, False, None, '', 'x', [], [0.0], [1.0], (), np.array([0.0]), np.array([2.0]), np.array([2.0, 3.0]))),
         ('historical_name', (None, {}, {'GASP': None}, {'GASP': 'A'}, {'GASP': 'B'}, {'FLOPS': None, 'GASP': 'A'}, {'GASP': ['A', 'B']}, {'GASP': ['A', 'C']}))]


def _same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return bool(np.all(np.equal(a, b)))  # a number and an array that holds it count as the same default
        except (TypeError, ValueError):
            return False
    return a == b


def single(field, i, j, third):
    """Two or three entries that agree but for one field of one of them."""
    def f(M):
        vals = dict(PAIRS)[field]
        entries = [{'units': 'ft', 'desc': 'd', 'default_value': 1.5, 'types': float, 'historical_name': {'FLOPS': 'X'}, 'option': False, 'multivalue': False} for _ in range(2 + third)]
        for e in entries:
            e[field] = vals[i]
        entries[-1][field] = vals[j]
        dicts = [{'v': e, f'w{k}': {'units': 'm'}} for k, e in enumerate(entries)]
        yield 'entries that differ in one field are rejected', M.raises(lambda: merge_meta_data(dicts), ValueError), 'raised'
        yield 'the inputs are unchanged', all(d['v'] is e for d, e in zip(dicts, entries)) and entries[0][field] is vals[i] and entries[-1][field] is vals[j], True
    return f


def numbers(kind):
    """Symbolic defaults: different numbers never merge, equal ones always do."""
    def f(M):
        a, d = M.f('a', 1.0, 9.0), M.f('d', 0.01, 5.0)
        M.assume(0.0 < a)
        M.assume(d > 1e-3 * a)
        b = a + d if kind in ('more', 'less') else a
        one, two = (a, b) if kind != 'less' else (b, a)
        dicts = [{'v': {'units': 'ft', 'default_value': one}}, {'v': {'units': 'ft', 'default_value': two}}]
        if kind == 'equal':
            got = merge_meta_data(dicts)
            yield 'equal defaults merge', got['v']['default_value'], a
        else:
            yield 'different defaults are rejected', M.raises(lambda: merge_meta_data(dicts), ValueError), 'raised'
    return f


def build(spec, name, base=object):
    """A hierarchy class from a nested dict."""
    d = {}
    for k, v in spec.items():
        if isinstance(v, dict):
            b = getattr(base, k, object)
            d[k] = build(v, k, b if isinstance(b, type) else object)
        else:
            d[k] = v
    return type(name, (base,), d)


def tree(cls):
    return {k: tree(v) if isinstance(v, type) else v for k, v in vars(cls).items() if not k.startswith('__')}


def union(a, b):
    out = dict(a)
    for k, v in b.items():
        if k in out and isinstance(v, dict) and isinstance(out[k], dict):
            out[k] = union(out[k], v)
        elif k not in out:
            out[k] = v
        elif out[k] != v:
            raise ValueError(k)
    return out


def hier_case(specs, derived):
    def f(M):
        bases = [V.Aircraft if d else object for d in derived]
        cls = [build(s, f'H{i}', b) for i, (s, b) in enumerate(zip(specs, bases))]
        core = tree(V.Aircraft)
        want, bad = {}, False
        try:
            for s in specs:
                want = union(want, s)
            if any(derived):
                for s, d in zip(specs, derived):
                    if d:
                        union(core, s)
        except ValueError:
            bad = True
        if bad:
            yield 'conflicting names are rejected', M.raises(lambda: merge_hierarchies(cls), ValueError), 'raised'
        else:
            got = merge_hierarchies(cls)
            yield 'the merged hierarchy has exactly the names of all of them', tree(got), want
            if all(derived):
                yield 'names of the core hierarchy stay available', got.Engine.NUM_ENGINES, V.Aircraft.Engine.NUM_ENGINES
        yield 'the core hierarchy is unchanged', tree(V.Aircraft), core
        yield 'the merged hierarchies themselves are unchanged', [tree(c) for c in cls], [_t(s) for s in specs]
    return f


def _t(s):
    return {k: _t(v) if isinstance(v, dict) else v for k, v in s.items()}


def cases():
    out = {f'metadata:{k}': entry(k) for k in CoreMetaData}
    out['hierarchy'] = hierarchy
    opt = ('units', 'desc', 'default_value', 'option', 'types', 'multivalue', 'historical_name')
    for r in (0, 1, 2, 7):
        for g in itertools.combinations(opt, r):
            for u in (False, True):
                out[f'{"update" if u else "add"}:{",".join(g)}'] = add_case(g, u)
    for n in (1, 2, 3):
        for rows in itertools.combinations_with_replacement(list(itertools.product((0, 1, 2), repeat=n)), 2):
            if n < 3 or hash(rows) % 7 == 0 or sum(map(sum, rows)) < 3:
                out[f'merge:{rows}'] = merge_case(rows)
    for field, vals in PAIRS:
        for i in range(len(vals)):
            for j in range(len(vals)):
                if not _same(vals[i], vals[j]):
                    for third in (0, 1):
                        out[f'conflict:{field}:{i}:{j}:{third}'] = single(field, i, j, third)
    for k in ('equal', 'more', 'less'):
        out[f'defaults:{k}'] = numbers(k)
    P = [{'A': 'x:a'}, {'A': 'x:b'}, {'B': 'x:b'}, {'In': {'A': 'x:in:a'}}, {'In': {'B': 'x:in:b'}}, {'In': {'A': 'x:in:z'}}, {'In': {'Deep': {'A': 'd:a'}}}, {'In': {'Deep': {'B': 'd:b'}, 'A': 'x:in:a'}},
         {'In': {'Deep': {'A': 'd:z'}}}, {'Jn': {'A': 'x:jn:a'}, 'A': 'x:a'}]
    for n in (1, 2, 3):
        for c in itertools.permutations(range(len(P)), n):
            out[f'hierarchies:{c}'] = hier_case([P[i] for i in c], [False] * n)
    Q = [{'Wing': {'FLOCKS': 'aircraft:wing:flocks'}}, {'Wing': {'GOATS': 'aircraft:wing:goats'}, 'Test': {'A': 'aircraft:test:a'}}, {'Wing': {'SPAN': 'other'}}, {'Engine': {'COLOR': 'aircraft:engine:color', 'Gearbox': {'EFFICIENCY': 'z'}}},
         {'Engine': {'Gearbox': {'COLOR': 'c'}}}]
    for n in (1, 2, 3):
        for c in itertools.permutations(range(len(Q)), n):
            for der in ([True] * n, [True] + [False] * (n - 1)):
                out[f'extensions of Aircraft:{c}:{sum(der)}'] = hier_case([Q[i] for i in c], der)
    return out
