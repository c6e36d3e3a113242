"""C11: named values with units behave as a map of (value, units) pairs."""
import copy
import numpy as np
from enum import Enum
from openmdao.utils.units import unit_conversion, valid_units
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.variable_meta_data import CoreMetaData
from ..data import freeze, Skip
from ..expr import Node

POOL = ['m', 'cm', 'km', 'ft', 'inch', 'NM', 'mi', 'kg', 'g', 'lbm', 't', 'degF', 'degC', 'degK', 'degR', 'Pa', 'kPa', 'bar', 'psi', 'lbf/ft**2', 'N', 'kN', 'lbf',
        'W', 'kW', 'hp', 'rad', 'deg', 's', 'min', 'h', 'J', 'kJ', 'kW*h', 'm**2', 'ft**2', 'm**3', 'ft**3', 'galUS', 'L', 'm/s', 'ft/s', 'kn', 'mi/h', 'ft/min',
        'rad/s', 'deg/s', 'rpm', 'kg/s', 'lbm/h', 'lbm/s', 'kg/m**3', 'lbm/ft**3', '1/rad', '1/deg', 'N*m', 'lbf*ft', 'm/s**2', 'ft/s**2', 'A*h', 'V', 'lbm/ft**2', 'kg/m**2']
POOL += sorted({m['units'] for m in CoreMetaData.values()} - set(POOL) - {'unitless'})


def compatible(u, v):
    if u == v:
        return True
    if u in (None, 'unitless') or v in (None, 'unitless'):
        return False
    try:
        unit_conversion(u, v)
        return True
    except Exception:     # noqa: BLE001
        return False


_UN = {}


def units_of(u, n=4):
    if u not in _UN:
        _UN[u] = [u] + [v for v in POOL if v != u and compatible(u, v)]
    us = _UN[u]
    return us if n is None else us[:n]


def conv(v, u, w):
    """The value in other units, element by element, same container."""
    if u == w or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(conv(x, u, w) for x in v)
    if isinstance(v, np.ndarray):
        a = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            a[i] = conv(v[i], u, w)
        return a
    if isinstance(v, np.generic):
        v = v.item()
    if u in (None, 'unitless') or w in (None, 'unitless'):
        return v
    f, o = unit_conversion(u, w)
    return (v + o) * f


class Trace(dict):
    """The backing dict; records which keys are accessed, so that a contract holds for any other content."""
    def __init__(self, d):
        super().__init__(d)
        self.touched = set()

    def __getitem__(self, k):
        self.touched.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.touched.add(k)
        return super().get(k, d)

    def __setitem__(self, k, v):
        self.touched.add(k)
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self.touched.add(k)
        super().__delitem__(k)

    def __contains__(self, k):
        self.touched.add(k)
        return super().__contains__(k)


def snap(av):
    return {k: (freeze(v), u) for k, (v, u) in av.items()}


def others(M, cls):
    """A collection that already holds unrelated entries."""
    c = cls()
    c.set_val('some:scalar', M.f('prior0'), 'ft')
    c.set_val('some:list', [M.f('prior1'), M.f('prior2')], 'lbm')
    c.set_val('some:text', 'abc')
    return c


FLOATS = ['scalar', 'intscalar', 'list', 'tuple', 'array', 'intlist', 'intarray', 'array1', 'empty', 'array2d']
GEN = ['scalar', 'intscalar', 'list', 'tuple', 'array', 'array2d', 'intarray', 'nested', 'nestedtuple', 'withnone', 'none', 'empty', 'npfloat', 'objarray']


def make(M, kind):
    f, i = M.f, M.i
    return dict(
        scalar=lambda: f('x'), intscalar=lambda: i('n'), list=lambda: [f('x0'), f('x1'), f('x2')], tuple=lambda: (f('x0'), f('x1')),
        array=lambda: M.arr([f('x0'), f('x1'), f('x2')]), array1=lambda: M.arr([f('x0')]), intlist=lambda: [i('n0'), i('n1')],
        intarray=lambda: M.arr([i('n0'), i('n1')]), empty=lambda: [], array2d=lambda: M.arr([[f('x0'), f('x1')], [f('x2'), f('x3')], [f('x4'), f('x5')]]),
        nested=lambda: [[f('x0'), f('x1')], [f('x2')]], nestedtuple=lambda: ((f('x0'),), [f('x1'), f('x2')]), withnone=lambda: [f('x0'), None, f('x1')], none=lambda: None,
        npfloat=lambda: f('x') if M.symbolic else np.float64(f('x')), objarray=lambda: np.array([f('x0'), None], dtype=object))[kind]()


def round_trip(M, cls, key, val, expected, u1, u2s, meta=None, tag=''):
    c = others(M, cls)
    if key in c:
        raise Skip
    prior = snap(c)
    given = freeze(val)
    kw = {} if meta is None else dict(meta_data=meta)
    if isinstance(getattr(c, '_mapping', None), dict):
        c._mapping = Trace(c._mapping)
    c.set_val(key, val, u1, **kw)
    yield f'set_val: the entry is the value and its units{tag}', c.get_item(key), (expected, u1)
    yield f'set_val leaves the object it was given unchanged{tag}', val, given
    for u2 in u2s:
        yield f'get_val: value in {u2} of a value set in {u1}{tag}', c.get_val(key, u2), conv(expected, u1, u2)
    yield f'get_val leaves the entry unchanged{tag}', c.get_item(key), (expected, u1)
    yield f'get_val leaves the object given to set_val unchanged{tag}', val, given
    now = snap(c)
    now.pop(key, None)
    yield f'set_val leaves the other entries unchanged{tag}', now, prior
    yield f'the entry exists{tag}', [key in c, len(c)], [True, len(prior) + 1]
    c.set_val(key, val, u1, **kw)
    yield f'set_val twice is set_val{tag}', [c.get_item(key), len(c)], [(expected, u1), len(prior) + 1]
    c.delete(key)
    yield f'delete removes exactly the entry{tag}', snap(c), prior


def kinds_for(meta):
    t = meta['types'] if isinstance(meta['types'], tuple) else (meta['types'],)
    lists = meta['multivalue'] or list in t or np.ndarray in t or tuple in t
    if any(isinstance(x, type) and issubclass(x, Enum) for x in t):
        return 'enum', lists
    for x, n in ((float, 'float'), (int, 'int'), (bool, 'bool'), (str, 'str')):
        if x in t:
            return n, lists
    return 'any', lists


def key_case(key, meta):
    """All contracts on one variable of the metadata."""
    kind, lists = kinds_for(meta)
    base = meta['units']

    def f(M):
        md = M.meta(CoreMetaData)
        us = units_of(base)
        if kind == 'float':
            ks = ['scalar', 'intscalar'] + (['list', 'array', 'intlist', 'tuple', 'intarray'] if meta['multivalue'] else [])
            if isinstance(meta['types'], tuple):
                ks = ['scalar', 'intscalar', 'list', 'array', 'intlist', 'intarray']
                ks = [k for k in ks if 'scalar' in k or meta['multivalue'] or (list if 'list' in k else np.ndarray) in meta['types']]
            for n, k in enumerate(ks):
                v = make(M, k)
                yield from round_trip(M, AviaryValues, key, v, v if k == 'intscalar' and isinstance(meta['types'], tuple) and int in meta['types'] else M.real(v), us[n % len(us)], us, md, f' ({k})')
        elif kind == 'int':
            for k in ['intscalar'] + (['intlist'] if meta['multivalue'] else []):
                v = make(M, k)
                yield from round_trip(M, AviaryValues, key, v, v, base, [base], md, f' ({k})')
        elif kind == 'bool':
            for v in [True, False] + ([[True, False], np.array([False, True])] if lists else []):
                yield from round_trip(M, AviaryValues, key, v, v, base, [base], md, f' ({type(v).__name__})')
        elif kind == 'str':
            for v in ['abc', ''] + ([['a', 'b']] if lists else []):
                yield from round_trip(M, AviaryValues, key, v, v, base, [base], md, f' ({type(v).__name__})')
        elif kind == 'enum':
            T = meta['types']
            for m in T:
                for how, v in (('member', m), ('value', m.value), ('name', m.name), ('lower-case name', m.name.lower())):
                    yield from round_trip(M, AviaryValues, key, v, m, base, [base], md, f' ({m.name} by {how})')
            if lists:
                ms = list(T)[:2]
                yield from round_trip(M, AviaryValues, key, ms, ms, base, [base], md, ' (list of members)')
                # the value in the collection is each entry converted, in order
                if all(isinstance(m.value, int) for m in ms):
                    yield from round_trip(M, AviaryValues, key, [m.value for m in ms], ms, base, [base], md, ' (list of values)')
        # rejected values leave the collection as it was
        bad = {'float': [('text', 'not a number'), ('dict', {'a': 1.0}), ('object', object())], 'int': [('text', 'x'), ('dict', {}), ('none', None)],
               'bool': [('number', 2.5), ('text', 'False'), ('int', 1)], 'str': [], 'enum': [('unknown name', 'no_such_member'), ('number', 2.5)], 'any': []}[kind]
        if not lists and kind != 'any':
            good = {'float': 1.0, 'int': 1, 'bool': True, 'str': 'a', 'enum': None}[kind]
            if good is not None:
                bad.append(('list', [good, good]))
                bad.append(('array', np.array([good, good])))
        elif kind == 'float':
            bad.append(('list with text', [1.0, 'x']))
        elif kind == 'bool':
            bad += [('list of text', ['False', 'True']), ('list of numbers', [0.5, 0.0])]
        elif kind == 'enum':
            bad.append(('list with a number', [list(meta['types'])[0], 2.5]))
        for tag, v in bad:
            c = others(M, AviaryValues)
            prior = snap(c)
            yield f'set_val rejects a value of the wrong type ({tag})', M.raises(lambda: c.set_val(key, v, base, meta_data=md),
                                                                               (TypeError, ValueError, AttributeError, KeyError)), 'raised'
            yield f'a rejected set_val leaves the collection unchanged ({tag})', snap(c), prior
        ok = {'float': 1.0, 'int': 1, 'bool': True, 'str': 'a', 'enum': None, 'any': 1.0}[kind]
        if kind == 'enum':
            ok = list(meta['types'])[0]
        wrong = [u for u in ('kg', 'ft', 's', 'degK') if base != 'unitless' and not compatible(base, u)]
        for u in wrong[:3] + ['no_such_unit', None]:
            if u == 'no_such_unit' and base == 'unitless':
                continue
            c = others(M, AviaryValues)
            prior = snap(c)
            yield f'set_val rejects incompatible units ({u})', M.raises(lambda: c.set_val(key, ok, u, meta_data=md), (TypeError, ValueError, KeyError)), 'raised'
            yield f'set_val with incompatible units leaves the collection unchanged ({u})', snap(c), prior
    return f


def enum_names_case(key, meta):
    def f(M):
        ms = list(meta['types'])[:2]
        v = [m.name.lower() for m in ms]
        c = AviaryValues()
        c.set_val(key, v, 'unitless', meta_data=M.meta(CoreMetaData))
        yield 'a list of enumeration names is stored entry by entry', c.get_item(key), (ms, 'unitless')
    return f


PAIRS = [('ft', 'm'), ('degF', 'degC'), ('degC', 'degK'), ('lbm', 'kg'), ('kn', 'ft/s'), ('unitless', 'unitless'), ('psi', 'Pa'), ('deg', 'rad'), ('lbm/h', 'kg/s')]


def generic_case(cls, kind):
    def f(M):
        for u, w in PAIRS:
            v = make(M, kind)
            yield from round_trip(M, cls, 'any:name', v, v, u, [u, w] + units_of(u, 3) if u != 'unitless' else [u], None, f' ({kind})')
        for u in (None, 3, ['ft']):
            c = others(M, cls)
            prior = snap(c)
            yield f'set_val rejects units that are not text ({u})', M.raises(lambda: c.set_val('k', 1.0, u), TypeError), 'raised'
            yield f'get_val rejects units that are not text ({u})', M.raises(lambda: c.get_val('some:scalar', u), TypeError), 'raised'
            yield f'the collection is unchanged ({u})', snap(c), prior
        c = others(M, cls)
        yield 'get_val of a missing name', M.raises(lambda: c.get_val('missing', 'ft'), KeyError), 'raised'
        yield 'get_item of a missing name', M.raises(lambda: c.get_item('missing'), KeyError), 'raised'
        yield 'delete of a missing name', M.raises(lambda: c.delete('missing'), KeyError), 'raised'
        yield 'incompatible units in get_val', M.raises(lambda: c.get_val('some:scalar', 'kg'), (TypeError, ValueError)), 'raised'
    return f


def _entries(M, tag, ks):
    return {k: (M.f(f'{tag}.{n}') if n % 2 == 0 else [M.f(f'{tag}.{n}a'), M.f(f'{tag}.{n}b')], ['ft', 'kg', 'unitless', 'degC'][n % 4]) for n, k in enumerate(ks)}


def union_case(cls, form, ka, kb, kc=()):
    """a.update(b, **kw) and the constructor: the right-most entry wins, nothing else changes, arguments stay as they were."""
    def f(M):
        A, B, K = _entries(M, 'a', ka), _entries(M, 'b', kb), _entries(M, 'c', kc)
        b = {'dict': dict, 'items': lambda d: list(d.items()), 'generator': lambda d: iter(list(d.items())), 'NamedValues': NamedValues, 'AviaryValues': AviaryValues,
             'itemsview': lambda d: d.items(), 'none': lambda d: None}[form](B)
        eff = {} if form == 'none' else B
        a = cls(A)
        yield 'constructor from a dict', snap(a), A
        a.update(b, **K)
        yield 'update: right-biased union', snap(a), {**A, **eff, **K}
        if form in ('NamedValues', 'AviaryValues'):
            yield 'update leaves its argument unchanged', snap(b), B
        elif form == 'dict':
            yield 'update leaves its argument unchanged', b, B
        b2 = {'dict': dict, 'items': lambda d: list(d.items()), 'generator': lambda d: iter(list(d.items())), 'NamedValues': NamedValues, 'AviaryValues': AviaryValues,
              'itemsview': lambda d: d.items(), 'none': lambda d: None}[form](B)
        n = cls(b2, **K)
        yield 'constructor: right-biased union', snap(n), {**eff, **K}
        if form in ('NamedValues', 'AviaryValues'):
            n.set_val('fresh', 1.0, 'ft')
            yield 'a new collection is independent of the one it was made from', snap(b2), B
        yield 'iteration, keys, values and items agree', [list(a), list(a.keys()), list(a.values()), len(a), all(k in a for k in a.keys())], \
            [list(a.items()), [k for k, _ in a.items()], [v for _, v in a.items()], len({**A, **eff, **K}), True]
        a.clear()
        yield 'clear empties the collection', [snap(a), len(a)], [{}, 0]
    return f


def copy_case(cls, how):
    def f(M):
        A = _entries(M, 'a', ['k0', 'k1', 'k2', 'k3'])
        a = cls(A)
        b = {'copy': lambda: a.copy(), 'deepcopy': lambda: a.deepcopy(), 'copy.deepcopy': lambda: copy.deepcopy(a), 'constructor': lambda: cls(a)}[how]()
        yield 'a copy has the same entries and class', [snap(b), type(b).__name__], [A, cls.__name__]
        b.set_val('k0', M.f('new'), 'm')
        b.set_val('extra', M.f('new2'), 'm')
        b.delete('k2')
        yield 'changing the copy leaves the original unchanged', snap(a), A
        yield 'the copy holds the changes', snap(b), {'k0': (M.f('new'), 'm'), 'k1': A['k1'], 'k3': A['k3'], 'extra': (M.f('new2'), 'm')}
        S = snap(b)
        a.set_val('k1', M.f('new3'), 'm')
        a.clear()
        yield 'changing the original leaves the copy unchanged', snap(b), S
        if how in ('deepcopy', 'copy.deepcopy'):
            a = cls(_entries(M, 'a', ['k0', 'k1']))
            b = a.deepcopy() if how == 'deepcopy' else copy.deepcopy(a)
            b.get_item('k1')[0][0] = M.f('poked')
            yield 'a deep copy shares no list with the original', snap(a), _entries(M, 'a', ['k0', 'k1'])
    return f


def cases():
    out = {}
    for k, m in CoreMetaData.items():
        out[f'AviaryValues:{k}'] = key_case(k, m)
        kind, lists = kinds_for(m)
        if kind == 'enum' and lists:
            out[f'AviaryValues:{k}:names'] = enum_names_case(k, m)
    for cls in (NamedValues, AviaryValues):
        for kind in GEN:
            out[f'{cls.__name__}:any name:{kind}'] = generic_case(cls, kind)
        for form in ('dict', 'items', 'generator', 'itemsview', 'NamedValues', 'AviaryValues', 'none'):
            for n, (ka, kb, kc) in enumerate([((), (), ()), (('k0',), ('k0',), ()), (('k0', 'k1'), ('k1', 'k2'), ()), (('k0', 'k1', 'k2'), ('k2', 'k3', 'k0'), ('k1', 'k3')),
                                              ((), ('k0', 'k1', 'k2'), ('k3',)), (('k0', 'k1'), (), ('k1',))]):
                out[f'{cls.__name__}:union:{form}:{n}'] = union_case(cls, form, ka, kb, kc)
        for how in ('copy', 'deepcopy', 'copy.deepcopy', 'constructor'):
            out[f'{cls.__name__}:{how}'] = copy_case(cls, how)
    return out
