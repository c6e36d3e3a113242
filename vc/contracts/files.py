"""C15: what is written to a file (data tables, vehicle decks, csv export, sizing results) is what is read back.

Numbers are symbolic on their way through the text: str() of a symbolic number is a token that only float() / int() can read
(vc/data.py), so a contract holds for every number whose decimal text reads back as itself (Python guarantees that for floats)."""
import json
import os
import tempfile
import types
from enum import Enum
from pathlib import Path
import numpy as np
import aviary.core.aviary_problem as ap
import aviary.utils.csv_data_file as cdf
import aviary.utils.functions as fn
import aviary.utils.process_input_decks as pid
import aviary.utils.aviary_inputs_to_csv as a2c
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.enums import ProblemType, Verbosity, LegacyCode
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft, Mission, Settings
from .. import data as D, symarr as S
from ..data import freeze, TOKENS
from ..expr import Node
from .values import kinds_for, units_of, POOL

QUIET = Verbosity.QUIET
MODS = (cdf, fn, pid, a2c)


class tmp:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix='vc15_')
        return Path(self.d.name)

    def __exit__(self, *a):
        self.d.cleanup()


_valid_units = pid.valid_units


def valid_units(x):
    """The text of a number is no unit (OpenMDAO is asked about everything else)."""
    return False if isinstance(x, str) and x.strip('[]') in TOKENS and '[' not in x and ']' not in x else _valid_units(x)


pid.valid_units = valid_units


def snap(c):
    return {k: (freeze(v), u) for k, (v, u) in c.items()}


def num(M, kind, name):
    """A number of the kind: r plain decimal, e exponent notation, i integer."""
    if kind == 'i':
        return M.i(name)
    if kind == 'e':
        if M.symbolic:
            return M.f('exp_' + name)
        return float(f'{M.i("exp_" + name, 1, 9)}e-07')     # its text has an exponent and no decimal point
    return M.f(name)


def leaves(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [leaves(x) for x in v]
    return v


# ------------------------------------------------------------------------------------------------------------ tables
def table_case(cols, rows, outputs, comments, stamp, container='array'):
    """write_data_file followed by read_data_file. cols = [(name, units, number kind)]"""
    def f(M):
        d = NamedValues()
        cont = {}
        for n, (name, u, k) in enumerate(cols):
            v = [num(M, k, f'x{n}_{r}') for r in range(rows)]
            cont[name] = v
            d.set_val(name, M.arr(v) if container == 'array' else tuple(v) if container == 'tuple' else v, u)
        before = snap(d)
        com = freeze(comments)
        outs = freeze(outputs)
        with tmp() as t:
            for path in (t / 'a.csv', str(t / 'b.csv')):
                kw = {} if comments is None else dict(comments=com)
                cdf.write_data_file(path, d, outputs=outs, include_timestamp=stamp, **kw)
                got, ins, ots, coms = cdf.read_data_file(path, save_comments=True, verbosity=QUIET)
                tag = '' if path != str(path) else ' (second file)'
                yield f'names are read back in order{tag}', list(got.keys()), [c[0] for c in cols]
                for name, u, k in cols:
                    yield f'values and units of a column are read back{tag}', (lambda p: (leaves(p[0]), p[1]))(got.get_item(name)), (M.real(cont[name]), u)
                yield f'input and output labels are read back{tag}', [ins, ots], [[], []] if outputs is None else [
                    [c[0] for c in cols if c[0] not in outputs], [c[0] for c in cols if c[0] in outputs]]
                want = [c.lstrip('#').strip() for c in ([] if not comments else [comments] if isinstance(comments, str) else comments)]
                have = coms[1:] if stamp else coms
                yield f'comments are read back{tag}', [c for c in have if c], [c for c in want if c]
                if stamp:
                    yield f'the time stamp is a comment{tag}', coms[0].startswith('created '), True
            yield 'the data written is unchanged', snap(d), before
            yield 'comments and outputs given are unchanged', [com, outs], [freeze(comments), freeze(outputs)]
            if cols[0][0] in CoreMetaData:
                got, _, _ = cdf.read_data_file(t / 'a.csv', metadata=CoreMetaData, verbosity=QUIET)
                yield 'reading with metadata keeps the columns the metadata knows', list(got.keys()), [c[0] for c in cols if c[0] in CoreMetaData]
                for name, u, k in cols:
                    if name in CoreMetaData:
                        base = CoreMetaData[name]['units']
                        yield 'values and units of a known column are read back', (lambda p: (leaves(p[0]), p[1]))(got.get_item(name)), \
                            (M.real(cont[name]), base if u == 'unitless' else u)
    return f


def text(M, x):
    return str(x) if isinstance(x, Node) else repr(x)


def read_case(sep, style, junk):
    """A hand-written table."""
    def f(M):
        names = ['Mach', 'Altitude', 'Thrust']
        units = ['unitless', 'ft', 'lbf']
        lab = {'plain': ['', ' (ft)', ' (lbf)'], 'tight': ['', '(ft)', '(lbf)'], 'spaced': ['', '  ( ft )', ' ( lbf )'],
               'labels': [' (input)', ' (ft, input)', ' (lbf, output)'], 'tightlabels': ['(input)', '(ft,input)', '(lbf,output)']}[style]
        rows = [[num(M, 'rie'[(r + c) % 3], f'x{r}{c}') for c in range(3)] for r in range(3)]
        L = []
        if 'head' in junk:
            L += ['# first comment', '', '   # second comment', '']
        L.append(sep.join(n + l for n, l in zip(names, lab)) + (' # in header' if 'inline' in junk else ''))
        for r in rows:
            L.append(('  ' if 'indent' in junk else '') + sep.join(text(M, x) for x in r) + (sep.strip() if 'trail' in junk else '') + ('   # inline' if 'inline' in junk else ''))
            if 'blank' in junk:
                L += ['', '  # between']
        nl = '\r\n' if 'crlf' in junk else '\n'
        with tmp() as t:
            p = t / 't.csv'
            p.write_bytes((('\ufeff' if 'bom' in junk else '') + nl.join(L) + ('' if 'noeol' in junk else nl)).encode('utf-8'))
            got, ins, outs, com = cdf.read_data_file(p, save_comments=True, verbosity=QUIET)
            three = cdf.read_data_file(p, verbosity=QUIET)
        yield 'the names of the header', list(got.keys()), names
        for c, n in enumerate(names):
            yield 'each cell belongs to the column above it', (lambda q: (leaves(q[0]), q[1]))(got.get_item(n)), (M.real([r[c] for r in rows]), units[c])
        yield 'labels of the header', [ins, outs], [['Mach', 'Altitude'], ['Thrust']] if 'labels' in style else [[], []]
        want = (['first comment', 'second comment'] if 'head' in junk else []) + (['in header'] if 'inline' in junk else [])
        for _ in rows:
            want += (['inline'] if 'inline' in junk else []) + (['between'] if 'blank' in junk else [])
        yield 'all comments', com, want
        yield 'comments are returned only when asked for', len(three), 3
    return f


def alias_case(which):
    ALI = {'aircraft:x': 'Angle of Attack', 'aircraft:y': ['CL', 'lift  coefficient', 'C_L'], 'aircraft:z': ['cd']}
    heads = {'spelled': ['Angle of Attack', 'CL', 'cd'], 'case': ['ANGLE OF ATTACK', 'cl', 'CD'], 'underscore': ['angle_of_attack', 'c_l', 'Cd'], 'mixed': ['Angle_of Attack', 'C L', 'cD'],
             'own': ['angle of attack', 'other', 'CD']}[which]

    def f(M):
        rows = [[num(M, 'r', f'x{r}{c}') for c in range(3)] for r in range(2)]
        with tmp() as t:
            p = t / 't.csv'
            p.write_text(', '.join(heads) + '\n' + '\n'.join(', '.join(text(M, x) for x in r) for r in rows) + '\n')
            got, _, _ = cdf.read_data_file(p, aliases={k: freeze(v) for k, v in ALI.items()}, verbosity=QUIET)
        names = ['aircraft:x', 'other' if which == 'own' else 'aircraft:y', 'aircraft:z']
        yield 'headers are replaced by the variables they are aliases of', list(got.keys()), names
        for c, n in enumerate(names):
            yield 'each cell belongs to the column above it', leaves(got.get_val(n)), M.real([r[c] for r in rows])
    return f


def skip_case(pos, extra):
    """Columns the metadata does not know are skipped, the others keep their values."""
    def f(M):
        known = [(Aircraft.Wing.SPAN, 'm', ' (m)'), (Aircraft.Wing.AREA, CoreMetaData[Aircraft.Wing.AREA]['units'], ''), (Aircraft.Wing.SWEEP, 'rad', ' (rad)')]
        cols = list(known)
        for e in range(extra):
            cols.insert(pos + e, (f'unknown{e}', None, ' (ft)'))
        rows = [[num(M, 'r', f'x{r}{c}') for c in range(len(cols))] for r in range(2)]
        with tmp() as t:
            p = t / 't.csv'
            p.write_text(', '.join(c[0] + c[2] for c in cols) + '\n' + '\n'.join(', '.join(text(M, x) for x in r) for r in rows) + '\n')
            got, _, _ = cdf.read_data_file(p, metadata=CoreMetaData, verbosity=QUIET)
        yield 'only known columns are read', list(got.keys()), [k[0] for k in known]
        for c, (n, u, _) in enumerate(cols):
            if u is not None:
                yield 'a known column keeps its values, in its units or the default ones', (lambda q: (leaves(q[0]), q[1]))(got.get_item(n)), (M.real([r[c] for r in rows]), u)
    return f


def reject_case(M):
    x = [text(M, num(M, 'r', f'x{n}')) for n in range(6)]

    def read(s, **k):
        with tmp() as t:
            p = t / 't.csv'
            p.write_text(s)
            return cdf.read_data_file(p, verbosity=QUIET, **k)
    E = (ValueError, UserWarning, IndexError, TypeError, KeyError)
    yield 'text among the numbers', M.raises(lambda: read(f'a, b\n{x[0]}, {x[1]}\n{x[2]}, abc\n'), E), 'raised'
    yield 'a second header', M.raises(lambda: read(f'a, b\n{x[0]}, {x[1]}\na, b\n'), E), 'raised'
    yield 'units that do not exist', M.raises(lambda: read(f'a (nosuchunit), b\n{x[0]}, {x[1]}\n'), E), 'raised'
    yield 'units incompatible with the metadata', M.raises(lambda: read(f'{Aircraft.Wing.SPAN} (kg), b\n{x[0]}, {x[1]}\n', metadata=CoreMetaData), E), 'raised'
    yield 'a column labelled input and output', M.raises(lambda: read(f'a (input, output), b\n{x[0]}, {x[1]}\n'), E), 'raised'
    yield 'a row that is too short', M.raises(lambda: read(f'a, b, c\n{x[0]}, {x[1]}, {x[3]}\n{x[2]}, {x[3]}\n'), E), 'raised'
    yield 'an empty cell', M.raises(lambda: read(f'a, b, c\n{x[0]}, , {x[1]}\n'), E), 'raised'
    yield 'an empty cell in front of a column that is not read', M.raises(
        lambda: read(f'{Aircraft.Wing.SPAN}, {Aircraft.Wing.AREA}, c\n{x[0]}, , {x[1]}\n', metadata=CoreMetaData), E), 'raised'
    yield 'no data to write', M.raises(lambda: cdf.write_data_file('nowhere.csv'), UserWarning), 'raised'


# ------------------------------------------------------------------------------------------------------------ decks
def deck_values(M, key, meta):
    """[(tag, cells, units or None, expected value as nested list, expected units)]"""
    kind, lists = kinds_for(meta)
    base = meta['units']
    us = [u for u in units_of(base, None)][:5]
    out = []
    if kind == 'float':
        for k in 'rie':
            for u in [None] + us:
                x = num(M, k, f'{k}0')
                out.append((f'{k} {u}', [text(M, x)], u, [M.real(x)] if meta['multivalue'] else M.real(x), u or base))
        if meta['multivalue']:
            for u in (None, us[-1]):
                for ks in ('rr', 'ri', 'ii', 'rer', 'iii'):
                    xs = [num(M, k, f'{k}{n}') for n, k in enumerate(ks)]
                    out.append((f'{ks} {u}', [text(M, x) for x in xs], u, M.real(xs), u or base))
            xs = [num(M, 'r', f'r{n}') for n in range(2)]
            out.append(('bracketed list', ['[' + text(M, xs[0]), text(M, xs[1]) + ']'], us[0], M.real(xs), us[0]))
            out.append(('bracketed list, no units', ['[' + text(M, xs[0]), text(M, xs[1]) + ']'], None, M.real(xs), base))
    elif kind == 'int':
        x = num(M, 'i', 'n0')
        for u in (None, base):
            out.append((f'i {u}', [text(M, x)], u, [x] if meta['multivalue'] else x, base))
        if meta['multivalue']:
            xs = [num(M, 'i', f'n{n}') for n in range(3)]
            out.append(('iii', [text(M, x) for x in xs], base, xs, base))
    elif kind == 'bool':
        for s, v in (('True', True), ('false', False), ('TRUE', True), ('False', False)):
            out.append((s, [s], base if s == 'TRUE' else None, [v] if meta['multivalue'] else v, base))
        if meta['multivalue']:
            out.append(('list', ['True', 'false'], base, [True, False], base))
    elif kind == 'str':
        for s in ('some/file_name.txt', 'abc', 'a b c'):
            out.append((s, [s], base, [s] if meta['multivalue'] else s, base))
    elif kind == 'enum':
        for m in meta['types']:
            for how, s in (('value', str(m.value)), ('name', m.name), ('lower name', m.name.lower())):
                out.append((f'{m.name} {how}', [s], base, [m] if meta['multivalue'] else m, base))
    return out


STYLES = {'plain': lambda n, c, u: f'{n},{",".join(c)}' + (f',{u}' if u else ''),
          'spaces': lambda n, c, u: f'{n} , {" , ".join(c)}' + (f' , {u}' if u else '') + '  # comment, with, commas',
          'trailing commas': lambda n, c, u: f'{n},{",".join(c)}' + (f',{u}' if u else '') + ',,, ',
          'wide sheet': lambda n, c, u: f'{n},,{",".join(c)}' + (f',,{u}' if u else '') + ',\r'}


def deck_case(key, meta):
    def f(M):
        md = M.meta(CoreMetaData)
        for n, (tag, cells, u, want, wu) in enumerate(deck_values(M, key, meta)):
            style = list(STYLES)[n % len(STYLES)]
            with tmp() as t:
                p = t / 'deck.csv'
                p.write_text(f'# a deck\n\n,,,\n{STYLES[style](key, cells, u)}\n')
                av, g = pid.parse_inputs(p, AviaryValues(), {}, md)
            # a single enumeration entry may stand for a list of one
            N = lambda v: [v] if isinstance(want, list) and isinstance(v, Enum) else leaves(v)
            yield f'the deck line gives the value and its units ({tag}, {style})', {k: (N(v), q) for k, (v, q) in av.items()}, {key: (want, wu)}
            yield f'no guesses are made up ({tag})', g, {}
    return f


def deck_pair_case(k1, k2):
    """Lines do not influence each other; a later line for the same variable wins."""
    def f(M):
        md = M.meta(CoreMetaData)
        a, b, c = (num(M, 'r', x) for x in 'abc')
        u1, u2 = (units_of(CoreMetaData[k]['units'], None)[-1] for k in (k1, k2))
        with tmp() as t:
            p = t / 'deck.csv'
            p.write_text(f'{k1},{text(M, a)},{u1}\n{k2},{text(M, b)},{u2}\n')
            prior = AviaryValues()
            prior.set_val('user:other', 3.0, 'ft')
            av, g = pid.parse_inputs(p, prior, {}, md)
            one = {k: (leaves(v), q) for k, (v, q) in av.items()}
            p.write_text(f'{k1},{text(M, a)},{u1}\n{k2},{text(M, b)},{u2}\n{k1},{text(M, c)}\n')
            av, g = pid.parse_inputs(p, None, None, md)
            two = {k: (leaves(v), q) for k, (v, q) in av.items()}
        L = lambda k, x: [M.real(x)] if CoreMetaData[k]['multivalue'] else M.real(x)
        yield 'every line gives its own entry and prior entries stay', one, {'user:other': (3.0, 'ft'), k1: (L(k1, a), u1), k2: (L(k2, b), u2)}
        yield 'the last line for a variable wins', two, {k1: (L(k1, c), CoreMetaData[k1]['units']), k2: (L(k2, b), u2)}
    return f


def guesses_case(M):
    x = {k: num(M, 'rie'[n % 3], f'g{n}') for n, k in enumerate(
        ['actual_takeoff_mass', 'rotation_mass', 'operating_empty_mass', 'fuel_burn_per_passenger_mile', 'cruise_mass_final', 'flight_duration', 'time_to_climb', 'climb_range', 'reserves'])}
    md = M.meta(CoreMetaData)
    for prefix in ('', 'initialization_guesses:'):
        with tmp() as t:
            p = t / 'deck.csv'
            p.write_text(f'{Aircraft.Wing.SPAN},{text(M, num(M, "r", "b"))},m\n' + ''.join(f'{prefix}{k},{text(M, v)}\n' for k, v in x.items()))
            av, g = pid.create_vehicle(str(p), md, QUIET)
        yield f'guesses of the deck are read ({prefix or "plain"})', g, x
        yield f'values next to guesses are read ({prefix or "plain"})', av.get_item(Aircraft.Wing.SPAN), (num(M, 'r', 'b'), 'm')
    a = AviaryValues()
    for k, v in x.items():
        a.set_val('initialization_guesses:' + k, v)
    a.set_val(Aircraft.Wing.SPAN, num(M, 'r', 'b'), 'm', meta_data=md)
    before = snap(a)
    av, g = pid.create_vehicle(a, md, QUIET)
    yield 'guesses of a values container are read', g, x
    yield 'the container given is unchanged', snap(a), before


def vehicle_case(M):
    """Defaults of create_vehicle give way to the deck; the verbosity of the call to the one of the deck only if the call has one."""
    md = M.meta(CoreMetaData)
    x = num(M, 'r', 'x')
    n = num(M, 'i', 'n')
    lines = {Mission.RESERVE_FUEL_MASS_ADDITIONAL: (x, 'kg'), Aircraft.Design.CRUISE_ALTITUDE: (num(M, 'r', 'h'), 'm'), Aircraft.CrewPayload.Design.NUM_PASSENGERS: (n, 'unitless'),
             Mission.RESERVE_FUEL_MARGIN: (num(M, 'r', 'm'), 'unitless')}
    for given in (None, 0, 1, 2, 3, Verbosity.DEBUG, Verbosity.QUIET):
        for deckv in (None, 0, 2, 3):
            for how in ('file', 'container'):
                L = dict(lines)
                if deckv is not None:
                    L[Settings.VERBOSITY] = (Verbosity(deckv), 'unitless')
                L[Settings.PROBLEM_TYPE] = (ProblemType.OFF_DESIGN_MAX_RANGE, 'unitless')
                with tmp() as t:
                    if how == 'file':
                        src = t / 'deck.csv'
                        src.write_text(''.join(f'{k},{v.value if isinstance(v, Enum) else text(M, v)},{u}\n' for k, (v, u) in L.items()))
                    else:
                        src = AviaryValues()
                        for k, (v, u) in L.items():
                            src.set_val(k, v, u, meta_data=md)
                    before = snap(src) if how == 'container' else None
                    import contextlib
                    with open(os.devnull, 'w') as nul, contextlib.redirect_stdout(nul):
                        av, g = pid.create_vehicle(src, md, given)
                    if how == 'container':
                        yield 'the container given is unchanged', snap(src), before
                want = {k: v for k, v in L.items() if k != Settings.VERBOSITY}
                yield f'values of the deck replace the defaults ({how})', {k: av.get_item(k) for k in want}, want
                yield f'verbosity ({how}, call {given!r}, deck {deckv})', av.get_val(Settings.VERBOSITY), \
                    Verbosity(given) if given is not None else Verbosity(deckv) if deckv is not None else Verbosity.BRIEF
    d1, g1 = pid.create_vehicle(AviaryValues(), md, QUIET)
    d1.set_val(Aircraft.Design.CRUISE_ALTITUDE, x, 'm', meta_data=md)
    g1['reserves'] = x
    d2, g2 = pid.create_vehicle(AviaryValues(), md, QUIET)
    yield 'vehicles do not share their defaults', [d2.get_item(Aircraft.Design.CRUISE_ALTITUDE), g2['reserves']], [(25000.0, 'ft'), 0]


def export_case(key, meta):
    """save_to_csv_file followed by parse_inputs."""
    def f(M):
        md = M.meta(CoreMetaData)
        kind, lists = kinds_for(meta)
        u = units_of(meta['units'], None)[-1]
        vals = []
        if kind == 'float':
            vals = [num(M, k, f'{k}0') for k in 'rie']
            if meta['multivalue']:
                xs = [num(M, k, f'{k}{n}') for n, k in enumerate('rer')]
                vals += [xs, tuple(xs), M.arr(xs), M.arr(xs[:1]), [num(M, 'i', 'i0'), num(M, 'i', 'i1')]]
        elif kind == 'int':
            vals = [num(M, 'i', 'i0')] + ([[num(M, 'i', 'i0'), num(M, 'i', 'i1')], M.arr([num(M, 'i', 'i0')])] if meta['multivalue'] else [])
        elif kind == 'bool':
            vals = [True, False] + ([[True, False], np.array([False, True])] if meta['multivalue'] else [])
        elif kind == 'str':
            vals = ['abc', 'models/engines/deck.csv']
        elif kind == 'enum':
            vals = list(meta['types']) + ([list(meta['types'])[:2]] if meta['multivalue'] else [])
        for v in vals:
            a = AviaryValues()
            a.set_val(key, v, u, meta_data=md)
            a.set_val(Aircraft.Wing.ASPECT_RATIO if key != Aircraft.Wing.ASPECT_RATIO else Aircraft.Wing.AREA, num(M, 'r', 'other'), meta_data=md) if False else None
            before = snap(a)
            with tmp() as t:
                p = t / 'deck.csv'
                a2c.save_to_csv_file(p, a)
                b, _ = pid.parse_inputs(p, AviaryValues(), {}, md)
            L = lambda w: (lambda w: w if isinstance(w, list) or not meta['multivalue'] else [w])(leaves(w))
            yield f'an exported value reads back ({type(v).__name__})', {k: (L(w), q) for k, (w, q) in b.items()}, {k: (L(w), q) for k, (w, q) in before.items()}
            yield 'export leaves the values unchanged', snap(a), before
    return f


# ------------------------------------------------------------------------------------------------------------ sizing results
class SymJson:
    """json with symbolic numbers: they travel as tokens (json itself is assumed to round-trip numbers)."""
    @staticmethod
    def _out(x):
        if isinstance(x, Node):
            return '\x00' + D.spell(x)
        if isinstance(x, dict):
            return {k: SymJson._out(v) for k, v in x.items()}
        return [SymJson._out(v) for v in x] if isinstance(x, (list, tuple)) else x

    @staticmethod
    def _in(x):
        if isinstance(x, str) and x[:1] == '\x00':
            return TOKENS[x[1:]]
        if isinstance(x, dict):
            return {k: SymJson._in(v) for k, v in x.items()}
        return [SymJson._in(v) for v in x] if isinstance(x, list) else x

    @staticmethod
    def dump(o, fp, **k):
        json.dump(SymJson._out(o), fp, **k)

    @staticmethod
    def load(fp, **k):
        return SymJson._in(json.load(fp, **k))


class with_json:
    def __init__(self, M):
        self.M = M

    def __enter__(self):
        if self.M.symbolic:
            ap.json = SymJson

    def __exit__(self, *a):
        ap.json = json


def saved(M, av, gross, path):
    for k, (v, u) in list(av.items()):
        if isinstance(v, S.SymArr):
            av._mapping[k] = (S.base(v).view(np.ndarray), u)
    prob = types.SimpleNamespace(model=types.SimpleNamespace(aviary_inputs=av),
                                 get_val=lambda n, units=None: M.arr([gross[n, units]]))
    ap.AviaryProblem.save_results(prob, path)


def results_case(key, meta):
    """save_results followed by _read_sizing_json."""
    def f(M):
        md = M.meta(CoreMetaData)
        kind, lists = kinds_for(meta)
        u = units_of(meta['units'], None)[-1]
        G = {(k, q): M.f(f'{k}|{q}') for k in (Mission.GROSS_MASS, Aircraft.Design.GROSS_MASS) for q in {'lbm', u, 'kg'}}
        vals = []
        if kind == 'float':
            vals = [num(M, k, f'{k}0') for k in 'ri']
            if meta['multivalue']:
                xs = [num(M, k, f'{k}{n}') for n, k in enumerate('rer')]
                vals += [xs, tuple(xs), M.arr(xs), M.arr(xs[:1]), []]
        elif kind == 'int':
            vals = [num(M, 'i', 'i0')] + ([[num(M, 'i', 'i0'), num(M, 'i', 'i1')], M.arr([num(M, 'i', 'i0')])] if meta['multivalue'] else [])
        elif kind == 'bool':
            vals = [True, False] + ([[True, False], np.array([False, True])] if meta['multivalue'] else [])
        elif kind == 'str':
            vals = ['abc', 'models/engines/deck.csv']
            if 'DATA_FILE' in key.upper():
                vals.append(Path('models/engines/deck.csv'))
        elif kind == 'enum':
            vals = list(meta['types']) + ([list(meta['types'])[:2]] if meta['multivalue'] else [])
        for v in vals:
            a = AviaryValues()
            a.set_val(key, v, u, meta_data=md)
            a.set_val('user:unknown', 3.0, 'ft')
            before = snap(a)
            with tmp() as t, with_json(M):
                saved(M, a, G, str(t / 'r.json'))
                yield f'saving leaves the values unchanged ({type(v).__name__})', snap(a), before
                b = ap._read_sizing_json(t / 'r.json', md, QUIET)
            want = {key: before[key]}
            if key in (Mission.GROSS_MASS, Aircraft.Design.GROSS_MASS):
                want[key] = (G[Mission.GROSS_MASS, u], u)
            if key != Aircraft.Design.GROSS_MASS:
                want[Aircraft.Design.GROSS_MASS] = (G[Aircraft.Design.GROSS_MASS, 'lbm'], 'lbm')
            L = lambda w: leaves(w)
            yield f'saved values read back ({type(v).__name__})', {k: (L(w), q) for k, (w, q) in b.items()}, {k: (L(w), q) for k, (w, q) in want.items()}
    return f


def convert_case(M):
    for k, want in (('r', 'real'), ('i', 'int'), ('e', 'real')):
        x = num(M, k, k + '0')
        s = text(M, x)
        yield f'text of a number is the number ({k})', fn.convert_strings_to_data(s), x
        L = [s, 'abc', 'true', 'False', s]
        keep = list(L)
        yield f'a list of texts, entry by entry ({k})', fn.convert_strings_to_data(L), [x, 'abc', True, False, x]
        yield f'the list given is unchanged ({k})', L, keep
    for s in ('abc', 'models/e.csv', 'turbojet', 'e5', 'nan_deck', 'truely', '1a', 'v1.2.3'):
        yield 'any other text stays as it is', fn.convert_strings_to_data(s), s


def cases():
    out = {'convert_strings_to_data': convert_case, 'read_data_file:rejected files': reject_case, 'create_vehicle:guesses': guesses_case, 'create_vehicle': vehicle_case}
    us = [u for u in POOL if u != 'unitless' and '(' not in u]
    for n, u in enumerate(us):
        k = 'rie'[n % 3]
        cols = [('a', u, k), ('b:c', us[(n * 7 + 3) % len(us)], 'rie'[(n + 1) % 3]), ('d', 'unitless', 'r')]
        for m, o in enumerate((None, [], ['d'], ['a', 'd'])):
            com = [None, 'a comment', ['one', '# two', 'three, with (commas)'], ['']][(n + m) % 4]
            out[f'table:{u}:{o}'] = table_case(cols, 1 + (n + m) % 3, o, com, (n + m) % 2 == 0, ['array', 'list', 'tuple'][n % 3])
    for n, (k, m) in enumerate(CoreMetaData.items()):
        if kinds_for(m)[0] == 'float' and n % 6 == 0:
            out[f'table with metadata:{k}'] = table_case([(k, units_of(m['units'], None)[-1], 'r'), ('zzz', 'ft', 'r'), (Aircraft.Wing.SPAN if k != Aircraft.Wing.SPAN else Aircraft.Wing.AREA, 'unitless', 'r')],
                                                         2, None, None, False)
    for sep in (',', ', ', ' , ', ';', '; '):
        for style in ('plain', 'tight', 'spaced', 'labels', 'tightlabels'):
            if sep.strip() == ';' and style in ('labels', 'tightlabels'):
                pass
            for junk in ((), ('head',), ('inline',), ('blank', 'indent'), ('crlf', 'head'), ('bom', 'noeol'), ('trail',), ('trail', 'inline', 'blank')):
                out[f'read:{sep}:{style}:{"+".join(junk)}'] = read_case(sep, style, junk)
    for w in ('spelled', 'case', 'underscore', 'mixed', 'own'):
        out[f'aliases:{w}'] = alias_case(w)
    for pos in range(4):
        for e in (1, 2):
            out[f'unknown columns:{pos}:{e}'] = skip_case(pos, e)
    ks = [k for k, m in CoreMetaData.items() if kinds_for(m)[0] == 'float' and not isinstance(m['types'], tuple)]
    for k, m in CoreMetaData.items():
        out[f'deck:{k}'] = deck_case(k, m)
        out[f'export:{k}'] = export_case(k, m)
        out[f'results:{k}'] = results_case(k, m)
    for n in range(0, len(ks), 5):
        out[f'deck pair:{ks[n]}'] = deck_pair_case(ks[n], ks[(n * 3 + 1) % len(ks)]) if ks[n] != ks[(n * 3 + 1) % len(ks)] else deck_pair_case(ks[n], ks[n - 1])
    return out
