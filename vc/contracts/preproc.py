"""C12: preprocessing makes the options consistent and keeps what the user specified."""
import itertools
import warnings
import numpy as np
from aviary.utils.aviary_values import AviaryValues
from aviary.utils import preprocessors as PP
from aviary.subsystems.propulsion.engine_model import EngineModel
from aviary.variable_info.enums import AircraftTypes, AtmosphereModel, GASPEngineType, LegacyCode, ProblemType, Verbosity
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft, Mission, Settings
from ..data import Skip
from .values import conv, snap
from .. import env, expr as E

CP = Aircraft.CrewPayload
MIS = [CP.NUM_PASSENGERS, CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS]
DES = [CP.Design.NUM_PASSENGERS, CP.Design.NUM_FIRST_CLASS, CP.Design.NUM_BUSINESS_CLASS, CP.Design.NUM_ECONOMY_CLASS]
QUIET, DEBUG = Verbosity.QUIET, Verbosity.DEBUG


def run(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def base(method, **more):
    av = AviaryValues()
    av.set_val(Settings.MASS_METHOD, method)
    av.set_val(Settings.VERBOSITY, more.pop('verbosity', QUIET))
    av.set_val('user:unrelated', 3.25, 'ft')
    return av


def truth(c):
    """Branch of the specification on a condition of the values."""
    return bool(c)


def ge(a, b): return E.le(E.lift(b), E.lift(a)) if isinstance(a, E.Node) or isinstance(b, E.Node) else a >= b


def passengers_spec(given):
    """The counts after preprocessing, from the counts the user gave for one of mission / design."""
    tot, cls = given[0], given[1:]
    s = 0
    for c in cls:
        s = s + c
    if truth(tot != s):
        if truth(s == 0):
            return [tot, cls[0], cls[1], tot]
        return [s] + list(cls)
    return [tot] + list(cls)


def passengers_case(method, mask, verbosity):
    """mask: which of the 8 (4 mission, 4 design) counts the user gives."""
    def f(M):
        keys = MIS + DES
        av = base(method, verbosity=verbosity)
        vals = {}
        for n, (k, on) in enumerate(zip(keys, mask)):
            if on:
                vals[k] = M.i(f'n{n}', 0, 6)
                M.assume(ge(vals[k], 0))
                av.set_val(k, vals[k])
        if method is LegacyCode.GASP:
            av.set_val(CP.MASS_PER_PASSENGER_WITH_BAGS, 200.0, 'lbm')
        before = snap(av)
        r = run(PP.preprocess_crewpayload, av, CoreMetaData, verbosity)
        yield 'the collection given is the one changed', r is av, True
        m, d = [vals.get(k, 0) for k in MIS], [vals.get(k, 0) for k in DES]
        nk = 4 if method is LegacyCode.FLOPS else 1
        if method is LegacyCode.GASP:
            if any(k in vals for k in MIS[1:] + DES[1:]):
                raise Skip
        if not any(k in vals for k in MIS[:nk]):
            m = d
        elif not any(k in vals for k in DES[:nk]):
            d = m
        em, ed = passengers_spec(m), passengers_spec(d)
        got = lambda k: av.get_val(k)
        if method is LegacyCode.FLOPS:
            yield 'mission passengers: total and classes', [got(k) for k in MIS], em
            yield 'design passengers: total and classes', [got(k) for k in DES], ed
            yield 'mission passengers: the total is the sum of the classes', got(MIS[0]), got(MIS[1]) + got(MIS[2]) + got(MIS[3])
            yield 'design passengers: the total is the sum of the classes', got(DES[0]), got(DES[1]) + got(DES[2]) + got(DES[3])
        else:
            yield 'passenger totals', [got(MIS[0]), got(DES[0])], [m[0], d[0]]
        now = snap(av)
        yield 'unrelated entries are unchanged', {k: now[k] for k in ('user:unrelated', Settings.MASS_METHOD)}, {k: before[k] for k in ('user:unrelated', Settings.MASS_METHOD)}
        run(PP.preprocess_crewpayload, av, CoreMetaData, verbosity)
        yield 'preprocessing again changes nothing', snap(av), now
    return f


def crew_case(given, verbosity):
    """FLOPS crew rules; given: which crew numbers the user supplies ('n' = non-negative, '-' = negative, '' = absent)."""
    fa, gc, fc, cc = given

    def f(M):
        av = base(LegacyCode.FLOPS, verbosity=verbosity)
        pax = M.i('pax', 0, 600)
        M.assume(ge(pax, 0))
        av.set_val(CP.Design.NUM_PASSENGERS, pax)
        av.set_val(CP.Design.NUM_ECONOMY_CLASS, pax)
        v = {}
        for nm, k, how in (('fa', CP.NUM_FLIGHT_ATTENDANTS, fa), ('gc', CP.NUM_GALLEY_CREW, gc), ('fc', CP.NUM_FLIGHT_CREW, fc), ('cc', CP.NUM_CABIN_CREW, cc)):
            if how:
                v[nm] = M.i(nm, 0, 9) if how == 'n' else -1
                if how == 'n':
                    M.assume(ge(v[nm], 0))
                av.set_val(k, v[nm])
        run(PP.preprocess_crewpayload, av, CoreMetaData, verbosity)
        if fa == 'n':
            efa = v['fa']
        else:
            efa = 0 if truth(pax <= 0) else 1 if truth(pax < 51) else pax // 40 + 1
        if gc == 'n':
            egc = v['gc']
        else:
            egc = 0 if truth(pax <= 150) else pax // 250 + 1
        efc = v['fc'] if fc else 2 if truth(pax < 151) else 3
        yield 'flight attendants', av.get_val(CP.NUM_FLIGHT_ATTENDANTS), efa
        yield 'galley crew', av.get_val(CP.NUM_GALLEY_CREW), egc
        yield 'flight crew', av.get_val(CP.NUM_FLIGHT_CREW), efc
        if cc:
            yield 'cabin crew is flight attendants plus galley crew', av.get_val(CP.NUM_CABIN_CREW), efa + egc
        else:
            yield 'cabin crew is not invented', CP.NUM_CABIN_CREW in av, False
    return f


def baggage_case(unit, give):
    def f(M):
        av = base(LegacyCode.FLOPS)
        rng = M.f('range', 0.0, 6000.0)
        M.assume(ge(rng, 0.0))
        if unit:
            av.set_val(Aircraft.Design.RANGE, rng, unit)
        b = M.f('bag', 10.0, 60.0)
        if give:
            av.set_val(CP.BAGGAGE_MASS_PER_PASSENGER, b, 'kg')
        run(PP.preprocess_crewpayload, av, CoreMetaData, QUIET)
        if give:
            yield 'baggage the user specified is kept', av.get_item(CP.BAGGAGE_MASS_PER_PASSENGER), (b, 'kg')
        else:
            r = conv(rng, unit, 'NM') if unit else 0.0
            e = 35.0 if truth(r <= 900.0) else 40.0 if truth(r <= 2900.0) else 44.0
            yield 'baggage per passenger grows with the design range', av.get_val(CP.BAGGAGE_MASS_PER_PASSENGER, 'lbm'), e
    return f


def cargo_case(mask, problem, units):
    def f(M):
        av = base(LegacyCode.GASP)
        if problem is not None:
            av.set_val(Settings.PROBLEM_TYPE, problem)
        av.set_val(CP.MASS_PER_PASSENGER_WITH_BAGS, 200.0, 'lbm')
        K = [CP.CARGO_MASS, CP.Design.MAX_CARGO_MASS, CP.Design.CARGO_MASS]
        x = {}
        for n, (k, on, u) in enumerate(zip(K, mask, units)):
            if on:
                g = M.f(f'c{n}', 0.0, 100.0)
                M.assume(ge(g, 0.0))
                av.set_val(k, g, u)
                x[n] = conv(g, u, 'lbm')
        c, mx, d = x.get(0), x.get(1), x.get(2)
        if mask == (1, 1, 1) and problem in (None, ProblemType.SIZING):
            c = d
        if mask == (1, 1, 0):
            d = mx
        elif mask == (1, 0, 1):
            mx = d
        elif mask == (1, 0, 0):
            d = mx = c
        elif mask == (0, 1, 1):
            c = 0
        elif mask == (0, 1, 0):
            c = d = 0
        elif mask == (0, 0, 1):
            mx, c = d, 0
        elif mask == (0, 0, 0):
            c = mx = d = 0
        if truth(E.lt(E.lift(mx), E.lift(c)) if M.symbolic else c > mx) or truth(E.lt(E.lift(mx), E.lift(d)) if M.symbolic else d > mx):
            yield 'cargo above the maximum is rejected', M.raises(lambda: run(PP.preprocess_crewpayload, av, CoreMetaData, QUIET), UserWarning), 'raised'
            return
        run(PP.preprocess_crewpayload, av, CoreMetaData, QUIET)
        for k, e, nm in zip(K, (c, mx, d), ('cargo', 'maximum cargo', 'design cargo')):
            yield nm, av.get_val(k, 'lbm'), M.real(e) if not isinstance(e, int) else float(e)
    return f


def bags_case(give, units):
    def f(M):
        av = base(LegacyCode.GASP)
        a, b, t = M.f('pax', 100.0, 220.0), M.f('bag', 10.0, 60.0), M.f('with', 150.0, 260.0)
        av.set_val(CP.MASS_PER_PASSENGER, a, units[0])
        av.set_val(CP.BAGGAGE_MASS_PER_PASSENGER, b, units[1])
        if give:
            av.set_val(CP.MASS_PER_PASSENGER_WITH_BAGS, t, units[0])
        run(PP.preprocess_crewpayload, av, CoreMetaData, QUIET)
        got = av.get_val(CP.MASS_PER_PASSENGER_WITH_BAGS, 'lbm')
        yield 'mass per passenger with bags', got, conv(t, units[0], 'lbm') if give else conv(a, units[0], 'lbm') + conv(b, units[1], 'lbm')
    return f


def fuel_case(mask, units):
    """mask: total, wing, fuselage, auxiliary given."""
    K = [Aircraft.Fuel.MAX_CAPACITY_MASS, Aircraft.Fuel.WING_FUEL_MASS_CAPACITY, Aircraft.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY]

    def f(M):
        av = base(LegacyCode.FLOPS)
        x = {}
        for n, (k, on) in enumerate(zip(K, mask)):
            if on:
                v = float(M.i(f'm{n}', 1, 5)) if not M.symbolic else M.f(f'm{n}')
                M.assume(ge(v, 0.0))
                av.set_val(k, v, units)
                x[n] = conv(v, units, 'lbm')
        before = snap(av)
        if not mask[0]:
            run(PP.preprocess_fuel_capacities, av, QUIET)
            for n in (2, 3):
                yield f'{K[n]} defaults to zero', av.get_val(K[n], 'lbm'), x.get(n, 0.0)
            now = snap(av)
            yield 'nothing else changes', {k: now[k] for k in before}, before
            return
        s = 0.0
        for n in (1, 2, 3):
            if n in x:
                s = s + x[n]
        full = all(mask[1:])
        bad = truth(s != x[0]) if full else truth(E.lt(E.lift(x[0]), E.lift(s)) if M.symbolic else s > x[0])
        if bad:
            yield 'inconsistent fuel capacities are rejected', M.raises(lambda: run(PP.preprocess_fuel_capacities, av, QUIET), UserWarning), 'raised'
        else:
            run(PP.preprocess_fuel_capacities, av, QUIET)
        yield 'fuel capacities the user gave are kept', snap(av), before
    return f


def engines(M, av, masks, sizes=(0, 4)):
    """Engine models with the engine counts the masks select; returns models and {key: [value or None]}."""
    en = Aircraft.Engine
    K = [en.NUM_ENGINES, en.NUM_WING_ENGINES, en.NUM_FUSELAGE_ENGINES]
    ms, given = [], {k: [] for k in K}
    for i, mask in enumerate(masks):
        o = AviaryValues()
        o.set_val(Settings.VERBOSITY, QUIET)
        for k, on in zip(K, mask):
            v = None
            if on:
                v = M.i(f'{k.split(":")[-1]}{i}', *sizes)
                M.assume(ge(v, 0))
                o.set_val(k, v)
            given[k].append(v)
        ms.append(EngineModel(f'type{i}', o))
    return K, ms, given


def engine_count_case(masks, via, verbosity):
    """Engine counts of every type: total = wing + fuselage; what the user placed stays placed."""
    def f(M):
        en = Aircraft.Engine
        av = base(LegacyCode.FLOPS, verbosity=verbosity)
        K, ms, given = engines(M, av, masks)
        if via == 'vehicle':
            # the same counts given for the vehicle, one entry per type
            for k in K:
                if any(v is not None for v in given[k]):
                    av.set_val(k, [0 if v is None else v for v in given[k]] if M.symbolic else np.array([0 if v is None else v for v in given[k]]))
                    given[k] = [0 if v is None else v for v in given[k]]
            o = AviaryValues()
            o.set_val(Settings.VERBOSITY, QUIET)
            ms = [EngineModel(f'type{i}', o) for i in range(len(masks))]
        run(PP.preprocess_propulsion, av, ms, CoreMetaData, verbosity)
        got = [list(av.get_val(k)) for k in K]
        dflt = [CoreMetaData[k]['default_value'] for k in K]
        any_given = {k: any(v is not None for v in given[k]) for k in K}
        tot = [0, 0, 0]
        for i in range(len(masks)):
            n, w, fu = [(given[k][i] if given[k][i] is not None else (dflt[j] if any_given[k] else 0)) for j, k in enumerate(K)]
            N, W, F = got[0][i], got[1][i], got[2][i]
            yield f'type {i}: engines = wing engines + fuselage engines', N, W + F
            c = w + fu
            if truth(c == 0):
                eW, eF, eN = (n, 0, n) if truth(ge(n, 2)) else (0, n, n)
            elif truth(ge(c, n)):
                eW, eF, eN = w, fu, c
            elif truth(ge(n - c, 2)):
                eW, eF, eN = w + (n - c), fu, n
            else:
                eW, eF, eN = w, fu + (n - c), n
            yield f'type {i}: engine counts', [N, W, F], [eN, eW, eF]
            tot = [a + b for a, b in zip(tot, (N, W, F))]
        P = Aircraft.Propulsion
        yield 'vehicle totals are the sums over the types', [av.get_val(k) for k in (P.TOTAL_NUM_ENGINES, P.TOTAL_NUM_WING_ENGINES, P.TOTAL_NUM_FUSELAGE_ENGINES)], tot
        now = snap(av)
        run(PP.preprocess_propulsion, av, ms, CoreMetaData, verbosity)
        if via == 'vehicle':
            yield 'preprocessing again changes nothing', {k: (_plain(v), u) for k, (v, u) in snap(av).items()}, {k: (_plain(v), u) for k, (v, u) in now.items()}
    return f


def _plain(a):
    return a.tolist() if isinstance(a, np.ndarray) else list(a) if isinstance(a, (list, tuple)) else a


def vector_case(var, layout):
    """layout: per engine type 'own' (given by the engine model), 'own2' (in other units), 'none'; last entry: vehicle level None / 'scalar' / 'list' / 'short'."""
    *per, veh = layout
    meta = CoreMetaData[var]
    u = meta['units']

    def val(M, name, k):
        t = meta['types'] if not isinstance(meta['types'], tuple) else float
        if t == float:
            return M.f(name, 1.0, 50.0)
        if t == int:
            return M.i(name, 1, 4)
        if t == bool:
            return k % 2 == 0
        if t == str:
            return f'text{k}'
        return list(t)[k % len(list(t))]

    def f(M):
        from .values import units_of
        u2 = (units_of(u) + [u])[1] if meta['types'] == float else u
        av = base(LegacyCode.FLOPS)
        if var not in (Aircraft.Engine.NUM_ENGINES, Aircraft.Engine.NUM_WING_ENGINES, Aircraft.Engine.NUM_FUSELAGE_ENGINES):
            av.set_val(Aircraft.Engine.NUM_ENGINES, [2] * len(per))
        else:
            raise Skip
        n = len(per)
        veh_val = None
        if veh == 'scalar':
            veh_val = val(M, 'veh', 1)
        elif veh == 'list':
            veh_val = [val(M, f'veh{i}', i) for i in range(n)]
        elif veh == 'short':
            veh_val = [val(M, f'veh{i}', i) for i in range(2)]
        if veh_val is not None:
            av.set_val(var, veh_val, u2)
        ms, exp = [], []
        for i, how in enumerate(per):
            o = AviaryValues()
            o.set_val(Settings.VERBOSITY, QUIET)
            if how != 'none':
                v = val(M, f'own{i}', i + 1)
                o.set_val(var, v, u2 if how == 'own2' else u)
                exp.append(conv(v, u2, u) if how == 'own2' else v)
            elif veh == 'scalar':
                exp.append(conv(veh_val, u2, u))
            elif veh in ('list', 'short'):
                exp.append(conv(veh_val[i], u2, u) if i < len(veh_val) else meta['default_value'])
            else:
                exp.append(meta['default_value'])
            if exp[-1] is None:
                raise Skip        # no default: the entry is not defined
            ms.append(EngineModel(f'type{i}', o))
        run(PP.preprocess_propulsion, av, ms, CoreMetaData, QUIET)
        got, gu = av.get_item(var)
        yield 'units of the vectorised variable', gu, u
        yield 'one entry per engine type, in order', _plain(got), [M.real(x) if meta['types'] == float and x is not None else x for x in exp]
        for i, how in enumerate(per):
            if how != 'none':
                yield f'engine model {i} keeps its own value', M.real(_plain(ms[i].get_val(var, u))), M.real(exp[i])
            else:
                yield f'engine model {i} is not given a value', var in ms[i].options, False
    return f


def locations_case(layout):
    """Wing locations: one entry per engine pair, concatenated in the order of the engine types."""
    def f(M):
        en = Aircraft.Engine
        av = base(LegacyCode.FLOPS)
        ms, exp = [], []
        for i, n in enumerate(layout):
            o = AviaryValues()
            o.set_val(Settings.VERBOSITY, QUIET)
            o.set_val(en.NUM_ENGINES, 2 * max(n, 1))
            if n:
                v = [M.f(f'y{i}{k}', 0.0, 1.0) for k in range(n)]
                o.set_val(en.WING_LOCATIONS, v)
                exp += v
            else:
                exp.append(0.0)
            ms.append(EngineModel(f'type{i}', o))
        run(PP.preprocess_propulsion, av, ms, CoreMetaData, QUIET)
        yield 'wing locations of all types in order', _plain(av.get_val(en.WING_LOCATIONS)), exp
    return f


def locations_vehicle_case(ntypes):
    def f(M):
        en = Aircraft.Engine
        av = base(LegacyCode.FLOPS)
        v = [M.f(f'y{k}', 0.0, 1.0) for k in range(ntypes + 1)]
        av.set_val(en.WING_LOCATIONS, v)
        av.set_val(en.NUM_ENGINES, [4] + [2] * (ntypes - 1))
        o = AviaryValues()
        o.set_val(Settings.VERBOSITY, QUIET)
        run(PP.preprocess_propulsion, av, [EngineModel(f'type{i}', o) for i in range(ntypes)], CoreMetaData, QUIET)
        yield 'wing locations given for the vehicle are kept', _plain(av.get_val(en.WING_LOCATIONS)), v
    return f


def options_case(method, design, layout, given, verbosity):
    """preprocess_options: defaults fill gaps only; references follow the geometry they default to."""
    W, Fu = Aircraft.Wing, Aircraft.Fuselage

    def f(M):
        av = base(method, verbosity=verbosity)
        if design is not None:
            av.set_val(Aircraft.Design.TYPE, design)
        if layout is not None:
            av.set_val(Fu.SIMPLE_LAYOUT, layout)
        av.set_val(CP.MASS_PER_PASSENGER_WITH_BAGS, 200.0, 'lbm')
        user = {}
        for n, (k, u) in enumerate(((W.ASPECT_RATIO, 'unitless'), (W.THICKNESS_TO_CHORD, 'unitless'), (Fu.SEAT_WIDTH_ECONOMY, 'cm'), (Fu.SEAT_WIDTH_BUSINESS, 'inch'),
                                    (Fu.SEAT_WIDTH_FIRST, 'ft'), (Mission.GRAVITY, 'm/s**2'), (Mission.SEA_LEVEL_DENSITY, 'kg/m**3'), (Aircraft.Design.PERCENT_EXCRESCENCE_DRAG, 'unitless'))):
            if given[n]:
                user[k] = (M.f(f'v{n}', 0.1, 20.0), u)
                av.set_val(k, *user[k])
        for k, n in ((W.ASPECT_RATIO_REFERENCE, 8), (W.THICKNESS_TO_CHORD_REFERENCE, 9)):
            if given[n] == 2:
                user[k] = (M.f(f'v{n}', 0.1, 20.0), 'unitless')
                M.assume(ge(user[k][0], 0.01))
                av.set_val(k, *user[k])
            elif given[n] == 1:
                av.set_val(k, 0.0, 'unitless')
        if given[10]:
            av.set_val(Settings.AERODYNAMICS_METHOD, LegacyCode.FLOPS if given[10] == 1 else LegacyCode.GASP)
        run(PP.preprocess_options, av, CoreMetaData, verbosity)
        for k, v in user.items():
            yield f'{k}: the value of the user is kept', av.get_item(k), v
        for k, g, n in ((W.ASPECT_RATIO_REFERENCE, W.ASPECT_RATIO, 8), (W.THICKNESS_TO_CHORD_REFERENCE, W.THICKNESS_TO_CHORD, 9)):
            if given[n] == 1 and g in user:
                yield f'{k} left at zero takes the actual value', av.get_val(k), user[g][0]
            elif given[n] == 0:
                yield f'{k} is not invented', k in av, False
        sl = layout if layout is not None else not (method is LegacyCode.GASP and design is AircraftTypes.BLENDED_WING_BODY)
        yield 'cabin layout', av.get_val(Fu.SIMPLE_LAYOUT), sl
        seat = None
        if not sl and method is LegacyCode.FLOPS and design in (None, AircraftTypes.TRANSPORT):
            seat = (20.0, 22.0, 25.0)
        if not sl and method is LegacyCode.GASP and design is AircraftTypes.BLENDED_WING_BODY:
            seat = (20.0, 22.0, 28.0)
        for k, n in ((Fu.SEAT_WIDTH_ECONOMY, 0), (Fu.SEAT_WIDTH_BUSINESS, 1), (Fu.SEAT_WIDTH_FIRST, 2)):
            if k not in user:
                if seat:
                    yield f'{k} default', av.get_val(k, 'inch'), seat[n]
                else:
                    yield f'{k} is not invented', k in av, False
        if Aircraft.Design.PERCENT_EXCRESCENCE_DRAG not in user:
            if given[10] == 1:
                yield 'excrescence drag default', av.get_val(Aircraft.Design.PERCENT_EXCRESCENCE_DRAG), 0.06
            else:
                yield 'excrescence drag is not invented', Aircraft.Design.PERCENT_EXCRESCENCE_DRAG in av, False
        if Mission.GRAVITY not in user:
            yield 'gravity of the planet', av.get_val(Mission.GRAVITY, 'm/s**2'), 9.80665, 1e-4
        if Mission.SEA_LEVEL_DENSITY not in user:
            yield 'density of the planet at sea level', av.get_val(Mission.SEA_LEVEL_DENSITY, 'kg/m**3'), 1.225, 2e-3
    return f


def gravity_case(model):
    def f(M):
        from aviary.subsystems.atmosphere.utils.get_atmosphere_data import get_atmosphere_data
        av = base(LegacyCode.FLOPS)
        av.set_val(Settings.ATMOSPHERE_MODEL, model)
        run(PP.preprocess_options, av, CoreMetaData, QUIET)
        _, _, _, g, rho = get_atmosphere_data(model)
        yield 'gravity belongs to the atmosphere model', av.get_item(Mission.GRAVITY), tuple(g)
        yield 'density belongs to the atmosphere model', av.get_item(Mission.SEA_LEVEL_DENSITY), tuple(rho)
    return f


def cases():
    out = {}
    F, G = LegacyCode.FLOPS, LegacyCode.GASP
    for v in (QUIET, DEBUG):
        for m in itertools.product((0, 1), repeat=8):
            if v is QUIET and (env.TIER == 'thorough' or sum(m) not in (4, 5, 6) or m[:3] == m[3:6]) or sum(m) in (0, 1, 2, 8):
                out[f'passengers:FLOPS:{"".join(map(str, m))}:{v.name}'] = passengers_case(F, m, v)
        for a, b in itertools.product((0, 1), repeat=2):
            out[f'passengers:GASP:{a}{b}:{v.name}'] = passengers_case(G, (a, 0, 0, 0, b, 0, 0, 0), v)
    for g in itertools.product(('', 'n', '-'), ('', 'n', '-'), ('', 'n'), ('', 'n')):
        out[f'crew:{"/".join(x or "absent" for x in g)}'] = crew_case(g, QUIET)
    for u in (None, 'NM', 'km', 'mi'):
        for give in (0, 1):
            out[f'baggage:{u}:{give}'] = baggage_case(u, give)
    for m in itertools.product((0, 1), repeat=3):
        for p in (None, ProblemType.SIZING, ProblemType.OFF_DESIGN_MAX_RANGE):
            for us in (('lbm', 'lbm', 'lbm'), ('kg', 'lbm', 'g')):
                out[f'cargo:{m}:{p}:{us}'] = cargo_case(m, p, us)
    for give in (0, 1):
        for us in (('lbm', 'lbm'), ('kg', 'lbm'), ('lbm', 'kg')):
            out[f'passenger mass with bags:{give}:{us}'] = bags_case(give, us)
    for m in itertools.product((0, 1), repeat=4):
        for u in ('lbm', 'kg'):
            out[f'fuel capacities:{m}:{u}'] = fuel_case(m, u)
    masks = list(itertools.product((0, 1), repeat=3))
    for m in masks:
        for via in ('model', 'vehicle'):
            for v in (QUIET, DEBUG):
                out[f'engine counts:{m}:{via}:{v.name}'] = engine_count_case((m,), via, v)
    for a, b in itertools.product(masks, masks):
        out[f'engine counts:{a}{b}:model'] = engine_count_case((a, b), 'model', QUIET)
    for a in masks if env.TIER == 'thorough' else [m for m in masks if sum(m) < 2]:
        out[f'engine counts:{a}{a}:vehicle'] = engine_count_case((a, a), 'vehicle', QUIET)
    from aviary.utils.preprocessors import _get_engine_variables
    for var in _get_engine_variables():
        m = CoreMetaData[var]
        if isinstance(m['types'], tuple) and list in m['types'] or not m['multivalue']:
            continue
        for lay in (('own', None), ('own2', 'own', None), ('own', 'none', None), ('none', 'own2', None), ('none', 'none', 'scalar'), ('own2', 'none', 'scalar'), ('none', 'own', 'list'),
                    ('none', 'none', 'list'), ('none', 'own', 'none', 'list'), ('none', 'none', 'none', 'short')):
            if m['types'] == str and 'none' in lay and None in lay:
                continue
            out[f'vectorise:{var}:{"/".join(map(str, lay))}'] = vector_case(var, lay)
    for lay in ((1,), (2,), (1, 1), (2, 1), (1, 2, 1), (1, 0), (0, 2), (2, 0, 1)):
        out[f'wing locations:{lay}'] = locations_case(lay)
    for n in (1, 2):
        out[f'wing locations of the vehicle:{n} types'] = locations_vehicle_case(n)
    for method in (F, G):
        for design in (None, AircraftTypes.TRANSPORT, AircraftTypes.BLENDED_WING_BODY):
            for lay in (None, True, False):
                for n, g in enumerate(((0,) * 11, (1,) * 8 + (1, 1, 1), (1,) * 8 + (2, 2, 1), (1, 0, 1, 0, 1, 0, 1, 0, 1, 1, 1), (0, 1, 0, 1, 0, 1, 0, 0, 2, 1, 2), (1, 1, 0, 0, 0, 0, 0, 0, 1, 2, 0))):
                    for v in (QUIET, DEBUG) if n < 2 else (QUIET,):
                        out[f'options:{method.name}:{design.name if design else None}:{lay}:{n}:{v.name}'] = options_case(method, design, lay, g, v)
    for model in AtmosphereModel:
        out[f'gravity:{model.name}'] = gravity_case(model)
    return out
