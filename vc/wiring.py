"""Postcondition of the model assembly, decided on the connection graph that OpenMDAO resolves for the real model.

`assemble` runs the real AviaryProblem (load_inputs, check_and_preprocess_inputs, add_pre_mission_systems or build_model, setup,
final_setup); `obligations` yields (rule, variable, subject, ok, detail).  The graph does not depend on the numbers in the aircraft
data, only on the configuration; the numbers are followed through units conversion at the boundary."""
import importlib
import os
import re
import shutil
import tempfile
import warnings
from collections import defaultdict
from copy import deepcopy
from enum import Enum
from pathlib import Path

import numpy as np

from aviary.variable_info.variable_meta_data import CoreMetaData

# outputs computed from an input of the same name that the user gave, by design (propulsion scales the engine to the thrust given;
# the mission model reports the state it ends in)
RECOMPUTED = {'aircraft:engine:scaled_sls_thrust', 'mission:takeoff:final_altitude', 'mission:landing:initial_velocity'}
# variables fed by the trajectory under another name
FROM_TRAJECTORY = {'mission:final_mass', 'mission:final_time', 'mission:range', 'mission:takeoff:final_velocity', 'mission:landing:initial_mass',
                   'mission:takeoff:final_mass', 'mission:landing:initial_altitude', 'mission:gross_mass', 'mission:total_fuel', 'mission:block_fuel'}
# (end of component path, variable): declared but without influence in this place
WITHOUT_INFLUENCE = {('ascent_eom', 'mission:takeoff:rolling_friction_coefficient')}

# (place, quantity): flight conditions that are not states of this place, or that it uses at their default
NOT_A_STATE = [
    (r'traj\.phases\.(groundroll|rotation)$', 'altitude|flight_path_angle'),    # on the ground at sea level
    (r'traj\.phases\.', 'velocity_rate|torque_max'),                                        # altitude_rate_max at constant speed
    (r'traj\.phases\.AB$', 'altitude|flight_path_angle|throttle'),                # solved ground roll
    (r'(landing|takeoff|taxi)$', 'velocity|mach|throttle|angle_of_attack|altitude|torque_max'),
]
# (part of the path, quantity, the quantity it is fed with by design)
ALIAS = [('excess', 'thrust_net_total', 'thrust_net_max_total'), ('', 'mass', 'mass_final|end_of_taxi_mass'), ('landing', 'velocity', 'TAS_touchdown'),
         ('', 'lift_coefficient', 'CL_.*|CL'), ('', 'drag_coefficient', 'CD|CD_.*'), ('', 'mass_rate', 'fuel_flow_rate_negative_total'),
         ('.max.', 'throttle', 'throttle_max'), ('.max.', 'shaft_power', 'shaft_power_max|shaft_power_out'), ('control_iter_group', 'thrust_net_total', 'thrust_req'), ('.ab.', 'velocity', 't')]     # the solved ground roll integrates over speed


def multi_engine(allocation, names=('eng_2', 'eng')):
    def f(pi):
        from aviary.subsystems.propulsion.utils import build_engine_deck
        from aviary.validation_cases.validation_data.test_data import multi_engine_single_aisle_data as d
        from aviary.variable_info.enums import ThrottleAllocation
        from aviary.variable_info.variables import Aircraft
        for k, q in pi.items():
            if k not in ('pre_mission', 'post_mission'):
                q['user_options']['throttle_allocation'] = ThrottleAllocation[allocation]
        inputs = deepcopy(d.inputs)
        inputs.set_val(Aircraft.Nacelle.LAMINAR_FLOW_LOWER, np.zeros(2))
        inputs.set_val(Aircraft.Nacelle.LAMINAR_FLOW_UPPER, np.zeros(2))
        engines = []
        for x, n in zip((d.engine_1_inputs, d.engine_2_inputs), names):
            e = build_engine_deck(deepcopy(x))
            e.name = n
            engines.append(e)
        return inputs, engines
    return f


def electric(kind, eom):
    def f(pi):
        from aviary.api import create_vehicle
        from aviary.subsystems.energy.battery_builder import BatteryBuilder
        from aviary.subsystems.propulsion.motor.motor_builder import MotorBuilder
        from aviary.subsystems.propulsion.turboprop_model import TurbopropModel
        from aviary.utils.aviary_values import AviaryValues
        from aviary.utils.functions import get_path
        from aviary.variable_info.variables import Aircraft, Settings
        o, _ = create_vehicle('models/aircraft/large_turboprop_freighter/large_turboprop_freighter_GASP.csv', verbosity=0)[:2]
        o.set_val(Settings.PROBLEM_TYPE, 'SIZING')
        o.set_val(Settings.VERBOSITY, 0)
        if eom == 'energy':
            o.set_val(Settings.EQUATIONS_OF_MOTION, 'energy_state')
        E = Aircraft.Engine
        if kind == 'turboprop':
            return o, [TurbopropModel('turboprop', options=o)]
        q = o if kind == 'electric' else AviaryValues()
        q.set_val(E.SCALE_FACTOR, 1.0)
        q.set_val(E.RPM_DESIGN, 6000.0, 'rpm')
        q.set_val(E.Gearbox.GEAR_RATIO, 5.88)
        q.set_val(E.Gearbox.EFFICIENCY, 1.0)
        q.set_val(Aircraft.Battery.PACK_ENERGY_DENSITY, 1000.0, 'W*h/kg')
        q.set_val(E.Motor.DATA_FILE, get_path('electric_motor_1800Nm_6000rpm.csv'))
        if kind == 'electric':
            q.delete(E.FIXED_RPM)
            return o, [TurbopropModel('electroprop', options=o, shaft_power_model=MotorBuilder(name='motor')), BatteryBuilder()]
        o.set_val(E.FIXED_RPM, 6000.0, 'rpm')
        t = o.deepcopy()
        for v, w in ((q, 0.57), (t, 0.19)):
            v.set_val(E.NUM_ENGINES, 2)
            v.set_val(E.NUM_WING_ENGINES, 2)
            v.set_val(E.WING_LOCATIONS, [w])
        return o, [TurbopropModel('turboprop', options=t), TurbopropModel('electroprop', options=q, shaft_power_model=MotorBuilder(name='motor')), BatteryBuilder()]
    return f


def battery(pi):
    from aviary.subsystems.energy.battery_builder import BatteryBuilder
    return 'validation_cases/validation_data/test_models/aircraft_for_bench_FwFm_with_electric.csv', [BatteryBuilder()]


SOURCES = {'battery': battery, **{f'two engines {a}': multi_engine(a) for a in ('FIXED', 'STATIC', 'DYNAMIC')},
           **{f'{k} {e}': electric(k, e) for k in ('turboprop', 'electric', 'hybrid') for e in ('energy', '2DOF')}}


def assemble(csv, phase_info, overrides=(), remove=(), full=False, hook=None, edit=None):
    """Build the model in a scratch directory; returns the problem."""
    import aviary.api as av
    spec, _, low_speed = phase_info.partition('+')
    mod, _, attr = spec.partition(':')
    pi = deepcopy(getattr(importlib.import_module(mod), attr or 'phase_info'))
    if edit:
        edit(pi)
    if low_speed == 'tabular':
        for k, d in pi.items():
            if k not in ('pre_mission', 'post_mission'):
                o = d.setdefault('subsystem_options', {}).get('aerodynamics', {})
                if o.get('method') in (None, 'cruise'):
                    d['subsystem_options']['aerodynamics'] = {**o, 'method': 'tabular_cruise', 'aero_data': 'models/aircraft/large_single_aisle_1/aerodynamics_tables/large_single_aisle_1_aero_free_reduced_alpha.csv'}
    elif low_speed:     # the takeoff and landing simulations need a low speed polar
        for k, d in pi.items():
            if k not in ('pre_mission', 'post_mission'):
                d['subsystem_options'] = {'aerodynamics': dict(method='low_speed', ground_altitude=0.0, angles_of_attack=[-5.0, 0.0, 5.0, 10.0, 15.0], lift_coefficients=[0.01, 0.5, 1.0, 1.5, 1.95],
                                                               drag_coefficients=[0.04, 0.067, 0.076, 0.11, 0.2], lift_coefficient_factor=2.0, drag_coefficient_factor=2.0)}
    os.environ['OPENMDAO_REPORTS'] = '0'
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix='c18_')
    os.chdir(tmp)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = av.AviaryProblem(verbosity=0)
            if csv.startswith('py:'):
                vehicle, external = SOURCES[csv[3:]](pi)
            else:
                vehicle, external = csv, []
            p.load_inputs(vehicle, pi)
            if external:
                p.load_external_subsystems(external)
            for n, v, u in overrides:
                p.aviary_inputs.set_val(n, v, u)
            for n in remove:
                if n in p.aviary_inputs:
                    p.aviary_inputs.delete(n)
            given = {n for n, _ in p.aviary_inputs}
            p.check_and_preprocess_inputs()
            if full:
                p.build_model()
                if hook:
                    hook(p)
            else:
                p.model.add_pre_mission_systems()
            p.setup()
            p.final_setup()
        p.given = given
        return p
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def hierarchy_name(a):
    leaf = a.split('.')[-1]
    if re.search(r'_\d+$', leaf) and leaf not in CoreMetaData:       # entry of one engine type
        leaf = leaf.rpartition('_')[0]
    i = [leaf.index(k) for k in ('aircraft:', 'mission:') if k in leaf]
    return leaf[min(i):] if i else None


def scope(a):
    q = a.split('.')
    return '.'.join(q[:3]) if q[0] == 'traj' else q[0]


class Graph:
    def __init__(self, p):
        self.p, m = p, p.model
        self.ins = m.get_io_metadata(iotypes=('input',), return_rel_names=False)
        self.outs = m.get_io_metadata(iotypes=('output',), return_rel_names=False)
        self.conns = m._conn_global_abs_in2out

    def source(self, a, seen=()):
        """(last input, output) behind an input; parameters of dymos phases are followed through."""
        s = self.conns[a]
        comp, _, leaf = s.rpartition('.')
        if leaf.startswith('parameter_vals:'):
            t = comp + '.parameters:' + leaf[len('parameter_vals:'):]
            if t in self.conns and t not in seen:
                return self.source(t, (*seen, t))
        m = re.fullmatch(r'y_(\d+)', leaf)
        if m and f'{comp}.x_{m[1]}' in self.conns:        # parameters of several engine types pass through unchanged
            return self.source(f'{comp}.x_{m[1]}', (*seen, a))
        return a, s


def same(v, u, w, wu):
    """The aircraft data v [u] is the model value w [wu]."""
    from openmdao.utils.units import convert_units
    n = lambda x: None if x in (None, 'unitless') else x    # noqa: E731
    v = np.asarray(v, float)
    w = np.asarray(w, float)
    if n(u) != n(wu):
        v = convert_units(v, n(u), n(wu))
    try:
        v = np.broadcast_to(v, w.shape)
    except ValueError:
        if v.size != w.size:
            return False
        v = v.reshape(w.shape)
    return bool(np.allclose(v, w, rtol=1e-9, atol=0))


def obligations(p, closed=True):
    """closed: the data are those of a complete aircraft, so that quantities defining each other are settled by them"""
    g = Graph(p)
    ai = p.aviary_inputs
    names = [e.name for e in p.model.engine_models]

    def own(a, v):
        """The entry of the engine type that `a` belongs to, of a value with one entry per type."""
        q = [names.index(x) for x in a.split('.') if x in names]
        if len(names) > 1 and q and isinstance(v, (list, tuple, np.ndarray)) and np.size(v) == len(names):
            return v[q[0]]
        return v
    computed = defaultdict(list)
    for o, d in g.outs.items():
        n = hierarchy_name(o)
        if n and not o.startswith('_auto_ivc') and 'param_comp' not in o and 'parameter_vals' not in o and o.split('.')[-1] == n:
            computed[n].append(o)
    for a in sorted(g.ins):
        n = hierarchy_name(a)
        if n is None:
            continue
        last, s = g.source(a)
        d = g.ins[last]
        auto = s.startswith('_auto_ivc')
        q = [names.index(x) for x in a.split('.') if x in names]
        if len(names) > 1 and q and n in CoreMetaData and CoreMetaData[n]['multivalue']:
            i = p.model._var_abs2meta['input'][a].get('src_indices')
            if i is not None:
                yield 'reads the entry of its engine type', n, a, list(i.as_array().ravel()) == q[:1], f'reads entries {i.as_array().tolist()}, engine type {q[0]}'
        phase = scope(a).split('.')[-1]
        wrong = 'takeoff' if phase == 'landing' else 'landing' if phase in ('takeoff', 'groundroll', 'rotation', 'ascent') else None
        if wrong:
            yield 'reads the data of this phase', n, a, wrong not in d['prom_name'], f'reads {d["prom_name"]} in the {phase}'
        if auto:
            if any(a.rpartition('.')[0].endswith(c) and n == v for c, v in WITHOUT_INFLUENCE):
                continue
            yield 'reads the aircraft data', n, a, d['prom_name'] == n, f'reads a local default of its own ({d["prom_name"]}), not the {n} of the aircraft'
            if d['prom_name'] != n:
                continue
            if n in ai:
                v, u = ai.get_item(n)
                w = p.get_val(last)
                yield 'has the value given', n, a, (same(v, u, w, d['units']) or np.size(w) < np.size(v) and same(own(a, v), u, w, d['units'])), f'given {v} {u}, the model has {np.asarray(w).tolist()} {d["units"]}'
            producers = [o for o in computed.get(n, ()) if g.outs[o]['prom_name'].split('.')[-1] == n]
            if n not in ai:
                yield 'reads the computed value', n, a, not producers, f'reads a default although {producers[:1]} computes it'
        else:
            leaf = g.outs[s]['prom_name'].split('.')[-1]
            ok = leaf == n or hierarchy_name(s) == n or hierarchy_name(leaf) == n or n in FROM_TRAJECTORY
            yield 'reads the aircraft data', n, a, ok, f'reads {s} ({g.outs[s]["prom_name"]}) in place of {n}'
            if n in ai and n not in RECOMPUTED and n not in FROM_TRAJECTORY:
                yield 'given value replaces the computed one', n, a, False, f'reads {s} although the value is given'
    # internal quantities of the pre-mission analyses
    have = defaultdict(list)
    for o in g.outs:
        leaf = o.split('.')[-1]
        if not o.startswith('_auto_ivc') and hierarchy_name(o) is None:
            have[scope(o), leaf].append(o)
    from aviary.variable_info.variables import Dynamic
    read = {s.rpartition('.')[0] for s in g.conns.values()}     # components whose results somebody reads
    dyn = set()

    def walk(c):
        for k, v in vars(c).items():
            if isinstance(v, type):
                walk(v)
            elif isinstance(v, str) and not k.startswith('_'):
                dyn.add(v)
    walk(Dynamic)
    for a in sorted(g.ins):
        leaf = a.split('.')[-1]
        if hierarchy_name(a) is not None:
            continue
        last, s = g.source(a)
        name = g.ins[last]['prom_name']
        if s.startswith('_auto_ivc') and name in ai and name.startswith(('aircraft:', 'mission:')):
            v, u = ai.get_item(name)
            w = p.get_val(last)
            yield 'has the value given', name, a, same(v, u, w, g.ins[last]['units']), f'given {v} {u}, the model has {np.asarray(w).tolist()} {g.ins[last]["units"]}'
        phase = scope(a).split('.')[-1]
        wrong = 'takeoff' if phase == 'landing' else 'landing' if phase in ('takeoff', 'groundroll', 'rotation', 'ascent') else None
        if wrong and name.startswith(('aircraft:', 'mission:')):
            yield 'reads the data of this phase', leaf, a, wrong not in name, f'reads {name} in the {phase}'
        if leaf in dyn and scope(a) != 'pre_mission' and a.rpartition('.')[0] in read:
            place = scope(a)
            if s.startswith('_auto_ivc') and any(re.match(r, place) and re.fullmatch(v, leaf) for r, v in NOT_A_STATE):
                continue
            of_phase = name.split('.')[-1].startswith(('parameters:', 'controls:', 'initial_', 'polynomial_controls:', 'states:'))
            yield 'flight condition connected', leaf, a, not s.startswith('_auto_ivc') or of_phase or name.startswith(('aircraft:', 'mission:')), f'reads the default {name}, not the {leaf} of the flight'
            if not s.startswith('_auto_ivc'):
                src = s.split('.')[-1]
                also = {src, *(x.split(':', 1)[-1] for x in (src,)), *(g.outs[s]['prom_name'].split('.')[-1].split(':', 1)[-1:])}
                yield 'reads this flight condition', leaf, a, leaf in also or any(r in a.lower() and leaf == q and re.fullmatch(o, src) for r, q, o in ALIAS), f'reads {s}'
            continue
        if leaf in dyn or scope(a) != 'pre_mission':
            continue
        _, s = g.source(a)
        others = [o for o in have.get((scope(a), leaf), ()) if o.rpartition('.')[0] != a.rpartition('.')[0]]
        yield 'internal quantity connected', leaf, a, not (s.startswith('_auto_ivc') and others), f'is a default although {others[:1]} computes {leaf}'
    # execution order (a component whose every result is replaced by given values does not count)
    live = {o.rpartition('.')[0] for o, d in g.outs.items() if 'DATA_OVERRIDE:' not in d['prom_name']}
    unused = {o.rpartition('.')[0] for o in g.outs} - live
    order, solver = {}, {}
    for k, c in enumerate(p.model.system_iter(recurse=True)):
        order[c.pathname] = k
        solver[c.pathname] = type(getattr(c, 'nonlinear_solver', None)).__name__
    import networkx as nx
    dg = nx.DiGraph()
    dg.add_edges_from((s.rpartition('.')[0], a.rpartition('.')[0]) for a, s in g.conns.items() if not s.startswith('_auto_ivc') and scope(a) == scope(s) == 'pre_mission')
    loop = {c: k for k, q in enumerate(nx.strongly_connected_components(dg)) if len(q) > 1 for c in q}
    for a in sorted(g.ins):
        s = g.conns[a]
        if s.startswith('_auto_ivc') or scope(a) != 'pre_mission' or scope(s) != 'pre_mission':
            continue
        ca, cs = a.rpartition('.')[0], s.rpartition('.')[0]
        if ca not in order or cs not in order or ca == cs or ca in unused:
            continue
        common = os.path.commonprefix([ca.split('.'), cs.split('.')])
        groups = ['.'.join(common[:k]) for k in range(len(common), -1, -1)]
        iterated = any(solver.get(q, 'NoneType') not in ('NoneType', 'NonlinearRunOnce') for q in groups)
        late = order[cs] > order[ca] and not iterated
        if loop.get(ca, -1) == loop.get(cs, -2):
            if late and not closed:
                continue        # quantities that define each other: one of them has to be given
            yield 'not defined by itself', hierarchy_name(a) or a.split('.')[-1], a, not late, f'and {s} define each other, nothing iterates and neither is given'
        else:
            yield 'computed before it is read', hierarchy_name(a) or a.split('.')[-1], a, not late, f'is read before {s} computes it, and nothing iterates'
    # options
    from aviary.utils.utils import wrapped_convert_units
    for c in p.model.system_iter(recurse=True):
        for k in c.options:
            if k.startswith(('aircraft:', 'mission:', 'settings:')) and k in ai:
                v, u = ai.get_item(k)
                try:
                    o = c.options[k]
                except Exception as e:      # noqa: BLE001 - a required option without value
                    yield 'option has the value given', k, c.pathname, False, repr(e)[:200]
                    continue
                try:
                    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], str):
                        v, o = wrapped_convert_units((v, u), o[1]), o[0]
                    ok = equal(v, o) or equal(own(c.pathname, v), o) or isinstance(v, (list, tuple, np.ndarray)) and len(v) == 1 and equal(v[0], o)
                except Exception as e:      # noqa: BLE001
                    ok, o = False, f'{o!r} ({e!r})'
                yield 'option has the value given', k, c.pathname, ok, f'given {v!r}, the option is {o!r}'[:300]


def equal(v, o):
    if isinstance(o, Path):
        v, o = str(v), str(o)
    if isinstance(v, Enum) or isinstance(o, Enum) or isinstance(v, (str, bool)) or isinstance(o, (str, bool)) or v is None:
        return v == o
    a, b = np.asarray(v), np.asarray(o)
    if a.dtype.kind in 'fiu' and b.dtype.kind in 'fiu':
        return bool(np.allclose(a, b, rtol=1e-12, atol=0))
    return bool(np.all(a == b))
