"""C19 contracts: what groups of analyses make of their parts (fuel, mass, power, thrust, drag, constraints)."""
import math
import numpy as np
import openmdao.api as om
from aviary.core.aviary_group import AviaryGroup
from aviary.mission.energy_state.ode.energy_state_ODE import EnergyStateODE     # noqa: F401 (module under contract)
from aviary.mission.energy_state.phases.simplified_takeoff import TakeoffGroup
from aviary.mission.two_dof.ode.two_dof_ode import TwoDOFODE
from aviary.mission.two_dof.ode.taxi_ode import TaxiSegment     # noqa: F401
from aviary.mission.utils import separate_reserve_phases
from aviary.subsystems.aerodynamics.flops_based.drag import TotalDrag
from aviary.subsystems.aerodynamics.solve_alpha_group import SolveAlphaGroup
from aviary.subsystems.energy.battery_builder import BatteryBuilder
from aviary.subsystems.energy.energy_builder import CoreEnergyBuilder
from aviary.subsystems.energy.fuel_summation import FuelSummationGroup
from aviary.subsystems.mass.flops_based.mass_summation import MassSummation
from aviary.subsystems.propulsion.gearbox.model.gearbox_mission import GearboxMission
from aviary.subsystems.propulsion.gearbox.model.gearbox_premission import GearboxPreMission
from aviary.subsystems.propulsion.motor.model.motor_map import MotorMap
from aviary.subsystems.propulsion.motor.model.motor_mission import MotorMission
from aviary.subsystems.propulsion.motor.model.motor_premission import MotorPreMission
from aviary.subsystems.propulsion.utils import UncorrectData
from aviary.utils.functions import get_path
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import AlphaModes, Verbosity
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M, Settings
from .. import expr as E, wiring
from ..expr import evaluate, variables
from ..groups import Assembled, Values

P = D.Vehicle.Propulsion
TOL = 1e-6


def t(label, a, b):
    return label, a, b, TOL


# ------------------------------------------------------------------ fuel
def phases(main, reserve):
    return {**{f'm{k}': {'user_options': {'reserve': False}} for k in range(main)}, **{f'r{k}': {'user_options': {'reserve': True}} for k in range(reserve)}}


def fuel(main, reserve, margin, additional, ignore):
    def f(c):
        g = Values(c, lambda: FuelSummationGroup(mission_info=phases(main, reserve), **{
            M.RESERVE_FUEL_MARGIN: margin, M.RESERVE_FUEL_MASS_ADDITIONAL: (additional, 'lbm'), A.Fuel.IGNORE_FUEL_CAPACITY_CONSTRAINT: ignore,
            Settings.VERBOSITY: Verbosity.QUIET}))
        burned = g(M.FUEL_MASS, 'lbm')
        final = g('fuel_burned.mass_final', 'lbm')
        yield t('fuel burned = gross mass - final mass', burned, g(M.GROSS_MASS, 'lbm') - final)
        total = g(M.TOTAL_RESERVE_FUEL_MASS, 'lbm')
        want = g(M.RESERVE_FUEL_MASS_ADDITIONAL, 'lbm') if g.has(M.RESERVE_FUEL_MASS_ADDITIONAL) else additional
        if reserve:
            r = g('reserve_fuel_burned.mass_initial', 'lbm') - g('reserve_fuel_burned.mass_final', 'lbm')
            yield t('fuel burned in reserve phases', g(M.RESERVE_FUEL_MASS, 'lbm'), r)
            want = want + r
        else:
            want = want + g(M.RESERVE_FUEL_MASS, 'lbm')
        if margin:
            want = want + g(M.RESERVE_FUEL_MARGIN) / 100.0 * (g(M.GROSS_MASS, 'lbm') - g('reserve_fuel_frac.final_mass', 'lbm'))
        elif g.has('reserve_fuel_margin_mass'):
            want = want + g('reserve_fuel_margin_mass', 'lbm')
        yield t('reserve fuel = margin + additional + burned in reserve phases', total, want)
        fuel_mass = g(M.TOTAL_FUEL_MASS, 'lbm')
        yield t('mass residual', g(M.Constraints.MASS_RESIDUAL, 'lbm'), fuel_mass - burned - total)
        yield t('excess capacity', g(M.Constraints.EXCESS_FUEL_MASS_CAPACITY, 'lbm'),
                g(A.Fuel.MAX_CAPACITY_MASS, 'lbm') - g(A.Fuel.UNUSABLE_FUEL_MASS, 'lbm') - fuel_mass)
        yield t('block fuel', g(M.BLOCK_FUEL_MASS, 'lbm'), burned + g(M.Taxi.FUEL_MASS_TAXI_IN, 'lbm'))
        cons = g.m.get_constraints(recurse=True)
        k = [v for v in cons.values() if v['name'].endswith(M.Constraints.EXCESS_FUEL_MASS_CAPACITY) or v['source'].endswith('excess_fuel_capacity')]
        yield 'capacity is a constraint unless ignored', len(k), 0 if ignore else 1
        if k:
            x = k[0]
            lo = x['lower'] if np.isscalar(x['lower']) else float(np.ravel(x['lower'])[0])
            yield 'the constraint asks for a capacity of at least zero', (float(lo), bool(x['equals'] is None)), (0.0, True)
        for n, v in ((M.RESERVE_FUEL_MARGIN, margin), (M.RESERVE_FUEL_MASS_ADDITIONAL, additional)):
            if v and g.has(n):
                s = g.prom_in[n]
                yield 'the option is the default of the input', float(np.ravel(g.m._conn_global_abs_in2out and initial(g, s, n))[0]), float(v)
    return f


def initial(g, s, name):
    """The value the input has if nobody sets it."""
    p = om.Problem(reports=None)
    a = next(a for a, src in g.src.items() if src == s)
    comp = g.m._get_subsystem(a.rpartition('.')[0])
    return comp._var_abs2meta['input'][a]['val']


def separation(c):
    for kinds in ((), (0,), (0, 0), (0, 1), (0, 0, 1, 1), (None, 1), (None, None), (0, None, 1), (1,)):
        info = {}
        for k, v in enumerate(kinds):
            info[f'p{k}'] = {'user_options': {} if v is None else {'reserve': bool(v)}}
        main, res = separate_reserve_phases(info)
        yield 'main phases', list(main), [f'p{k}' for k, v in enumerate(kinds) if not v]
        yield 'reserve phases', list(res), [f'p{k}' for k, v in enumerate(kinds) if v]
    for kinds in ((1, 0), (0, 1, 0), (1, None), (0, 1, 1, 0)):
        info = {f'p{k}': {'user_options': {} if v is None else {'reserve': bool(v)}} for k, v in enumerate(kinds)}
        yield 'a main phase after a reserve phase is rejected', c.raises(lambda: separate_reserve_phases(info), ValueError), 'raised'


class Recorder(AviaryGroup):
    """The real group; connections are recorded instead of being handed to OpenMDAO."""

    def connect(self, src_name, tgt_name, src_indices=None, flat_src_indices=None):
        for x in [tgt_name] if isinstance(tgt_name, str) else tgt_name:
            self.made.append((src_name, x, None if src_indices is None else tuple(int(k) for k in np.ravel(src_indices))))


class Subsystem:
    """An external subsystem that asks for given connections."""
    name = 'x'

    def __init__(self, bus): self.bus = bus
    def get_post_mission_bus_variables(self, aviary_inputs=None, mission_info=None): return self.bus


def connections(subsystems, info, values):
    g = Recorder()
    g.made = []
    g.subsystems, g.aviary_inputs, g.mission_info = subsystems, values, info
    g._connect_mission_bus_variables()
    return sorted(g.made, key=repr)


def endpoints(main, reserve, margin):
    def f(c):
        info = phases(main, reserve)
        v = AviaryValues()
        v.set_val(M.RESERVE_FUEL_MARGIN, margin, 'unitless')
        b = CoreEnergyBuilder()
        n = b.name
        last = f'traj.m{main - 1}.mission_bus_variables.mass'
        want = [(last, f'{n}.fuel_burned.mass_final', (-1,))]
        if margin:
            want.append((last, f'{n}.reserve_fuel_frac.final_mass', (-1,)))
        if reserve:
            want.append(('traj.r0.mission_bus_variables.mass', f'{n}.reserve_fuel_burned.mass_initial', (0,)))
            want.append((f'traj.r{reserve - 1}.mission_bus_variables.mass', f'{n}.reserve_fuel_burned.mass_final', (-1,)))
        yield 'fuel comes from the mass at the ends of the phases', connections([b], info, v), sorted(want, key=repr)
    return f


def bus(c):
    info = phases(2, 0)
    a = Subsystem({'m0': {'x.foo': {'post_mission_name': ['x.a', 'x.b'], 'src_indices': [0]}, 'bar': {'post_mission_name': 'x.c'}},
                   'm1': {'foo': {'post_mission_name': 'x.d', 'src_indices': [-1]}}})
    b = Subsystem({})
    d = Subsystem({'m1': {'y.z': {'post_mission_name': ('y.q'), 'src_indices': [3]}}})
    T = 'traj.m{}.mission_bus_variables.{}'.format
    want = [(T(0, 'foo'), 'x.a', (0,)), (T(0, 'foo'), 'x.b', (0,)), (T(0, 'bar'), 'x.c', None), (T(1, 'foo'), 'x.d', (-1,)), (T(1, 'z'), 'y.q', (3,))]
    for subs in ([a, b, d], [d, a], [b], []):
        w = [x for x in want if (a in subs and x[1][0] == 'x') or (d in subs and x[1][0] == 'y')]
        yield 'every mission bus variable is connected once', connections(subs, info, AviaryValues()), sorted(w, key=repr)


# ------------------------------------------------------------------ powertrain
def gearbox(nn):
    def f(c):
        g = Values(c, lambda: GearboxMission(num_nodes=nn))
        ratio = g(A.Engine.Gearbox.GEAR_RATIO)
        yield t('output speed * gear ratio = input speed', g(P.RPM + '_out', 'rpm') * ratio, g(P.RPM + '_in', 'rpm'))
        yield t('output power = efficiency * input power', g(P.SHAFT_POWER + '_out', 'kW'), g(P.SHAFT_POWER + '_in', 'kW') * g(A.Engine.Gearbox.EFFICIENCY))
        yield t('torque * speed = power', g(P.TORQUE + '_out', 'N*m') * g(P.RPM + '_out', 'rad/s'), g(P.SHAFT_POWER + '_out', 'W'))
    return f


def gearbox_sizing(simple):
    def f(c):
        g = Values(c, lambda: GearboxPreMission(simple_mass=simple), defaults={A.Engine.Gearbox.SHAFT_POWER_DESIGN: (1.0, 'kW')})
        out = g(A.Engine.RPM_DESIGN, 'rad/s') / g(A.Engine.Gearbox.GEAR_RATIO)
        power = A.Engine.Gearbox.SHAFT_POWER_DESIGN
        yield t('output speed', g('gearbox_RPM.RPM_out', 'rad/s'), out)
        yield t('maximum torque * output speed = design power', g('torque_comp.torque_max', 'N*m') * out, g(power, 'W'))
        if simple:
            yield t('mass * specific torque = maximum torque', g(A.Engine.Gearbox.MASS, 'kg') * g(A.Engine.Gearbox.SPECIFIC_TORQUE, 'N*m/kg'), g(power, 'W') / out)
        else:
            o = g(A.Engine.RPM_DESIGN, 'rpm') / g(A.Engine.Gearbox.GEAR_RATIO)
            yield t('mass', g(A.Engine.Gearbox.MASS), (g(power, 'hp') / o)**0.75 * g(A.Engine.Gearbox.GEAR_RATIO)**0.15)
    return f


MOTOR = str(get_path('electric_motor_1800Nm_6000rpm.csv'))
MR = {'throttle': (0.2, 0.9), 'rotations|rpm': (1000., 5000.)}


def motor_map(nn):
    def f(c):
        g = Values(c, lambda: MotorMap(num_nodes=nn), ranges=MR, options={A.Engine.Motor.DATA_FILE: MOTOR})
        mx = g('throttle_to_torque.torque_max', 'N*m')
        th, sc = g(P.THROTTLE), g(A.Engine.SCALE_FACTOR)
        yield t('torque = throttle * maximum torque * scale', g(P.TORQUE, 'N*m'), th * mx * sc)
        yield t('the map is entered with the unscaled torque', g('motor_efficiency.torque_unscaled', 'N*m'), th * mx)
        yield t('the map is entered with the speed', g('motor_efficiency.' + P.RPM, 'rpm'), g(P.RPM, 'rpm'))
    return f


def motor(nn, fixed):
    def f(c):
        g = Values(c, lambda: MotorMission(num_nodes=nn), ranges=MR,
                   options={A.Engine.Motor.DATA_FILE: MOTOR, A.Engine.RPM_DESIGN: (5000.0, 'rpm'), A.Engine.FIXED_RPM: (fixed, 'rpm')}, defaults={P.RPM: (np.full(nn, 4000.0), 'rpm')} if fixed else None)
        th = g(P.THROTTLE)
        rpm = g(P.RPM, 'rpm')
        if not fixed:
            yield t('speed follows the square root of the throttle', rpm, 5000.0 * th**0.5)
        w = g(P.RPM, 'rad/s')
        tq = g(P.TORQUE, 'N*m')
        yield t('shaft power = torque * speed', g(P.SHAFT_POWER, 'W'), tq * w)
        yield t('electric power * efficiency = shaft power', g(P.ELECTRIC_POWER_IN, 'W') * g('efficiency'), g(P.SHAFT_POWER, 'W'))
        yield t('torque scales with the motor', tq, th * g('motor_group.motor_map.throttle_to_torque.torque_max', 'N*m') * g(A.Engine.SCALE_FACTOR))
    return f


def motor_sizing(c):
    g = Values(c, lambda: MotorPreMission(), ranges=MR, options={A.Engine.Motor.DATA_FILE: MOTOR})
    tq = g(A.Engine.Motor.TORQUE_MAX, 'N*m')
    yield t('maximum torque scales with the motor', tq, g('max_throttle') * g('motor_map.throttle_to_torque.torque_max', 'N*m') * g(A.Engine.SCALE_FACTOR))
    yield t('mass', g(A.Engine.Motor.MASS, 'kg'), 0.3151 * tq**0.748)


def battery(nn):
    def f(c):
        g = Values(c, lambda: BatteryBuilder().build_mission(nn))
        cap, eff = g(A.Battery.ENERGY_CAPACITY, 'kJ'), g(A.Battery.EFFICIENCY)
        used = g(D.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED, 'kJ')
        yield t('energy left in the battery', g(D.Vehicle.BATTERY_STATE_OF_CHARGE) * cap * eff, cap * eff - used)
    return f


def uncorrect(nn):
    def f(c):
        g = Values(c, lambda: UncorrectData(num_nodes=nn))
        m = g(D.Atmosphere.MACH)
        amb_p, amb_t = g('pressure_term.P_amb', 'psi'), g('temperature_term.T_amb', 'degR')
        delta = g(D.Atmosphere.STATIC_PRESSURE, 'psi') * (1 + 0.2 * m**2)**3.5 / amb_p
        theta = g(D.Atmosphere.TEMPERATURE, 'degR') * (1 + 0.2 * m**2) / amb_t
        yield t('power = corrected power * delta * sqrt(theta)', g('uncorrected_data', 'hp'), g('corrected_data', 'hp') * delta * theta**0.5)
        if c.symbolic:
            for n, v in (('pressure_term.P_amb', 14.696), ('temperature_term.T_amb', 518.67)):
                yield 'sea level reference', float(np.ravel(initial(g, g.source(n), n))[0]), v
    return f


# ------------------------------------------------------------------ aerodynamics
def total_drag(nn):
    def f(c):
        g = Values(c, lambda: TotalDrag(num_nodes=nn), ranges={'mach': (0.2, 1.8)})
        sc = np.where(g(D.Atmosphere.MACH) < 1.0, g(A.Design.SUBSONIC_DRAG_COEFF_FACTOR), g(A.Design.SUPERSONIC_DRAG_COEFF_FACTOR))
        cd = g(A.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR) * g('CDI') + g(A.Design.ZERO_LIFT_DRAG_COEFF_FACTOR) * g('CD0')
        yield t('drag coefficient', g('CD_prescaled'), cd)
        yield t('drag', g(D.Vehicle.DRAG, 'lbf'), g(D.Atmosphere.DYNAMIC_PRESSURE, 'lbf/ft**2') * g(A.Wing.AREA, 'ft**2') * cd * sc)
    return f


def alpha(nn):
    def f(c):
        g = Values(c, lambda: SolveAlphaGroup(num_nodes=nn, **{M.GRAVITY: (9.80665, 'm/s**2')}))
        yield t('lift required = weight', g('required_lift.required_lift', 'N'), g(D.Vehicle.MASS, 'kg') * g('required_lift.grav_metric'))
        if c.symbolic:
            yield 'gravity', float(np.ravel(initial(g, g.source('required_lift.grav_metric'), 'x'))[0]), 9.80665
    return f


# ------------------------------------------------------------------ mission
def takeoff(c):
    g = Values(c, lambda: TakeoffGroup(), unknown='atmosphere', ranges={'altitude': (0., 100.)}, defaults={A.Wing.AREA: (100.0, 'ft**2'), M.Takeoff.FINAL_VELOCITY: (50.0, 'm/s')})
    end = g('end_of_taxi_mass', 'lbm')
    yield t('mass after taxi', end, g(M.GROSS_MASS, 'lbm') - g(M.Taxi.FUEL_MASS_TAXI_OUT, 'lbm'))
    yield t('mass after takeoff', g(M.Takeoff.FINAL_MASS, 'lbm'), end - g(M.Takeoff.FUEL_MASS, 'lbm'))
    yield t('mach number after takeoff', g(M.Takeoff.FINAL_MACH) * g('speed_of_sound', 'm/s'), g(M.Takeoff.FINAL_VELOCITY, 'm/s'))


def control(mode, nn):
    class G(TwoDOFODE):
        def setup(self):
            self.add_alpha_control(alpha_mode=mode, num_nodes=nn, add_default_solver=False)

    def f(c):
        g = Values(c, lambda: G(num_nodes=nn, aviary_options=AviaryValues()))
        al = g(D.Vehicle.ANGLE_OF_ATTACK, 'deg')
        if mode is AlphaModes.ROTATION:
            yield t('rotation', al, g(A.Wing.INCIDENCE, 'deg') + g('rotation_rate', 'deg/s') * (g('t_curr', 's') - g('start_rotation', 's')))
        else:
            yield t('angle of attack = pitch limit - flight path angle + incidence', al,
                    g(A.Design.MAX_FUSELAGE_PITCH_ANGLE, 'deg') - g(D.Mission.FLIGHT_PATH_ANGLE, 'deg') + g(A.Wing.INCIDENCE, 'deg'))
    return f


# ------------------------------------------------------------------ assembled model
MI = 'aviary.models.missions.'
AC = 'models/aircraft/'
FLOPS, GASP = (AC + 'large_single_aisle_1/large_single_aisle_1_FLOPS.csv', MI + 'energy_state_default'), (AC + 'large_single_aisle_1/large_single_aisle_1_GASP.csv', MI + 'two_dof_default')
MISSIONS = {}
_BUILT = {}


def mission(name, base, edit=None, type_=None):
    MISSIONS[name] = base, edit, type_


def with_reserve(after, targets):
    """Reserve phases, copies of a phase, with a target distance each."""
    def f(pi):
        from copy import deepcopy
        post = pi.pop('post_mission', None)
        for k, d in enumerate(targets):
            x = deepcopy(pi[after])
            x['user_options']['reserve'] = True
            if d:
                x['user_options']['target_distance'] = d
            pi[f'reserve_{k}'] = x
        if post is not None:
            pi['post_mission'] = post
    return f


def pre(**k):
    return lambda pi: pi['pre_mission'].update(k)


def post(**k):
    return lambda pi: pi['post_mission'].update(k)


def both(*fs):
    return lambda pi: [f(pi) for f in fs]


def target(phase, d):
    return lambda pi: pi[phase]['user_options'].update(target_distance=d)


mission('energy state', FLOPS)
mission('energy state, reserve', FLOPS, with_reserve('cruise', [(200.0, 'km')]))
mission('energy state, two reserve phases', FLOPS, both(with_reserve('cruise', [(200.0, 'km'), None]), target('cruise', (1500.0, 'nmi'))))
mission('energy state, takeoff and landing', FLOPS, both(pre(include_takeoff=True), post(include_landing=True), lambda pi: pi['climb']['user_options'].update(mach_optimize=True, altitude_optimize=True)))
mission('two degrees of freedom', GASP)
mission('two degrees of freedom, distances', GASP, both(target('climb1', (50.0, 'km')), with_reserve('desc2', [(40.0, 'nmi')])))
def breguet(**k):
    def f(pi):
        from aviary.variable_info.enums import PhaseType
        pi['cruise'] = {'subsystem_options': {'aerodynamics': {'method': 'cruise'}},
                        'user_options': {'phase_type': PhaseType.BREGUET_RANGE, 'alt_cruise': (37.5e3, 'ft'), 'mach_cruise': 0.8, **k},
                        'initial_guesses': {'mass': ([171481.0, -35000], 'lbm'), 'initial_distance': (200.0e3, 'ft'), 'initial_time': (1516.0, 's'),
                                            'altitude': (37.5e3, 'ft'), 'mach': (0.8, 'unitless')}}
    return f


mission('two degrees of freedom, range equation', GASP, breguet(time_duration=(1.5, 'h')))
mission('two degrees of freedom, range equation, distance', GASP, breguet(target_distance=(1000.0, 'km')))
mission('solved two degrees of freedom', ('validation_cases/validation_data/test_models/aircraft_for_bench_solved2dof.csv', MI + 'solved2dof_default+low_speed'))
MISSION_TYPES = {'energy state': ('SIZING', 'OFF_DESIGN_MIN_FUEL', 'MULTI_MISSION'), 'two degrees of freedom': ('SIZING', 'OFF_DESIGN_MIN_FUEL')}


def built(name, type_):
    if (name, type_) not in _BUILT:
        from aviary.variable_info.enums import ProblemType
        base, edit, _ = MISSIONS[name]
        _BUILT[name, type_] = wiring.assemble(*base, full=True, edit=edit, hook=lambda p: p.model.add_design_variables(problem_type=ProblemType[type_]))
    return _BUILT[name, type_]


def unknowns(a):
    return {getattr(n, 'val', n) for n in variables([x for x in np.ravel(a) if hasattr(x, 'op')])}


class Symbols:
    symbolic = True

    def f(self, name, *a): return E.var(name)


def assembled(name, type_):
    body = model(name, type_)

    def f(c):
        yield from body(c)
        if not c.symbolic:      # which constraints there are is found on symbolic values
            for label, a, b, *_ in body(Symbols()):
                if isinstance(a, int):
                    yield label, a, b
    return f


def model(name, type_):
    def f(c):
        p = built(name, type_)
        g = Assembled(c, p)
        info = p.model.mission_info
        main, reserve = ([k for k, v in info.items() if bool(v['user_options'].get('reserve')) == r] for r in (False, True))
        eqs, lower = (list(g.zeros(k)) if c.symbolic else [] for k in ('equals', 'lower'))

        def at(phase, var, k, units):
            return g(f'traj.{phase}.timeseries.{var}', units)[k:k + 1 or None].ravel()

        def required(label, a, b, of=eqs):
            """Some constraint is zero where a = b and nowhere else."""
            if not c.symbolic:
                return
            want = np.ravel(a - b)
            found = [np.ravel(v) for v in of if np.size(v) == want.size and scale(np.ravel(v)[0], want[0])]
            yield f'constraint: {label}', len(found), 1
            for v in found[:1]:     # proportional: one value against the other where the first unknown is replaced
                k = scale(v[0], want[0])
                yield t(f'constraint: {label}', v, want * k)
                if of is lower:
                    yield f'direction of the constraint: {label}', int(k > 0), 1

        final = g(M.FINAL_MASS, 'lbm')
        yield t('final mass', final, at(main[-1], 'mass', -1, 'lbm'))
        yield t('final time', g(M.FINAL_TIME, 's'), at(main[-1], 'time', -1, 's'))
        rng = g(M.RANGE, 'm')
        yield t('range', rng, at(main[-1], 'distance', -1, 'm'))
        gross = g(M.GROSS_MASS, 'lbm')
        total = g(M.TOTAL_FUEL_MASS, 'lbm')
        yield t('total fuel = gross mass - zero fuel mass', total, gross - g(M.ZERO_FUEL_MASS, 'lbm'))
        burned = gross - at(main[-1], 'mass', -1, 'lbm')
        yield t('fuel burned', g(M.FUEL_MASS, 'lbm'), burned)
        if reserve:
            yield t('reserve fuel', g(M.RESERVE_FUEL_MASS, 'lbm'), at(reserve[0], 'mass', 0, 'lbm') - at(reserve[-1], 'mass', -1, 'lbm'))
        else:
            yield 'no reserve fuel', M.RESERVE_FUEL_MASS in g.prom_out, False
        solved = name.startswith('solved')
        if not solved:
            yield t('range residual', g(M.Constraints.RANGE_RESIDUAL, 'm'), g('target_range', 'm') - rng)
        yield t('mass residual', g(M.Constraints.MASS_RESIDUAL, 'lbm'), total - burned - g(M.TOTAL_RESERVE_FUEL_MASS, 'lbm'))
        yield from required('mass residual', total, burned + g(M.TOTAL_RESERVE_FUEL_MASS, 'lbm'), lower if solved else eqs)
        if not solved:
            yield from required('range', rng, g('target_range', 'm'))
        if type_ == 'SIZING' and not solved:
            yield from required('design gross mass', g(A.Design.GROSS_MASS, 'lbm'), gross)
        if type_ == 'MULTI_MISSION':
            yield from required('gross mass below the design gross mass', g(A.Design.GROSS_MASS, 'lbm'), gross, lower)
        from openmdao.utils.units import convert_units
        from aviary.variable_info.enums import PhaseType
        for k, v in info.items():
            uo = v['user_options']
            for what, (d, units), var, u in (('distance', uo.get('target_distance') or (None, None), 'distance', 'm'),
                                             ('duration', (uo.get('time_duration') if uo.get('phase_type') is PhaseType.BREGUET_RANGE else None) or (None, None), 'time', 's')):
                if d is None or not c.symbolic:
                    continue
                flown = at(k, var, -1, u) - at(k, var, 0, u)
                # the target is a default of an input of the model
                found = [x for x in eqs if unknowns(flown) < unknowns(x) and not unknowns(x) & unknowns(g(f'traj.{k}.timeseries.mass'))]
                found = [x for x in found if len(unknowns(x)) == len(unknowns(flown)) + 1]
                yield f'target {what} of {k}', len(found), 1
                for x in found[:1]:
                    rest = unknowns(x) - unknowns(flown)
                    s = next(s for s in g.vals if any(n.startswith(s + '[') for n in rest))
                    value = float(np.ravel(p.get_val(next(a for a, y in g.src.items() if y == s)))[0])
                    yield f'target {what} of {k} in the model', float(convert_units(value, g.meta[s]['units'], u)), float(convert_units(d, units, u))
                    yield from required(f'{what} of {k}', flown, g(s, u))
        takeoff = p.model.pre_mission_info.get('include_takeoff') if p.model.pre_mission_info else None
        if name.startswith('energy'):
            first = main[0]
            if not takeoff:
                start = gross - g(M.Taxi.FUEL_MASS_TAXI_OUT, 'lbm') - g(M.Takeoff.FUEL_MASS, 'lbm')
                yield t('mass after takeoff', g(M.Takeoff.FINAL_MASS, 'lbm'), start)
                yield from required('mass of the first phase', g(f'traj.{first}.states:mass', 'lbm')[0], start)
            else:
                yield from required('mach number of the first phase', g(f'traj.{first}.control_values:mach')[0], g(M.Takeoff.FINAL_MACH))
                yield from required('altitude of the first phase', g(f'traj.{first}.control_values:altitude', 'm')[0], g(M.Takeoff.FINAL_ALTITUDE, 'm'))
                yield 'mass of the first phase', g.source(f'traj.{first}.initial_states:mass'), g.prom_out[M.Takeoff.FINAL_MASS]
                yield 'distance of the first phase', g.source(f'traj.{first}.initial_states:distance'), g.prom_out[M.Takeoff.GROUND_DISTANCE]
        elif solved:
            yield from required('mass of the first phase', g(f'traj.{main[0]}.states:mass', 'lbm')[0], gross)
        else:
            yield from required('mass after taxi', g('traj.groundroll.states:mass', 'lbm')[0], g('taxi.mass', 'lbm'))
            yield from required('time of the ascent', at('rotation', 'time', -1, 's'), g(M.Takeoff.ASCENT_T_INITIAL, 's'))
            for n in ('gear', 'flaps'):
                yield t(f'time of the {n} event', g(f't_init_{n}', 's'), g(M.Takeoff.ASCENT_DURATION, 's') * g(f'tau_{n}') + g(M.Takeoff.ASCENT_T_INITIAL, 's'))
        links = p.model.traj._linkages
        for a, b in [*zip(main, main[1:]), *zip(reserve, reserve[1:])]:      # the reserve mission starts on its own
            have = {k for k in links.get((a, b), {})}
            yield f'mass is continuous from {a} to {b}', ('mass', 'mass') in have, True
            yield f'time is continuous from {a} to {b}', ('time', 'time') in have or ('time', 'initial_time') in have, True
            yield f'distance is continuous from {a} to {b}', ('distance', 'distance') in have or ('distance', 'initial_distance') in have, True
            yield f'from the end to the start of {b}', all(o['loc_a'] == 'final' and o['loc_b'] == 'initial' for o in links.get((a, b), {}).values()), True
    return f


def scale(v, w):
    """The ratio of two terms if it is the same at some sample points, else None."""
    names = sorted(unknowns([v, w]))
    rng = np.random.default_rng(5)
    env = {n: rng.uniform(0.5, 2.0, 5) for n in names}
    a, b = evaluate([v, w], env, 5)
    with np.errstate(all='ignore'):
        r = np.ravel(a / b)
    return float(r[0]) if r.size == 5 and np.all(np.isfinite(r)) and r[0] and np.all(np.abs(r - r[0]) < 1e-9 * abs(r[0])) else None


def cases():
    C = {}
    for name in MISSIONS:
        for type_ in MISSION_TYPES.get(name, ('SIZING',)):
            C[f'assembled:{name}:{type_}'] = assembled(name, type_)
    for main in (1, 2):
        for reserve in (0, 1, 2):
            for margin in (0.0, 5.0):
                for add in (0.0, 300.0):
                    C[f'fuel:{main} main:{reserve} reserve:margin {margin}:additional {add}'] = fuel(main, reserve, margin, add, ignore=reserve == 1)
    C['phases of the mission'] = separation
    C['mission bus'] = bus
    for main in (1, 2, 3):
        for reserve in (0, 1, 2, 3):
            for margin in (0.0, 5.0):
                C[f'mission endpoints:{main} main:{reserve} reserve:margin {margin}'] = endpoints(main, reserve, margin)
    for nn in (1, 3):
        C[f'gearbox mission:{nn}'] = gearbox(nn)
        C[f'motor map:{nn}'] = motor_map(nn)
        C[f'motor mission:{nn}'] = motor(nn, 0.0)
        C[f'motor mission fixed speed:{nn}'] = motor(nn, 5000.0)
        C[f'battery:{nn}'] = battery(nn)
        C[f'uncorrected power:{nn}'] = uncorrect(nn)
        C[f'total drag:{nn}'] = total_drag(nn)
        C[f'solve alpha:{nn}'] = alpha(nn)
    C['gearbox sizing:simple'] = gearbox_sizing(True)
    C['gearbox sizing:detailed'] = gearbox_sizing(False)
    C['motor sizing'] = motor_sizing
    C['simplified takeoff'] = takeoff
    for mode in (AlphaModes.ROTATION, AlphaModes.FUSELAGE_PITCH):
        C[f'angle of attack:{mode.name}'] = control(mode, 1)
    return C
