"""C07 contracts: equations of motion (momentum, kinematics, energy, stall speed, path bookkeeping)."""
import numpy as np
from openmdao.utils.units import convert_units
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M
from ..spec import Registry, Skip

contract = Registry()
T = r'^mission\.two_dof\.ode\.'
U = r'^mission\.solved_two_dof\.ode\.'
H = r'^mission\.energy_state\.ode\.'
R = r'^mission\.ode\.'
X = r'^mission\.energy_state\.phases\.'
THR, LIFT, DRAG, MASS = D.Vehicle.Propulsion.THRUST_TOTAL, D.Vehicle.LIFT, D.Vehicle.DRAG, D.Vehicle.MASS
V, VR, GAM, GAMR = D.Mission.VELOCITY, D.Mission.VELOCITY_RATE, D.Mission.FLIGHT_PATH_ANGLE, D.Mission.FLIGHT_PATH_ANGLE_RATE
HR, XR, ALPHA, IW = D.Mission.ALTITUDE_RATE, D.Mission.DISTANCE_RATE, D.Vehicle.ANGLE_OF_ATTACK, A.Wing.INCIDENCE
MU = M.Takeoff.ROLLING_FRICTION_COEFFICIENT
LBF = convert_units(1.0, 'lbf', 'N')


def positive_part(x):
    return np.where(x < 0, 0.0, x)


# ---------------------------------------------------------------- 2DOF equations of motion (lbf, lbm, ft, s)
def newton(c, g, contact, alpha, gamma, clipped):
    """Rates of a point mass under thrust, lift, drag, weight and runway friction. W [lbf] = mass [lbm]."""
    W, t, L, Dr = c.i(MASS, 'lbm') * 1.0, c.i(THR, 'lbf'), c.i(LIFT, 'lbf'), c.i(DRAG, 'lbf')
    v, iw = c.i(V, 'ft/s'), c.i(IW, 'rad')
    along, across = t * np.cos(alpha - iw), t * np.sin(alpha - iw)
    N = W - L - across
    if clipped:
        N = positive_part(N)
    mu = c.i(MU) if contact else 0.0
    yield 'momentum along the path', c.o(VR, 'ft/s**2') * W, g * (along - Dr - W * np.sin(gamma) - mu * N)
    yield 'ground speed', c.o(XR, 'ft/s'), v * np.cos(gamma)
    if c.has_o(HR):
        yield 'climb rate', c.o(HR, 'ft/s'), v * np.sin(gamma)
    yield 'fuselage pitch', c.o('fuselage_pitch', 'deg'), gamma * (180 / np.pi) - c.i(IW, 'deg') + alpha * (180 / np.pi)
    if c.has_o('load_factor'):
        yield 'load factor', c.o('load_factor') * W * np.cos(gamma), L + across
    if c.has_o(GAMR):
        rate = c.o(GAMR, 'rad/s') * v * W
        if contact:
            yield 'path angle fixed on the ground', c.o(GAMR, 'rad/s'), 0.0
        else:
            yield 'momentum across the path', rate, g * (across + L - W * np.cos(gamma))
    return


@contract(T + r'flight_path_eom:FlightPathEOM$')
def flight_path(c):
    g, roll = c.opt(M.GRAVITY, 'ft/s**2'), c.opt('ground_roll')
    alpha = c.i(IW, 'rad') if roll else c.i(ALPHA, 'rad')
    yield from newton(c, g, roll, alpha, c.i(GAM, 'rad'), False)
    W, L, t = c.i(MASS, 'lbm'), c.i(LIFT, 'lbf'), c.i(THR, 'lbf')
    yield 'normal force', c.o('normal_force', 'lbf'), W - L - t * np.sin(alpha - c.i(IW, 'rad'))


@contract(T + r'takeoff_eom:TakeoffEOM$')
def takeoff(c):
    g, roll, rot = c.opt(M.GRAVITY, 'ft/s**2'), c.opt('ground_roll'), c.opt('rotation')
    alpha = c.i(IW, 'rad') if roll else c.i(ALPHA, 'rad')
    yield from newton(c, g, roll or rot, alpha, c.i(GAM, 'rad'), True)
    N = positive_part(c.i(MASS, 'lbm') - c.i(LIFT, 'lbf') - c.i(THR, 'lbf') * np.sin(alpha - c.i(IW, 'rad')))
    yield 'normal force', c.o('normal_force', 'lbf'), N if roll or rot else 0.0
    yield 'pitch rate', c.o('angle_of_attack_rate', 'deg/s'), c.opt('rotation_pitch_rate') if rot else 0.0


@contract(U + r'groundroll_eom:GroundrollEOM$')
def groundroll(c):
    alpha = c.i(ALPHA, 'rad')
    yield from newton(c, c.opt(M.GRAVITY, 'ft/s**2'), True, alpha, c.i(GAM, 'rad'), True)
    yield ('normal force', c.o('normal_force', 'lbf'),
           positive_part(c.i(MASS, 'lbm') - c.i(LIFT, 'lbf') - c.i(THR, 'lbf') * np.sin(alpha - c.i(IW, 'rad'))))
    yield 'pitch rate', c.o('angle_of_attack_rate', 'deg/s'), 0.0


@contract(U + r'unsteady_solved_eom:UnsteadySolvedEOM$')
def unsteady(c):
    roll, g = c.opt('ground_roll'), c.opt(M.GRAVITY, 'm/s**2')
    W, t, L, Dr, v = c.i('mass', 'lbm') * LBF, c.i(THR, 'N'), c.i(LIFT, 'N'), c.i(DRAG, 'N'), c.i(V, 'm/s')
    a, iw = c.i(ALPHA, 'rad'), c.i(IW, 'rad')
    gamma = 0.0 if roll else c.i(GAM, 'rad')
    cg, sg = (1.0, 0.0) if roll else (np.cos(gamma), np.sin(gamma))
    across = t * np.sin(a - iw)
    N = W - L - across
    mu = c.i(MU) if roll else 0.0
    yield 'normal force', c.o('normal_force', 'N'), N
    yield 'momentum along the path', c.o('dTAS_dt', 'm/s**2') * W, g * (t * np.cos(a - iw) - Dr - W * sg - mu * N)
    yield 'pace', c.o('dt_dr') * v * cg, 1.0
    yield 'fuselage pitch', c.o('fuselage_pitch', 'rad'), gamma - iw + a
    yield 'load factor', c.o('load_factor') * W * cg, L + across
    if not roll:
        yield 'momentum across the path', c.o('dgam_dt', 'rad/s') * v * W, g * (across + L - W * cg)
        yield 'path angle rate from the path shape', c.o('dgam_dt_approx', 'rad/s') * (1 + c.i('dh_dr')**2), c.i('d2h_dr2') * v * cg


@contract(U + r'gamma_comp:GammaComp$')
def gamma(c):
    yield 'path angle', np.tan(c.o(GAM, 'rad')), c.i('dh_dr')
    yield 'path angle slope', c.o('dgam_dr') * (1 + c.i('dh_dr')**2), c.i('d2h_dr2')


@contract(T + r'accel_eom:AccelerationRates$')
def accel(c):
    yield ('momentum', c.o(VR, 'ft/s**2') * c.i(MASS, 'lbm'), c.opt(M.GRAVITY, 'ft/s**2') * (c.i(THR, 'lbf') - c.i(DRAG, 'lbf')))
    yield 'ground speed', c.o(XR, 'ft/s'), c.i(V, 'ft/s')


@contract(T + r'flight_eom:EOMRates$')
def climb(c):
    W, t, Dr, v = c.i(MASS, 'lbm'), c.i(THR, 'lbf'), c.i(DRAG, 'lbf'), c.i(V, 'ft/s')
    g = c.o(GAM, 'rad')
    yield 'excess thrust balances the weight component', W * np.sin(g), t - Dr
    yield 'climb power', c.o(HR, 'ft/s') * W, v * (t - Dr)
    yield 'speed components', c.o(HR, 'ft/s')**2 + c.o(XR, 'ft/s')**2, v * v
    yield 'required lift', c.o('required_lift', 'lbf') + t * np.sin(c.i(ALPHA, 'rad')), W * np.cos(g)


@contract(T + r'simple_cruise_eom:DistanceComp$')
def cruise_distance(c):
    t = c.i('time', 's')
    yield ('distance', c.o(D.Mission.DISTANCE, 'nmi'), c.i('cruise_distance_initial', 'nmi') + c.i('TAS_cruise', 'nmi/s') * (t - t[0]))


@contract(T + r'taxi_eom:TaxiFuelComponent$')
def taxi(c):
    dt = c.opt(M.Taxi.DURATION, 's')
    burnt = -1.0 * c.i(D.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL, 'lbm/s') * dt
    yield 'fuel burnt', c.o('taxi_fuel_consumed', 'lbm'), burnt
    yield 'mass after taxi', c.o(MASS, 'lbm') + burnt, c.i(M.GROSS_MASS, 'lbm')


# ---------------------------------------------------------------- stall speed and speed margins
def stall(v, W, rho, S, CL):
    return 'at stall speed maximum lift carries the weight', v * v * rho * S * CL, 2.0 * W


@contract(T + r'v_rotate_comp:VRotateComp$')
def vrotate(c):
    v = c.o('Vrot', 'ft/s') - c.i('dV1', 'ft/s') - c.i('dVR', 'ft/s')
    yield stall(v, c.i('mass', 'lbm'), c.i('density', 'slug/ft**3'), c.i(A.Wing.AREA, 'ft**2'), c.i('CL_max'))


@contract(T + r'constraints\.flight_constraints:FlightConstraints$')
def flight_constraints(c):
    vmin = c.o('TAS_min', 'ft/s')
    yield stall(vmin / 1.1, c.i(MASS, 'lbm'), c.i(D.Atmosphere.DENSITY, 'slug/ft**3'), c.i(A.Wing.AREA, 'ft**2'), c.i('CL_max'))
    yield 'violation', c.o('TAS_violation', 'ft/s'), vmin - c.i(V, 'ft/s')
    yield 'pitch', c.o('theta', 'rad'), c.i(GAM, 'rad') - c.i(IW, 'rad') + c.i(ALPHA, 'rad')


@contract(T + r'constraints\.flight_constraints:ClimbAtTopOfClimb$')
def toc(c):
    yield 'rate of climb', c.o('ROC', 'ft/s'), c.i(V, 'ft/s') * np.sin(c.i(GAM, 'rad'))


@contract(T + r'constraints\.speed_constraints:SpeedConstraints$')
def speed_constraints(c):
    s = c.o('speed_constraint')
    yield 'EAS column', s[:, 0], c.i('EAS', 'kn') - c.opt('EAS_target')
    yield 'Mach column', s[:, 1], c.opt('EAS_target') * (c.i(D.Atmosphere.MACH) - c.opt('mach_target'))


@contract(H + r'takeoff_eom:StallSpeed$')
def stall_metric(c):
    yield stall(c.o('stall_speed', 'm/s'), c.i('mass', 'kg') * c.opt(M.GRAVITY, 'm/s**2'), c.i(D.Atmosphere.DENSITY, 'kg/m**3'),
                c.i(A.Wing.AREA, 'm**2'), c.i('lift_coefficient_max'))


@contract(X + r'simplified_takeoff:StallSpeed$')
def stall_simple(c):
    yield stall(c.o('v_stall', 'm/s'), c.i('mass', 'lbm') * 4.44822, c.i(D.Atmosphere.DENSITY, 'kg/m**3'), c.i(A.Wing.AREA, 'm**2'),
                c.i('Cl_max'))


@contract(X + r'simplified_landing:LandingCalc$')
def approach(c):
    # approach at 1.3 times the stall speed
    yield stall(c.o(M.Landing.INITIAL_VELOCITY, 'ft/s') / 1.3, c.i(M.FINAL_MASS, 'lbm'), c.i(D.Atmosphere.DENSITY, 'slug/ft**3'),
                c.i(A.Wing.AREA, 'ft**2'), c.i(M.Landing.LIFT_COEFFICIENT_MAX))


@contract(X + r'simplified_takeoff:FinalTakeoffConditions$')
def final_takeoff(c):
    yield 'mass', c.o(M.Takeoff.FINAL_MASS, 'lbm') + c.i(M.Takeoff.FUEL_MASS, 'lbm'), c.i('mass', 'lbm')
    yield 'safety speed', c.o(M.Takeoff.FINAL_VELOCITY, 'm/s'), 1.2309 * c.i('v_stall', 'm/s')
    yield 'obstacle height', c.o(M.Takeoff.FINAL_ALTITUDE, 'ft'), 35.0


# ---------------------------------------------------------------- landing
@contract(T + r'landing_eom:LandingAltitudeComponent$')
def landing_altitude(c):
    yield ('altitude', c.o(M.Landing.INITIAL_ALTITUDE, 'ft'), c.i(M.Landing.OBSTACLE_HEIGHT, 'ft') + c.i(M.Landing.AIRPORT_ALTITUDE, 'ft'))


@contract(T + r'landing_eom:GlideConditionComponent$')
def glide(c):
    W, S, rho = c.i('mass', 'lbm'), c.i(A.Wing.AREA, 'ft**2'), c.i(D.Atmosphere.DENSITY, 'slug/ft**3')
    g = c.opt(M.GRAVITY, 'ft/s**2')
    vs, vg, vt = c.o(M.Landing.STALL_VELOCITY, 'ft/s'), c.o(M.Landing.INITIAL_VELOCITY, 'ft/s'), c.o('TAS_touchdown', 'ft/s')
    th, k = c.o('theta', 'rad'), c.i(M.Landing.GLIDE_TO_STALL_RATIO)
    yield stall(vs, W, rho, S, c.i('CL_max'))
    yield 'glide speed', vg, k * vs
    yield 'touchdown speed is midway between stall and glide', 2.0 * vt, vs + vg
    yield 'sink rate', vg * np.sin(th), c.i(M.Landing.MAXIMUM_SINK_RATE, 'ft/s')
    yield 'glide slope', c.o('glide_distance', 'ft') * np.sin(th), c.i(M.Landing.INITIAL_ALTITUDE, 'ft') * np.cos(th)
    yield 'delay distance', c.o('delay_distance', 'ft'), vt * c.i(M.Landing.BRAKING_DELAY, 's')
    yield 'wing loading', c.o('wing_loading_land', 'lbf/ft**2') * S, W
    yield 'density ratio', c.o('density_ratio') * c.opt(M.SEA_LEVEL_DENSITY, 'slug/ft**3'), rho
    gt = c.i(M.Landing.TOUCHDOWN_SINK_RATE, 'ft/s') / vg
    n1 = c.i(M.Landing.MAXIMUM_FLARE_LOAD_FACTOR) - 1.0
    yield 'flare height', c.o('flare_alt', 'ft') * (2 * g * n1), vg**2 * (th**2 - gt**2)
    yield 'transition distance', c.o('tr_distance', 'ft') * (2 * g * n1 * th), vg**2 * (th - gt)**2


@contract(T + r'landing_eom:LandingGroundRollComponent$')
def landing_roll(c):
    roll, v = c.o('ground_roll_distance', 'ft'), c.i('TAS_touchdown', 'ft/s')
    yield ('segments add up', c.o(M.Landing.GROUND_DISTANCE, 'ft'),
           roll + c.i('tr_distance', 'ft') + c.i('delay_distance', 'ft') + c.i('glide_distance', 'ft'))
    yield 'average deceleration', c.o('average_acceleration') * (2 * c.opt(M.GRAVITY, 'ft/s**2') * roll), v**2
    # speed lost between touchdown and standstill: d(v^2)/ds = -2 g (FRAT + ARAT (v/vt)^2)
    mu, cd, cl = c.i(M.Landing.BRAKING_FRICTION_COEFFICIENT), c.i('touchdown_CD'), c.i('touchdown_CL')
    eff = cd - mu * cl
    net = mu - c.i('thrust_idle', 'lbf') / c.i('mass', 'lbm')
    vs = c.i(M.Landing.STALL_VELOCITY, 'ft/s')
    yield ('ground roll', roll * c.i('density_ratio') * eff,
           -13.0287 * c.i('wing_loading_land', 'lbf/ft**2') * np.log(net / (net + eff * v**2 / (c.i('CL_max') * vs**2))))


# ---------------------------------------------------------------- energy-state and detailed takeoff / landing (SI)
@contract(H + r'range_rate:RangeRate$')
def range_rate(c):
    yield 'speed components', c.o(XR, 'm/s')**2 + c.i(HR, 'm/s')**2, c.i(V, 'm/s')**2


@contract(H + r'required_thrust:RequiredThrust$')
def required_thrust(c):
    m, v, g = c.i(MASS, 'kg'), c.i(V, 'm/s'), c.opt(M.GRAVITY, 'm/s**2')
    yield ('power balance', (c.o('thrust_required', 'N') - c.i(DRAG, 'N')) * v, m * g * c.i(HR, 'm/s') + m * v * c.i(VR, 'm/s**2'))


@contract(R + r'specific_energy_rate:SpecificEnergyRate$')
def specific_power(c):
    g = c.opt(M.GRAVITY, 'm/s**2')
    yield ('excess power', c.o(D.Mission.SPECIFIC_ENERGY_RATE, 'm/s') * c.i(MASS, 'kg') * g, c.i(V, 'm/s') * (c.i(THR, 'N') - c.i(DRAG, 'N')))


@contract(R + r'altitude_rate:AltitudeRate$')
def altitude_rate(c):
    g = c.opt(M.GRAVITY, 'm/s**2')
    yield ('energy split', g * c.i(D.Mission.SPECIFIC_ENERGY_RATE, 'm/s'), g * c.o(HR, 'm/s') + c.i(V, 'm/s') * c.i(VR, 'm/s**2'))


@contract(H + r'takeoff_eom:DistanceRates$')
def distance_rates(c):
    v = c.i(V, 'm/s')
    if c.opt('climbing'):
        g = c.i(GAM, 'rad')
        yield 'ground speed', c.o(XR, 'm/s'), v * np.cos(g)
        yield 'climb rate', c.o(HR, 'm/s'), v * np.sin(g)
    else:
        yield 'ground speed', c.o(XR, 'm/s'), v


@contract(H + r'takeoff_eom:Accelerations$')
def accelerations(c):
    m = c.i(MASS, 'kg')
    yield 'horizontal', c.o('acceleration_horizontal', 'm/s**2') * m, c.i('forces_horizontal', 'N')
    yield 'vertical', c.o('acceleration_vertical', 'm/s**2') * m, c.i('forces_vertical', 'N')


@contract(H + r'takeoff_eom:VelocityRate$')
def velocity_rate(c):
    # v^2 = vh^2 + vv^2  =>  v dv/dt = vh ah + vv av
    vh, vv = c.i(XR, 'm/s'), c.i(HR, 'm/s')
    yield ('speed', c.o(VR, 'm/s**2') * np.sqrt(vh**2 + vv**2), vh * c.i('acceleration_horizontal', 'm/s**2')
           + vv * c.i('acceleration_vertical', 'm/s**2'))


@contract(H + r'takeoff_eom:FlightPathAngleRate$')
def path_rate(c):
    # tan(gamma) = vv / vh
    vh, vv = c.i(XR, 'm/s'), c.i(HR, 'm/s')
    yield ('path angle', c.o(GAMR, 'rad/s') * (vh**2 + vv**2), c.i('acceleration_vertical', 'm/s**2') * vh
           - c.i('acceleration_horizontal', 'm/s**2') * vv)


def body(c):
    return (c.i(MASS, 'kg') * c.opt(M.GRAVITY, 'm/s**2'), c.i(LIFT, 'N'), c.i(DRAG, 'N'),
            c.opt(M.Takeoff.ANGLE_OF_ATTACK_RUNWAY, 'rad', default=0.0), c.opt(M.Takeoff.THRUST_INCIDENCE, 'rad', default=0.0))


@contract(H + r'takeoff_eom:SumForces$')
def takeoff_forces(c):
    W, L, Dr, a0, ti = body(c)
    t = c.i(THR, 'N')
    if c.opt('climbing'):
        g = c.i(GAM, 'rad')
        ang = c.i(ALPHA, 'rad') - a0 + ti + g
        yield 'horizontal', c.o('forces_horizontal', 'N'), t * np.cos(ang) - Dr * np.cos(g) - L * np.sin(g)
        yield 'vertical', c.o('forces_vertical', 'N'), t * np.sin(ang) - Dr * np.sin(g) + L * np.cos(g) - W
    else:
        mu = c.opt('friction_coefficient')
        yield 'horizontal', c.o('forces_horizontal', 'N'), t * np.cos(ti) - Dr - mu * (W - L - t * np.sin(ti))


@contract(H + r'takeoff_eom:ClimbGradientForces$')
def gradient_forces(c):
    W, L, Dr, a0, ti = body(c)
    t, g = c.i(THR, 'N'), c.i(GAM, 'rad')
    ang = c.i(ALPHA, 'rad') - a0 + ti
    yield 'along the path', c.o('climb_gradient_forces_horizontal', 'N'), t * np.cos(ang) - Dr - W * np.sin(g)
    yield 'across the path', c.o('climb_gradient_forces_vertical', 'N'), t * np.sin(ang) + L - W * np.cos(g)


@contract(H + r'landing_eom:GlideSlopeForces$')
def glide_forces(c):
    # the thrust along the path and the thrust across the path that an unaccelerated descent needs
    W, L, Dr, a0, ti = body(c)
    g = c.i(GAM, 'rad')
    ang = c.i(ALPHA, 'rad') - a0 + ti
    p, r = c.o('forces_perpendicular', 'N'), c.o('required_thrust', 'N')
    yield 'balance along the path', (r + p / 2) * np.cos(ang), Dr + W * np.sin(g)
    yield 'balance across the path', (r - p / 2) * np.sin(ang), W * np.cos(g) - L


@contract(H + r'landing_eom:FlareSumForces$')
def flare_forces(c):
    # (horizontal force counted backwards)
    W, L, Dr, a0, ti = body(c)
    t, g = c.i(THR, 'N'), c.i(GAM, 'rad')
    ang = c.i(ALPHA, 'rad') - a0 + ti + g
    yield 'horizontal', -1.0 * c.o('forces_horizontal', 'N'), t * np.cos(ang) - Dr * np.cos(g) - L * np.sin(g)
    yield 'vertical', c.o('forces_vertical', 'N'), t * np.sin(ang) - Dr * np.sin(g) + L * np.cos(g) - W


@contract(H + r'landing_eom:GroundSumForces$')
def ground_forces(c):
    # (horizontal force counted backwards; friction only while the weight rests on the wheels)
    W, L, Dr, _, _ = body(c)
    yield 'vertical', c.o('forces_vertical', 'N'), L - W
    yield ('horizontal', c.o('forces_horizontal', 'N'), Dr - c.i(THR, 'N') + c.opt('friction_coefficient') * positive_part(W - L))


# ---------------------------------------------------------------- cruise range (interval by interval)
NODES = {r'breguet_cruise_eom:': 3}


def intervals(c):
    r, t, v = c.o('cruise_range', 'nmi'), c.o('cruise_time', 's'), c.i('TAS_cruise', 'nmi/s')
    yield 'starts at the initial range', r[0], c.i('cruise_distance_initial', 'nmi')
    yield 'starts at the initial time', t[0], c.i('cruise_time_initial', 's')
    yield 'distance = average speed * time in every interval', 2.0 * (r[1:] - r[:-1]), (v[1:] + v[:-1]) * (t[1:] - t[:-1])


@contract(T + r'breguet_cruise_eom:RangeComp$')
def breguet(c):
    yield from intervals(c)
    r, v, m = c.o('cruise_range', 'nmi'), c.i('TAS_cruise', 'nmi/s'), c.i('mass', 'lbm')
    ff = -1.0 * c.i(D.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL, 'lbm/s')
    k = v * m / ff
    yield 'Breguet range', 2.0 * (r[1:] - r[:-1]), (k[1:] + k[:-1]) * np.log(m[:-1] / m[1:])


@contract(T + r'breguet_cruise_eom:ElectricRangeComp$')
def electric(c):
    yield from intervals(c)
    r, v, e = c.o('cruise_range', 'nmi'), c.i('TAS_cruise', 'nmi/s'), c.i(D.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED, 'kW*s')
    k = v / c.i(D.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL, 'kW')
    yield 'range = energy used in the interval * distance per energy', 2.0 * (r[1:] - r[:-1]), (k[1:] + k[:-1]) * (e[1:] - e[:-1])
