"""C08 contracts: aerodynamic forces, coefficients, drag build-up and high-lift bookkeeping."""
import numpy as np
from aviary.variable_info.enums import AircraftTypes, Verbosity
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M, Settings
from ..spec import Registry, Skip

contract = Registry()
F = r'^subsystems\.aerodynamics\.flops_based\.'
G = r'^subsystems\.aerodynamics\.gasp_based\.'
Q, S, MACH, CL, CD = D.Atmosphere.DYNAMIC_PRESSURE, A.Wing.AREA, D.Atmosphere.MACH, D.Vehicle.LIFT_COEFFICIENT, D.Vehicle.DRAG_COEFFICIENT
LIFT, DRAG, MASS, ALPHA, AR = D.Vehicle.LIFT, D.Vehicle.DRAG, D.Vehicle.MASS, D.Vehicle.ANGLE_OF_ATTACK, A.Wing.ASPECT_RATIO
P = D.Atmosphere.STATIC_PRESSURE
A0 = A.Wing.ZERO_LIFT_ANGLE
FEI, SHIELD = 'interference_independent_of_shielded_area', 'drag_loss_due_to_shielded_wing_area'
RAD = np.pi / 180.0


# ---------------------------------------------------------------- forces <-> coefficients
@contract(F + r'lift:SimpleLift$', F + r'lift:LiftEqualsWeight$', G + r'common:AeroForces$')
def lift_force(c):
    cl = c.i(CL) if c.has_i(CL) else c.o(CL)
    yield 'lift = q S CL', c.o(LIFT, 'N'), c.i(Q, 'N/m**2') * c.i(S, 'm**2') * cl


@contract(F + r'drag:SimpleDrag$', G + r'common:AeroForces$')
def drag_force(c):
    yield 'drag = q S CD', c.o(DRAG, 'N'), c.i(Q, 'N/m**2') * c.i(S, 'm**2') * c.i(CD)


@contract(F + r'lift:LiftEqualsWeight$')
def weight(c):
    yield 'lift equals weight', c.o(LIFT, 'N'), c.i(MASS, 'kg') * c.opt(M.GRAVITY, 'm/s**2')


@contract(G + r'common:CLFromLift$')
def cl_from_lift(c):
    yield 'q S CL = required lift', c.o(CL) * c.i(Q, 'psf') * c.i(S, 'ft**2'), c.i('lift_req', 'lbf')


@contract(r'^subsystems\.aerodynamics\.aero_common:DynamicPressure$')
def q_from_mach(c):
    yield 'q = gamma/2 P M^2', c.o(Q, 'N/m**2'), c.opt('gamma') / 2 * c.i(P, 'N/m**2') * c.i(MACH)**2


@contract(F + r'tabular_aero_group:_DynamicPressure$')
def q_from_speed(c):
    v = c.i(D.Mission.VELOCITY, 'm/s')
    yield 'q = rho V^2 / 2', c.o(Q, 'N/m**2'), c.i(D.Atmosphere.DENSITY, 'kg/m**3') * v * v / 2


# ---------------------------------------------------------------- FLOPS-based drag
@contract(F + r'drag:ScaledCD$')
def scaled_cd(c):
    m, pre = c.i(MACH), c.i('CD_prescaled')
    yield 'subsonic scaling', c.o(CD), c.i(A.Design.SUBSONIC_DRAG_COEFF_FACTOR) * pre, m < 1.0
    yield 'supersonic scaling', c.o(CD), c.i(A.Design.SUPERSONIC_DRAG_COEFF_FACTOR) * pre, m > 1.0


def _cl(c):
    q = c.opt('gamma') / 2 * c.i(P, 'lbf/ft**2') * c.i(MACH)**2
    return c.i(LIFT, 'lbf') / (q * c.i(S, 'ft**2'))


@contract(F + r'induced_drag:InducedDrag$')
def induced(c):
    cl, ar, f, tr = _cl(c), c.i(AR), c.i(A.Wing.SPAN_EFFICIENCY_FACTOR), c.i(A.Wing.TAPER_RATIO)
    e0 = 1.0 + 0.1 * ar * (0.4226 * np.sqrt(ar) - 0.35 * tr - 0.143) if c.opt(A.Wing.SPAN_EFFICIENCY_REDUCTION) else 1.0
    cdi, sweep = c.o('induced_drag_coeff'), c.i(A.Wing.SWEEP, 'deg')
    up = sweep > 0.0
    yield 'additive span efficiency', cdi * np.pi * ar * (e0 + f), cl**2, (f < 0.3) & up
    yield 'multiplicative span efficiency', cdi * np.pi * ar * (e0 * f), cl**2, (f > 0.3) & up


@contract(F + r'induced_drag:InducedDrag$')
def induced_polar(c):
    """Induced drag is a pure CL^2 law at fixed Mach number: doubling the lift quadruples it (any sweep)."""
    r = c.rescaled(LIFT, 2.0, ['induced_drag_coeff'])
    yield 'quadratic in lift', r['induced_drag_coeff'], 4.0 * c.o('induced_drag_coeff')


@contract(F + r'premission_aero:TakeoffLoverD$')
def takeoff_ld(c):
    cl = 0.66 * c.i(M.Takeoff.LIFT_COEFFICIENT_MAX)
    ld = c.o(M.Takeoff.LIFT_OVER_DRAG)
    yield 'CL over CD', ld * (0.015 + cl**2 / (0.6 * np.pi * c.i(AR))), cl


@contract(F + r'ground_effect:GroundEffect$')
def flops_ground_effect(c):
    state = (c.i(D.Mission.ALTITUDE, 'm') - c.opt('ground_altitude') + c.i(A.Wing.HEIGHT, 'm')) / c.i(A.Wing.SPAN, 'm')
    cl, cd, cl0, cd0, cdm = c.o('lift_coefficient'), c.o('drag_coefficient'), c.i('base_lift_coefficient'), c.i('base_drag_coefficient'), c.i('minimum_drag_coefficient')
    away = state > 1.1
    yield 'free air lift', cl, cl0, away
    yield 'free air drag', cd, cd0, away
    ar, near = c.i(AR), state <= 1.1
    t = state * (6.0 + ar)**2 / (36.0 + ar)
    u = 32.0 * t * t + 1.0
    hf = np.where(state > 1.0, 10.0 * (1.1 - state), 1.0)
    klift = 1.0 + hf / (u - 0.5 + 4.0 * t * np.sqrt(u))
    v = 1.0 + 32.0 * state**2
    kdrag = 1.0 - hf / (4.0 * state * np.sqrt(v) + v)
    ang = c.i(ALPHA, 'rad') + c.i(D.Mission.FLIGHT_PATH_ANGLE, 'rad')
    yield 'lift amplification', cl, cl0 * klift, near
    yield 'drag change', cd, cdm + klift * kdrag * (cd0 - cdm) + ang * (cl - cl0), near


@contract(F + r'induced_drag:InducedDrag$')
def forward_sweep(c):
    """Forward swept wings add the Warner Robins term, a function of the tangent of the sweep angle."""
    mach, lift, p = c.i(D.Atmosphere.MACH), c.i(LIFT, 'lbf'), c.i(D.Atmosphere.STATIC_PRESSURE, 'lbf/ft**2')
    ar, tr, sweep = c.i(A.Wing.ASPECT_RATIO), c.i(A.Wing.TAPER_RATIO), c.i(A.Wing.SWEEP, 'rad')
    cl = 2.0 * lift / (c.i(S, 'ft**2') * c.opt('gamma') * p * mach**2)
    th, t = (1.0 - tr) / (1.0 + tr) / ar, np.tan(sweep)
    ca, cb = 1.0 / np.sqrt(1.0 + (t - 3.0 * th)**2), 1.0 / np.sqrt(1.0 + (t + th)**2)
    k = 0.5 * ((1.1 - 0.11 / (1.1 - mach * ca)) / (1.1 - 0.11 / (1.1 - mach * cb)) - 1.0)**2
    f = c.i(A.Wing.SPAN_EFFICIENCY_FACTOR)
    e0 = 1.0 + 0.1 * ar * (0.4226 * np.sqrt(ar) - 0.35 * tr - 0.143) if c.opt(A.Wing.SPAN_EFFICIENCY_REDUCTION) else 1.0
    got = (c.o('induced_drag_coeff') / cl**2 - k) * np.pi * ar
    yield 'forward sweep', got * (e0 + f), 1.0, (c.i(A.Wing.SWEEP, "deg") < 0.0) & (f < 0.3)
    yield 'forward sweep', got * (e0 * f), 1.0, (c.i(A.Wing.SWEEP, "deg") < 0.0) & (f > 0.3)


@contract(F + r'buffet_lift:BuffetLift$')
def buffet(c):
    x, ar, cam = c.o('DELCLB'), c.i(A.Wing.ASPECT_RATIO), c.i(A.Wing.MAX_CAMBER_AT_70_SEMISPAN)
    yield 'proportional to the aspect ratio', c.rescaled(A.Wing.ASPECT_RATIO, 2.0, ['DELCLB'])['DELCLB'], 2.0 * x
    yield 'camber', x, (1.0 + cam / 10.0) * c.rescaled(A.Wing.MAX_CAMBER_AT_70_SEMISPAN, 0.0, ['DELCLB'])['DELCLB']
    yield 'sweep', x * np.cos(c.i(A.Wing.SWEEP, 'rad')), c.rescaled(A.Wing.SWEEP, 0.0, ['DELCLB'])['DELCLB']


@contract(F + r'mux_component:MuxComponent$')
def mux(c):
    n_eng = np.atleast_1d(c.opt(A.Engine.NUM_ENGINES))
    parts = [(A.Wing, 1, 0), (A.HorizontalTail, c.opt(A.HorizontalTail.NUM_TAILS), 0), (A.VerticalTail, c.opt(A.VerticalTail.NUM_TAILS), 0),
             (A.Fuselage, c.opt(A.Fuselage.NUM_FUSELAGES), 0)] + [(A.Nacelle, int(n), i) for i, n in enumerate(n_eng)]
    order = [(p, i) for p, n, i in parts for _ in range(int(n))]
    for out, attr, u in (('wetted_areas', 'WETTED_AREA', 'ft**2'), ('fineness_ratios', 'FINENESS', None), ('characteristic_lengths', 'CHARACTERISTIC_LENGTH', 'ft'),
                         ('laminar_fractions_upper', 'LAMINAR_FLOW_UPPER', None), ('laminar_fractions_lower', 'LAMINAR_FLOW_LOWER', None)):
        got = c.o(out, u).ravel()
        if len(got) != len(order):
            yield out, np.array([len(got)]), np.array([len(order)])
            continue
        for k, (p, i) in enumerate(order):
            yield f'{out} entry', got[k], c.i(getattr(p, attr), u).ravel()[i]


@contract(F + r'skin_friction_drag:SkinFrictionDrag$')
def skin_friction_drag(c):
    cdf = c.o('skin_friction_drag_coeff')
    a = c.rescaled(S, 2.0, ['skin_friction_drag_coeff'])['skin_friction_drag_coeff']
    yield 'referred to the wing area', 2.0 * a, cdf
    w = c.rescaled('wetted_areas', 2.0, ['skin_friction_drag_coeff'])['skin_friction_drag_coeff']
    yield 'proportional to the wetted areas', w, 2.0 * cdf
    n = c.i('wetted_areas').size
    total = 0.0
    for k in range(n):
        f = [0.0] * n
        f[k] = 1.0
        total = total + c.rescaled('wetted_areas', np.array(f), ['skin_friction_drag_coeff'])['skin_friction_drag_coeff']
    yield 'sum over the parts', total, cdf
    x = c.i(A.Design.PERCENT_EXCRESCENCE_DRAG)
    z = c.rescaled(A.Design.PERCENT_EXCRESCENCE_DRAG, 0.0, ['skin_friction_drag_coeff'])['skin_friction_drag_coeff']
    yield 'excrescence fraction', cdf, (1.0 + x) * z


# ---------------------------------------------------------------- GASP-based lift
def _basic(c):
    return c.i('lift_curve_slope'), c.i(A0, 'deg')


@contract(G + r'gaspaero:LiftCoeffClean$')
def lift_clean(c):
    cla, a0 = _basic(c)
    lr = c.i('lift_ratio')
    alpha = c.o(ALPHA, 'deg') if c.opt('output_alpha') else c.i(ALPHA, 'deg')
    cl = c.i(CL) if c.opt('output_alpha') else c.o(CL)
    clmax = c.i(A.Design.LIFT_COEFFICIENT_MAX_FLAPS_UP)
    yield 'linear lift curve', cl, cla * (alpha - a0) * RAD * (1 + lr)
    yield 'maximum lift', c.o('CL_max'), clmax * (1 + lr)
    yield 'stall is where the lift curve reaches CL_max', c.o('CL_max'), cla * (c.o('alpha_stall') - a0) * RAD * (1 + lr)


@contract(G + r'gaspaero:BWBLiftCoeffClean$')
def lift_clean_bwb(c):
    cla, a0 = _basic(c)
    sw, se, sp, clb = c.i(S, 'ft**2'), c.i(A.Wing.EXPOSED_AREA, 'ft**2'), c.i(A.Fuselage.PLANFORM_AREA, 'ft**2'), c.i('body_lift_curve_slope')
    alpha = c.o(ALPHA, 'deg') if c.opt('output_alpha') else c.i(ALPHA, 'deg')
    cl = c.i(CL) if c.opt('output_alpha') else c.o(CL)
    yield 'wing plus body lift curve', cl * sw, (se * cla + sp * clb) * (alpha - a0) * RAD
    yield 'maximum lift', c.o('CL_max'), c.i(A.Design.LIFT_COEFFICIENT_MAX_FLAPS_UP)
    yield 'stall is where the wing lift curve reaches CL_max', c.o('CL_max'), cla * (c.o('alpha_stall') - a0) * RAD


@contract(G + r'gaspaero:LiftCoeff$')
def lift_flaps(c):
    cla, a0 = _basic(c)
    lr, k, dcl, clm, ff = c.i('lift_ratio'), c.i('kclge'), c.i('dCL_flaps_model'), c.i('CL_max_flaps'), c.i('flap_factor')
    base, full = c.o('CL_base'), c.o('dCL_flaps_full')
    yield 'lift curve in ground effect', base, k * cla * (c.i(ALPHA, 'deg') - a0) * RAD * (1 + lr)
    yield 'flap increment', full, dcl * (1 + lr)
    yield 'full deployment', c.o('CL_full_flaps'), base + full
    yield 'deployment interpolates from clean to full', c.o(CL), (1.0 - ff) * base + ff * c.o('CL_full_flaps')
    yield 'maximum lift', c.o('CL_max'), clm * (1 + lr)
    yield 'stall is where the flapped lift curve reaches CL_max', c.o('CL_max'), (k * cla * (c.o('alpha_stall', 'deg') - a0) * RAD + dcl) * (1 + lr)


@contract(G + r'gaspaero:BWBLiftCoeff$')
def lift_flaps_bwb(c):
    cla, a0 = _basic(c)
    k, dcl, clm, ff = c.i('kclge'), c.i('dCL_flaps_model'), c.i('CL_max_flaps'), c.i('flap_factor')
    sw, se, sp, clb = c.i(S, 'ft**2'), c.i(A.Wing.EXPOSED_AREA, 'ft**2'), c.i(A.Fuselage.PLANFORM_AREA, 'ft**2'), c.i('body_lift_curve_slope')
    da = (c.i(ALPHA, 'deg') - a0) * RAD
    yield 'wing lift curve in ground effect', c.o('CL_base'), k * cla * da
    yield 'flap increment', c.o('dCL_flaps_full'), dcl
    yield 'full deployment', c.o('CL_full_flaps') * sw, se * (k * cla * da + dcl) + sp * k * clb * da
    yield 'partial deployment', c.o(CL) * sw, se * (k * cla * da + ff * dcl) + sp * k * clb * da
    yield 'maximum lift', c.o('CL_max'), clm
    yield 'stall is where the flapped wing lift curve reaches CL_max', c.o('CL_max'), k * cla * (c.o('alpha_stall', 'deg') - a0) * RAD + dcl


@contract(G + r'gaspaero:BWBBodyLiftCurveSlope$')
def prandtl_glauert(c):
    m = c.i(MACH)
    yield 'Prandtl-Glauert', c.o('body_lift_curve_slope')**2 * (1 - m * m), c.i(A.Fuselage.LIFT_CURVE_SLOPE_MACH0)**2


@contract(G + r'gaspaero:GroundEffect$')
def gasp_ground_effect(c):
    hac = c.i(A.Wing.HEIGHT, 'ft') + c.i(D.Mission.ALTITUDE, 'ft') - c.i('airport_alt', 'ft')
    yield 'no ground effect ten spans up', c.o('kclge'), 1.0, hac / c.i(A.Wing.SPAN, 'ft') > 10.0


# ---------------------------------------------------------------- GASP-based drag
@contract(G + r'gaspaero:DragCoefClean$')
def drag_clean(c):
    m, cl = c.i(MACH), c.i(CL)
    cd0 = c.i('SA5') + c.i('SA6') * c.i('cf')
    cdi = c.i('SA7') * cl * cl
    comp0 = c.rescaled(A.Design.COMPRESSIBILITY_DRAG_FACTOR, 0.0, [CD])[CD]
    base = cd0 * c.i(A.Design.ZERO_LIFT_DRAG_COEFF_FACTOR) + cdi * c.i(A.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR)
    sub, sup = c.i(A.Design.SUBSONIC_DRAG_COEFF_FACTOR), c.i(A.Design.SUPERSONIC_DRAG_COEFF_FACTOR)
    yield 'subsonic build-up without compressibility', comp0, base * sub, m < 1.0
    yield 'supersonic build-up without compressibility', comp0, base * sup, m > 1.0
    comp2 = c.rescaled(A.Design.COMPRESSIBILITY_DRAG_FACTOR, 2.0, [CD])[CD]
    yield 'compressibility factor scales its own term', comp2 - c.o(CD), c.o(CD) - comp0


@contract(G + r'gaspaero:DragCoef$')
def drag_flaps(c):
    s, defl = c.i(S, 'ft**2'), c.i('flap_defl', 'deg')
    yield 'flap drag', c.o('dCD_flaps_full'), c.i('dCD_flaps_model')
    yield ('gear drag', c.o('dCD_gear_full') * s, 0.0033 * c.i(A.Design.GROSS_MASS, 'lbm')**0.785 * (1 - 0.454545 * defl / 50))
    r = c.rescaled('SA5', 2.0, ['CD_base'])['CD_base']
    yield 'parasite drag adds directly', r, c.o('CD_base') + c.i('SA5')
    # the lift-dependent part: out of CL = 0 and the flap shift, drag is SA5 + SA6 cf
    z = c.rescaled(CL, 0.0, ['CD_base'])['CD_base']
    cdi0 = c.i('SA7') * (c.i('dCL_flaps_coef') * c.i('dCL_flaps_model'))**2 / c.i('CDI_factor')
    hac = c.i(A.Wing.HEIGHT, 'ft') + c.i(D.Mission.ALTITUDE, 'ft') - c.i('airport_alt', 'ft')
    heff = 2 * hac - np.sin(defl * RAD) * c.i(A.Wing.FLAP_CHORD_RATIO) * c.i(A.Wing.AVERAGE_CHORD, 'ft')
    sig = np.exp(-2.48 * (heff / c.i(A.Wing.SPAN, 'ft'))**0.768)
    yield 'drag at zero lift', z, c.i('SA5') + c.i('SA6') * c.i('cf') + cdi0 * (1 - sig)


@contract(G + r'table_based:GearDragIncrement$')
def gear(c):
    yield ('gear drag', c.o('dCD') * c.i(S, 'ft**2'), 0.0033 * c.i(A.Design.GROSS_MASS, 'lbm')**0.785 * (1 - 0.454545 * c.i('flap_defl', 'deg') / 50))


@contract(G + r'gaspaero:AeroGeom$')
def aero_geom(c):
    """Flat-plate build-up SA5 = (fe - few)/S: every contribution is referred to the wing area and scaled by its own factor."""
    s, sa5 = c.i(S, 'ft**2'), c.o('SA5')
    r = c.rescaled(A.Design.DRAG_COEFFICIENT_INCREMENT, 2.0, ['SA5'])['SA5']
    yield 'drag coefficient increment adds directly', r - sa5, c.i(A.Design.DRAG_COEFFICIENT_INCREMENT)
    r = c.rescaled(A.Fuselage.FLAT_PLATE_AREA_INCREMENT, 2.0, ['SA5'])['SA5']
    ex = 1 + c.i(A.Design.EXCRESCENCE_DRAG_FACTOR) * c.i(A.Design.PERCENT_EXCRESCENCE_DRAG)
    yield 'fuselage flat plate increment', (r - sa5) * s, c.i(A.Fuselage.FLAT_PLATE_AREA_INCREMENT, 'ft**2') * ex


@contract(G + r'gaspaero:AeroGeom$')
def aero_geom_factors(c):
    """A component drag factor acts exactly like the size of the component it scales."""
    pairs = [(A.Fuselage.DRAG_FACTOR, A.Fuselage.FORM_FACTOR), (A.HorizontalTail.DRAG_FACTOR, A.HorizontalTail.FORM_FACTOR),
             (A.VerticalTail.DRAG_FACTOR, A.VerticalTail.FORM_FACTOR), (A.Nacelle.DRAG_FACTOR, A.Nacelle.FORM_FACTOR),
             (A.Nacelle.PYLON_DRAG_FACTOR, A.Nacelle.DRAG_FACTOR), (A.HorizontalTail.AREA, A.HorizontalTail.FORM_FACTOR),
             (A.VerticalTail.AREA, A.VerticalTail.FORM_FACTOR), (A.Fuselage.WETTED_AREA, A.Fuselage.FORM_FACTOR),
             (A.Nacelle.SURFACE_AREA, A.Nacelle.FORM_FACTOR), (A.Design.INTERFERENCE_DRAG_FACTOR, A.Wing.FUSELAGE_INTERFERENCE_FACTOR),
             (A.Design.EXCRESCENCE_DRAG_FACTOR, A.Design.PERCENT_EXCRESCENCE_DRAG)]
    if c.opt(A.Wing.HAS_STRUT):
        pairs += [(A.Strut.DRAG_FACTOR, A.Strut.AREA_RATIO), (A.Strut.FUSELAGE_INTERFERENCE_FACTOR, A.Strut.AREA_RATIO)]
    else:
        pairs += []
    outs = ['SA5', 'SA7']
    for a, b in pairs:
        x, y = c.rescaled(a, 2.0, outs), c.rescaled(b, 2.0, outs)
        yield f'{a} acts like {b}', x['SA5'], y['SA5']


@contract(G + r'gaspaero:AeroGeom$')
def aero_geom_wing(c):
    ff = c.i(A.Wing.FORM_FACTOR)
    r = c.rescaled(A.Wing.FORM_FACTOR, 2.0, ['SA6'])['SA6']
    yield 'wing friction coefficient proportional to its form factor', r, 2.0 * c.o('SA6')
    m = c.i(MACH)
    yield 'turbulent friction coefficient', c.o('cf')**(1 / 0.65) * (1 + 0.144 * m * m), (0.455 / 7**2.58)**(1 / 0.65)


@contract(G + r'gaspaero:WingTailRatios$')
def ratios(c):
    s, b, sh, bh = c.i(S, 'ft**2'), c.i(A.Wing.SPAN, 'ft'), c.i(A.HorizontalTail.AREA, 'ft**2'), c.i(A.HorizontalTail.SPAN, 'ft')
    yield 'area ratio', c.o('sbar') * s, sh
    yield 'span ratio', c.o('bbar') * b, bh
    yield 'chord ratio', c.o('cbar') * c.i(A.Wing.AVERAGE_CHORD, 'ft'), c.i(A.HorizontalTail.AVERAGE_CHORD, 'ft')
    yield 'span ratio used for induced drag', c.o('bbar_alt') * b, bh, bh > 0.01 * b
    t = c.i(A.Wing.THICKNESS_TO_CHORD_ROOT) * 2 * s / (b * (1 + c.i(A.Wing.TAPER_RATIO)))
    gap = (c.i(A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION) * c.i(A.VerticalTail.SPAN, 'ft')
           - (c.i(A.Fuselage.AVG_DIAMETER, 'ft') - t) * (c.i(A.Wing.VERTICAL_MOUNT_LOCATION) - 0.5))
    yield 'height of the tail above the wing', (c.o('hbar') * b)**2, gap**2


@contract(G + r'gaspaero:UFac$')
def ufac(c):
    if c.opt(A.Design.TYPE) is not AircraftTypes.TRANSPORT:
        raise Skip
    lr, bb = c.i('lift_ratio'), c.i('bbar_alt')
    yield 'biplane interference', c.o('ufac') * (c.i('sigstr') * (lr / bb)**2 + 2 * c.i('sigma') * lr / bb + 1), (1 + lr)**2


@contract(G + r'gasp_aero_coeffs:(BWB)?FormFactor$')
def fuselage_form_factor(c):
    d = c.i(A.Fuselage.AVG_DIAMETER, 'ft') if c.has_i(A.Fuselage.AVG_DIAMETER) else c.i(A.Fuselage.HYDRAULIC_DIAMETER, 'ft')
    x = d / c.i(A.Fuselage.LENGTH, 'ft')
    yield 'fuselage form factor', c.o(A.Fuselage.FORM_FACTOR), 1 + 1.5 * x**1.5 + 7 * x**3


@contract(G + r'gaspaero:(BWB)?SIWB$')
def siwb(c):
    d = c.i(A.Fuselage.AVG_DIAMETER, 'ft') if c.has_i(A.Fuselage.AVG_DIAMETER) else c.i(A.Fuselage.HYDRAULIC_DIAMETER, 'ft')
    x = d / c.i(A.Wing.SPAN, 'ft')
    yield 'wing-body interference', c.o('siwb'), 1 - 0.0088 * x - 1.7364 * x**2 - 2.303 * x**3 + 6.0606 * x**4


@contract(G + r'gasp_aero_coeffs:AeroFormfactors$')
def form_factors(c):
    m = c.i(A.Design.MACH)
    m2 = m * m
    k = 1.02 * 2
    for out, part in ((A.Wing.FORM_FACTOR, A.Wing), (A.VerticalTail.FORM_FACTOR, A.VerticalTail), (A.HorizontalTail.FORM_FACTOR, A.HorizontalTail)):
        t = c.i(A.Wing.THICKNESS_TO_CHORD_UNWEIGHTED if part is A.Wing else part.THICKNESS_TO_CHORD)
        cs = np.cos(c.i(part.SWEEP, 'rad'))
        corr = 1 + 0.05 * (1 - c.i(A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION)) if part is A.HorizontalTail else 1.0
        yield 'form factor', c.o(out), k * corr * (1 + t * (2 - m2) * cs / np.sqrt(1 - m2 * cs * cs) + 100 * t**4)
    x = c.i(A.Nacelle.AVG_LENGTH, 'ft') / c.i(A.Nacelle.AVG_DIAMETER, 'ft')
    yield 'nacelle form factor', c.o(A.Nacelle.FORM_FACTOR), 1.5 * (1 + 0.35 / x)


# ---------------------------------------------------------------- wing-fuselage interference
@contract(G + r'interference:RootChord$')
def root_chord(c):
    yield 'trapezoid', c.o('CROOT') * c.i(A.Wing.SPAN, 'ft') * (1 + c.i(A.Wing.TAPER_RATIO)), 2 * c.i(S, 'ft**2')


@contract(G + r'interference:CommonVariables$')
def wing_in_fuselage(c):
    yield 'vertical position', c.o('ZW_RF'), 2 * c.i(A.Wing.VERTICAL_MOUNT_LOCATION) - 1
    yield 'root thickness in diameters', c.o('wtofd') * c.i(A.Fuselage.AVG_DIAMETER, 'ft'), c.i('CROOT') * c.i(A.Wing.THICKNESS_TO_CHORD_ROOT)


@contract(G + r'interference:TopAndBottomWidth$')
def body_width(c):
    z, t, d, w = c.i('ZW_RF'), c.i('wtofd'), c.i(A.Fuselage.AVG_DIAMETER, 'ft'), c.o('WBODYWF')
    top, bot = 1 - (z + t)**2, 1 - (z - t)**2
    yield 'chord of the circle at both wing surfaces', w, 0.5 * d * (np.sqrt(top) + np.sqrt(bot)), (top > 0) & (bot > 0)
    yield 'upper surface clear of the body', w, 0.5 * d * np.sqrt(bot), (top < 0) & (bot > 0)
    yield 'lower surface clear of the body', w, 0.5 * d * np.sqrt(top), (top > 0) & (bot < 0)
    yield 'wing clear of the body', w, 0.0, (top < 0) & (bot < 0)


@contract(G + r'interference:BodyRatios$')
def at_body_side(c):
    x = c.i('WBODYWF') / c.i(A.Wing.SPAN, 'ft')
    tr, tt = c.i(A.Wing.THICKNESS_TO_CHORD_ROOT), c.i(A.Wing.THICKNESS_TO_CHORD_TIP)
    yield 'thickness at the body side', c.o('TCBODYWF'), (1 - x) * tr + x * tt
    yield 'chord at the body side', c.o('CBODYWF'), c.i('CROOT') * ((1 - x) + x * c.i(A.Wing.TAPER_RATIO))


@contract(G + r'interference:InterferenceDrag$')
def shielded(c):
    yield 'shielded wing area', c.o(SHIELD), (c.i('CROOT') + c.i('CBODYWF')) / 2 * c.i('WBODYWF')


@contract(G + r'interference:WingFuselageInterferenceMission$')
def shield_mission(c):
    o = 'wing_fuselage_interference_flat_plate_equivalent'
    r = c.rescaled(SHIELD, 0.0, [o])[o]
    yield 'without shielding', r, c.i(FEI)


# ---------------------------------------------------------------- high-lift model
@contract(G + r'flaps_model\.Cl_max:CLmaxCalculation$')
def clmax(c):
    v = {i: c.i(f'VLAM{i}') for i in range(1, 15)}
    wing = c.i(A.Wing.MAX_LIFT_REF) * v[1] * v[2]
    flap = c.i(A.Wing.FLAP_LIFT_INCREMENT_OPTIMUM) * v[3] * v[4] * v[5] * v[6] * v[7] * v[8]
    slat = c.i(A.Wing.SLAT_LIFT_INCREMENT_OPTIMUM) * v[9] * v[10] * v[11] * v[12]
    yield 'maximum lift build-up', c.o('CL_max'), (wing + flap + slat) * v[13] * v[14] + c.i('fus_lift')
    m = c.o(MACH)
    yield 'stall Mach number carries the wing loading', 0.7 * c.i(P, 'lbf/ft**2') * m * m * c.o('CL_max'), c.i(A.Design.WING_LOADING, 'lbf/ft**2')
    yield ('Reynolds number', c.o('reynolds') * 1e5 * c.i(D.Atmosphere.KINEMATIC_VISCOSITY, 'ft**2/s'),
           m * c.i(D.Atmosphere.SPEED_OF_SOUND, 'ft/s') * c.i(A.Wing.AVERAGE_CHORD, 'ft'))


@contract(G + r'flaps_model\.L_and_D_increments:LiftAndDragIncrements$')
def flap_increments(c):
    v = {i: c.i(f'VLAM{i}') for i in (3, 4, 5, 6, 7, 8, 13, 14)}
    cl = c.i(A.Wing.FLAP_LIFT_INCREMENT_OPTIMUM)
    for i in v:
        cl = cl * v[i]
    cd = c.i(A.Wing.FLAP_DRAG_INCREMENT_OPTIMUM)
    for i in range(1, 6):
        cd = cd * c.i(f'VDEL{i}')
    yield 'lift increment', c.o('delta_CL'), cl
    yield 'drag increment', c.o('delta_CD'), cd


@contract(G + r'flaps_model\.basic_calculations:FlapsDeflectionRatios$')
def deflections(c):
    yield 'flap deflection', c.o('flap_defl_ratio') * c.i(A.Wing.OPTIMUM_FLAP_DEFLECTION, 'deg'), c.i('flap_defl', 'deg')
    yield 'slat deflection', c.o('slat_defl_ratio') * c.i(A.Wing.OPTIMUM_SLAT_DEFLECTION, 'deg'), c.i('slat_defl', 'deg')


@contract(G + r'flaps_model\.basic_calculations:BasicFlapsGeometry$')
def flap_geometry(c):
    yield 'fuselage and flapped span', c.o('VDEL5') + c.o('body_to_span_ratio'), 1.0


# ---------------------------------------------------------------- transitions
@contract(G + r'common:TimeRamp$')
def time_ramp(c):
    x, y, t, t0, d = c.i('x'), c.o('y'), c.i('t_curr', 's'), c.i('t_init', 's'), c.i('duration', 's')
    up = c.opt('ramp_up')
    for k in range(t.size):
        tk = t.ravel()[k]
        before, after = tk < t0.ravel()[0], tk > t0.ravel()[0] + d.ravel()[0]
        frac = (tk - t0.ravel()[0]) / d.ravel()[0]
        yv, xv = y[:, k], x[:, k]
        mono = (d.ravel()[0] > 0.0) & (t.ravel()[1] > t.ravel()[0])
        yield 'before', yv, 0.0 * xv if up else xv, before & mono
        yield 'after', yv, xv if up else 0.0 * xv, after & mono
        yield 'during', yv, (frac if up else 1 - frac) * xv, (tk > t0.ravel()[0]) & (tk < t0.ravel()[0] + d.ravel()[0]) & mono
