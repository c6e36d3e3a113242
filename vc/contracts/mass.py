"""C05 contracts: every mass roll-up equals the sum of its parts (conservation of mass over the aircraft)."""
import numpy as np
from aviary.variable_info.variables import Aircraft as A, Mission as M
from ..spec import Registry, Skip

contract = Registry()
F, G = r'^subsystems\.mass\.flops_based\.', r'^subsystems\.mass\.gasp_based\.'
LB = 'lbm'


def rollup(pattern, out, parts, gain=1.0, signs=None):
    """out == gain * sum of parts, all in pounds."""
    def f(c):
        tot = 0.0
        for k, p in enumerate(parts):
            tot = tot + (signs[k] if signs else 1.0) * c.i(p, LB)
        yield out, c.o(out, LB), gain * tot
    f.__name__ = 'rollup ' + out
    contract(pattern)(f)


def per_engine(c, x):
    """Sum over the engine types of (number of engines of the type) * x"""
    n = c.opt(A.Engine.NUM_ENGINES)
    return sum(n[k] * x[k] for k in range(len(n)))


rollup(F + r'mass_summation:EmpennageMass$', A.Design.EMPENNAGE_MASS, [A.Canard.MASS, A.Fins.MASS, A.HorizontalTail.MASS, A.VerticalTail.MASS])
rollup(G + r'mass_summation:EmpennageMass$', A.Design.EMPENNAGE_MASS, [A.HorizontalTail.MASS, A.VerticalTail.MASS])


@contract(F + r'mass_summation:StructureMass$')
def flops_structure(c):
    yield ('structure mass', c.o(A.Design.STRUCTURE_MASS, LB), c.i(A.Wing.MASS, LB) + c.i(A.Design.EMPENNAGE_MASS, LB) + c.i(A.Fuselage.MASS, LB)
           + c.i(A.LandingGear.TOTAL_MASS, LB) + c.i(A.Paint.MASS, LB) + per_engine(c, c.i(A.Nacelle.MASS, LB)))


rollup(G + r'mass_summation:StructureMass$', A.Design.STRUCTURE_MASS,
       [A.Wing.MASS, A.Design.EMPENNAGE_MASS, A.Fuselage.MASS, A.LandingGear.TOTAL_MASS, A.Propulsion.TOTAL_ENGINE_POD_MASS,
        A.Design.STRUCTURAL_MASS_INCREMENT])
rollup(F + r'mass_summation:PropulsionMass$', A.Propulsion.MASS,
       [A.Fuel.FUEL_SYSTEM_MASS, A.Propulsion.TOTAL_MISC_MASS, A.Propulsion.TOTAL_THRUST_REVERSERS_MASS, A.Propulsion.TOTAL_ENGINE_MASS,
        A.Battery.MASS])
rollup(G + r'mass_summation:PropulsionMass$', A.Propulsion.MASS, [A.Fuel.FUEL_SYSTEM_MASS, 'eng_comb_mass', 'prop_mass_sum', A.Battery.MASS])
rollup(F + r'mass_summation:FlightControls$', A.Controls.MASS, [A.Wing.SURFACE_CONTROL_MASS])
_SYS = [A.AirConditioning.MASS, A.AntiIcing.MASS, A.APU.MASS, A.Avionics.MASS, A.Electrical.MASS, A.Hydraulics.MASS, A.Instruments.MASS]
rollup(F + r'mass_summation:SystemsEquipmentMass$', A.Design.SYSTEMS_AND_EQUIPMENT_MASS, _SYS + [A.Furnishings.MASS, A.Wing.SURFACE_CONTROL_MASS])
rollup(G + r'mass_summation:SystemsEquipmentMass$', A.Design.SYSTEMS_AND_EQUIPMENT_MASS,
       _SYS + [A.Furnishings.MASS, A.Controls.MASS, A.OxygenSystem.MASS])
rollup(F + r'mass_summation:AltSystemsEquipmentMassBase$', A.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE,
       _SYS + [A.Furnishings.MASS_BASE, A.Wing.SURFACE_CONTROL_MASS])


@contract(F + r'mass_summation:AltSystemsEquipmentMass$')
def alt_systems(c):
    base = c.i(A.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE, LB)
    yield ('systems and equipment mass', c.o(A.Design.SYSTEMS_AND_EQUIPMENT_MASS, LB),
           base + 0.01 * (base + c.i(A.Design.STRUCTURE_MASS, LB) + c.i(A.Propulsion.MASS, LB)))


@contract(F + r'mass_summation:AltEmptyMass$')
def alt_empty(c):
    """Same empty mass as structure + propulsion + (alternate) systems mass + margin + external subsystems."""
    s, p, b = c.i(A.Design.STRUCTURE_MASS, LB), c.i(A.Propulsion.MASS, LB), c.i(A.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE, LB)
    systems = b + 0.01 * (b + s + p)
    yield ('empty mass', c.o(A.Design.EMPTY_MASS, LB), s + p + systems + c.i(A.Design.EMPTY_MASS_MARGIN, LB)
           + c.i(A.Design.EXTERNAL_SUBSYSTEMS_MASS, LB))


_EMPTY = [A.Design.STRUCTURE_MASS, A.Propulsion.MASS, A.Design.SYSTEMS_AND_EQUIPMENT_MASS, A.Design.EXTERNAL_SUBSYSTEMS_MASS]
rollup(F + r'mass_summation:EmptyMass$', A.Design.EMPTY_MASS, _EMPTY + [A.Design.EMPTY_MASS_MARGIN])
rollup(G + r'mass_summation:EmptyMass$', A.Design.EMPTY_MASS, _EMPTY)
_OPS = [A.CrewPayload.CARGO_CONTAINER_MASS, A.CrewPayload.CABIN_CREW_MASS, A.CrewPayload.FLIGHT_CREW_MASS, A.Propulsion.TOTAL_ENGINE_OIL_MASS,
        A.CrewPayload.PASSENGER_SERVICE_MASS, A.Fuel.UNUSABLE_FUEL_MASS, M.OPERATING_ITEMS_MASS_ADDITIONAL]
rollup(F + r'mass_summation:OperatingItemsMass$', M.OPERATING_ITEMS_MASS, _OPS)
rollup(G + r'mass_summation:OperatingItemsMass$', M.OPERATING_ITEMS_MASS, _OPS + [A.Design.EMERGENCY_EQUIPMENT_MASS])
rollup(r'mass_summation:OperatingMass$', M.OPERATING_MASS, [A.Design.EMPTY_MASS, M.OPERATING_ITEMS_MASS])
rollup(r'mass_summation:ZeroFuelMass$', M.ZERO_FUEL_MASS, [M.OPERATING_MASS, A.CrewPayload.TOTAL_PAYLOAD_MASS])
rollup(r'mass_summation:UsefulLoadMass$', A.Design.USEFUL_LOAD_MASS, [A.Design.GROSS_MASS, A.Design.EMPTY_MASS], signs=[1.0, -1.0])


@contract(F + r'empty_margin:EmptyMassMargin$')
def margin(c):
    yield ('margin', c.o(A.Design.EMPTY_MASS_MARGIN, LB), c.i(A.Design.EMPTY_MASS_MARGIN_SCALER) * (
        c.i(A.Propulsion.MASS, LB) + c.i(A.Design.STRUCTURE_MASS, LB) + c.i(A.Design.SYSTEMS_AND_EQUIPMENT_MASS, LB)))


@contract(F + r'furnishings:AltFurnishingsGroupMass$')
def alt_furnishings(c):
    """one percent of (base systems + structure + propulsion) belongs to the furnishings group"""
    yield ('furnishings mass', c.o(A.Furnishings.MASS, LB), c.i(A.Furnishings.MASS_BASE, LB) + 0.01 * (
        c.i(A.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE, LB) + c.i(A.Design.STRUCTURE_MASS, LB) + c.i(A.Propulsion.MASS, LB)))


rollup(F + r'landing_gear:LandingGearTotalMass$', A.LandingGear.TOTAL_MASS, [A.LandingGear.MAIN_GEAR_MASS, A.LandingGear.NOSE_GEAR_MASS])


@contract(G + r'landing:LandingGearMass$')
def gear_split(c):
    tot, frac = c.i(A.LandingGear.TOTAL_MASS, LB), c.i(A.LandingGear.MAIN_GEAR_MASS_FRACTION)
    yield 'main + nose == total', c.o(A.LandingGear.MAIN_GEAR_MASS, LB) + c.o(A.LandingGear.NOSE_GEAR_MASS, LB), tot
    yield 'main gear share', c.o(A.LandingGear.MAIN_GEAR_MASS, LB), frac * tot


@contract(r'landing(_mass)?:LandingMass$')
def landing_mass(c):
    yield ('touchdown mass', c.o(A.Design.TOUCHDOWN_MASS_MAX, LB), c.i(A.Design.GROSS_MASS, LB) * c.i(A.Design.LANDING_TO_TAKEOFF_MASS_RATIO))


@contract(F + r'wing_common:WingTotalMass$')
def wing_total(c):
    yield ('wing mass', c.o(A.Wing.MASS, LB), c.i(A.Wing.MASS_SCALER) * (
        c.i(A.Wing.BENDING_MATERIAL_MASS, LB) + c.i(A.Wing.SHEAR_CONTROL_MASS, LB) + c.i(A.Wing.MISC_MASS, LB)
        + c.i(A.Wing.BWB_AFTBODY_MASS, LB)))


# ---------------------------------------------------------------- payload
rollup(F + r'payload:TotalPayload$', A.CrewPayload.TOTAL_PAYLOAD_MASS, [A.CrewPayload.CARGO_MASS, A.CrewPayload.PASSENGER_PAYLOAD_MASS])
rollup(F + r'payload:CargoMass$', A.CrewPayload.CARGO_MASS, [A.CrewPayload.WING_CARGO, A.CrewPayload.MISC_CARGO])


@contract(F + r'payload:PaxPayloadMass$')
def pax_payload(c):
    n = c.opt(A.CrewPayload.NUM_PASSENGERS)
    pax, bag = c.o(A.CrewPayload.PASSENGER_MASS_TOTAL, LB), c.o(A.CrewPayload.BAGGAGE_MASS, LB)
    yield 'passenger mass', pax, n * c.i(A.CrewPayload.MASS_PER_PASSENGER, LB)
    yield 'baggage mass', bag, n * c.i(A.CrewPayload.BAGGAGE_MASS_PER_PASSENGER, LB)
    yield 'passenger payload', c.o(A.CrewPayload.PASSENGER_PAYLOAD_MASS, LB), pax + bag


@contract(G + r'fixed:PayloadGroup$')
def gasp_payload(c):
    pay, cargo = c.o(A.CrewPayload.PASSENGER_PAYLOAD_MASS, LB), c.i(A.CrewPayload.CARGO_MASS, LB)
    per = c.i(A.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, LB)
    n, nd = c.opt(A.CrewPayload.NUM_PASSENGERS), c.opt(A.CrewPayload.Design.NUM_PASSENGERS)
    yield 'passenger payload', pay, n * per
    yield 'total payload', c.o(A.CrewPayload.TOTAL_PAYLOAD_MASS, LB), pay + cargo
    yield 'design payload', c.o('payload_mass_des', LB), nd * per + c.i(A.CrewPayload.Design.CARGO_MASS, LB)
    yield 'maximum payload', c.o('payload_mass_max', LB), nd * per + c.i(A.CrewPayload.Design.MAX_CARGO_MASS, LB)


# ---------------------------------------------------------------- fuel
_TANKS = [A.Fuel.WING_FUEL_MASS_CAPACITY, A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY]


@contract(F + r'fuel_capacity:(Total|Aux|Fuselage)FuelCapacity$')
def tanks(c):
    """wing + fuselage + auxiliary tanks hold exactly the maximum fuel (the auxiliary tank is empty where the component does not know it)."""
    def get(n): return c.o(n, LB) if c.has_o(n) else (c.i(n, LB) if c.has_i(n) else 0.0)
    yield 'tank capacities add up', get(_TANKS[0]) + get(_TANKS[1]) + get(_TANKS[2]), get(A.Fuel.MAX_CAPACITY_MASS)


@contract(G + r'fuel:FuelMass$')
def fuel_mass(c):
    g = c.i(A.Design.GROSS_MASS, LB)
    oew = c.i(M.OPERATING_MASS, LB)
    req = g - oew - c.i('payload_mass_des', LB)
    yield 'required fuel', c.o('fuel_mass_required', LB), req
    yield 'minimum fuel', c.o('fuel_mass_min', LB), g - oew - c.i('payload_mass_max', LB)
    # the fuel system mass inside OEW is the one belonging to fuel_mass, so replacing it leaves the gross mass unchanged
    k = c.i(A.Fuel.FUEL_SYSTEM_MASS_SCALER) * c.i(A.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT) * (1 + c.i(A.Fuel.VOLUME_MARGIN) / 100) \
        * 6.687 / c.i(A.Fuel.DENSITY, 'lbm/galUS')
    fm = c.o('fuel_mass', LB)
    yield 'gross mass balance', oew - c.i(A.Fuel.FUEL_SYSTEM_MASS, LB) + k * fm + c.i('payload_mass_des', LB) + fm, g


@contract(G + r'fuel:FuelSysAndFullFuselageMass$')
def fuel_system(c):
    k = c.i(A.Fuel.FUEL_SYSTEM_MASS_SCALER) * c.i(A.Fuel.FUEL_SYSTEM_MASS_COEFFICIENT) * (1 + c.i(A.Fuel.VOLUME_MARGIN) / 100) \
        * 6.687 / c.i(A.Fuel.DENSITY, 'lbm/galUS')
    yield 'fuel system mass', c.o(A.Fuel.FUEL_SYSTEM_MASS, LB), k * c.i('fuel_mass', LB)
    yield ('full fuselage mass', c.o('fus_mass_full', LB), c.i(A.Design.GROSS_MASS, LB) - c.i(A.Wing.MASS, LB) - c.i('wingfuel_mass_min', LB)
           - c.i('wing_mounted_mass', LB))


@contract(G + r'fuel:FuelComponents$')
def fuel_components(c):
    g, oew = c.i(A.Design.GROSS_MASS, LB), c.i(M.OPERATING_MASS, LB)
    rho = c.i(A.Fuel.DENSITY, 'lbm/ft**3')
    yield 'OEM wing fuel', c.o('OEM_wingfuel_mass', LB), g - oew
    yield 'OEM fuel volume', c.o('OEM_fuel_vol', 'ft**3') * rho, g - oew
    yield ('design fuel volume', c.o(A.Fuel.WING_VOLUME_DESIGN, 'ft**3') * rho,
           (1 + c.i(A.Fuel.VOLUME_MARGIN) / 100) * c.i('fuel_mass_required', LB))
    yield ('payload with maximum fuel', c.o('payload_mass_max_fuel', LB) + c.i(A.Fuel.MAX_CAPACITY_MASS, LB) - c.i(A.Fuel.UNUSABLE_FUEL_MASS, LB) + oew, g)
    vol = c.i(A.Fuel.WING_VOLUME_GEOMETRIC_MAX, 'ft**3') * rho
    yield 'volume limited wing fuel', c.o('volume_wingfuel_mass', LB), vol
    yield 'structural volume', c.o(A.Fuel.WING_VOLUME_STRUCTURAL_MAX, 'ft**3') * rho, c.o('max_wingfuel_mass', LB)
    if not c.opt(A.Design.SMOOTH_MASS_DISCONTINUITIES):
        yield 'maximum wing fuel', c.o('max_wingfuel_mass', LB), np.minimum(g - oew, vol)


@contract(G + r'fuel:BodyTankCalculations$')
def body_tank(c):
    rho = c.i(A.Fuel.DENSITY, 'lbm/ft**3')
    yield 'extra fuel mass', c.o('max_extra_fuel_mass', LB), c.o('extra_fuel_volume', 'ft**3') * rho
    if c.opt(A.Design.SMOOTH_MASS_DISCONTINUITIES):
        return
    req, mx = c.i('fuel_mass_required', LB), c.i('max_wingfuel_mass', LB)
    aux = c.o(A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY, LB)
    yield 'auxiliary capacity', aux, np.maximum(req - mx, 0.0)
    yield 'minimum wing fuel', c.o('wingfuel_mass_min', LB), np.maximum(c.i('fuel_mass_min', LB) - c.o('max_extra_fuel_mass', LB), 0.0)
    yield ('maximum fuel', c.o(A.Fuel.MAX_CAPACITY_MASS, LB), c.i(A.Fuel.UNUSABLE_FUEL_MASS, LB)
           + np.minimum(c.i('fuel_mass', LB) + aux, c.i(A.Design.GROSS_MASS, LB) - c.i(M.OPERATING_MASS, LB)))


# ---------------------------------------------------------------- engines
@contract(F + r'engine:EngineMass$')
def engine_mass(c):
    m = c.o(A.Engine.MASS, LB)
    yield 'total engine mass', c.o(A.Propulsion.TOTAL_ENGINE_MASS, LB), per_engine(c, m)
    frac = c.opt(A.Engine.ADDITIONAL_MASS_FRACTION)
    yield 'additional mass', c.o(A.Engine.ADDITIONAL_MASS, LB), frac * m


@contract(F + r'misc_engine:EngineMiscMass$')
def misc_mass(c):
    yield ('misc mass', c.o(A.Propulsion.TOTAL_MISC_MASS, LB), c.i(A.Propulsion.MISC_MASS_SCALER) * (
        c.i(A.Propulsion.TOTAL_STARTER_MASS, LB) + c.i(A.Propulsion.TOTAL_ENGINE_CONTROLS_MASS, LB)
        + per_engine(c, c.i(A.Engine.ADDITIONAL_MASS, LB))))


@contract(F + r'thrust_reverser:ThrustReverserMass$')
def reversers(c):
    m = c.o(A.Engine.THRUST_REVERSERS_MASS, LB)
    yield 'total thrust reverser mass', c.o(A.Propulsion.TOTAL_THRUST_REVERSERS_MASS, LB), sum(m[k] for k in range(len(m)))


@contract(F + r'engine_pod:EnginePodMass$')
def flops_pod(c):
    """The pods of all engines and nacelles together carry exactly the engine, reverser, nacelle masses and the podded share of the systems."""
    n = c.opt(A.Engine.NUM_ENGINES)
    thr, tot = c.i(A.Engine.SCALED_SLS_THRUST, 'lbf'), c.i(A.Propulsion.TOTAL_SCALED_SLS_THRUST, 'lbf')
    podded = c.i(A.Propulsion.TOTAL_STARTER_MASS, LB) + 0.25 * (c.i(A.Propulsion.TOTAL_ENGINE_CONTROLS_MASS, LB) + c.i(A.Fuel.FUEL_SYSTEM_MASS, LB)) \
        + 0.13 * (c.i(A.Electrical.MASS, LB) + c.i(A.Hydraulics.MASS, LB)) + 0.11 * c.i(A.Instruments.MASS, LB)
    me, mt, mn = c.i(A.Engine.MASS, LB), c.i(A.Engine.THRUST_REVERSERS_MASS, LB), c.i(A.Nacelle.MASS, LB)
    out = c.o(A.Engine.POD_MASS, LB)
    for k in range(len(n)):
        if n[k] < 1:
            continue
        content = n[k] * me[k] + mt[k] + thr[k] * n[k] / tot * podded
        nacelles = n[k] + 0.5 * (n[k] % 2)          # a centre line engine counts as one and a half nacelles
        yield f'pod content {k}', (out[k] - mn[k] * n[k] / nacelles) * n[k], content


@contract(G + r'engine:EnginePodMass$')
def gasp_pod(c):
    pod = c.i(A.Nacelle.MASS, LB) + c.i('pylon_mass', LB)
    yield 'pod mass', c.o(A.Engine.POD_MASS, LB), pod
    yield 'total pod mass', c.o(A.Propulsion.TOTAL_ENGINE_POD_MASS, LB), per_engine(c, c.i(A.Engine.POD_MASS_SCALER) * pod)


@contract(G + r'engine:TotalEngineMass$')
def gasp_engine(c):
    dry = c.i(A.Engine.MASS_SPECIFIC, 'lbm/lbf') * c.i(A.Engine.SCALED_SLS_THRUST, 'lbf')
    yield 'total engine mass', c.o(A.Propulsion.TOTAL_ENGINE_MASS, LB), per_engine(c, dry)
    yield ('nacelle mass', c.o(A.Nacelle.MASS, LB), c.i(A.Nacelle.MASS_SCALER) * c.i(A.Nacelle.MASS_SPECIFIC, 'lbm/ft**2')
           * c.i(A.Nacelle.SURFACE_AREA, 'ft**2'))


@contract(G + r'engine:AdditionalEngineMass$')
def gasp_additional(c):
    dry = c.i(A.Engine.MASS_SPECIFIC, 'lbm/lbf') * c.i(A.Engine.SCALED_SLS_THRUST, 'lbf')
    yield 'additional mass', c.o(A.Engine.ADDITIONAL_MASS, LB), c.i(A.Propulsion.MISC_MASS_SCALER) * c.opt(A.Engine.ADDITIONAL_MASS_FRACTION) * dry


@contract(G + r'engine:WingMountEngineMass$')
def gasp_wing_mount(c):
    dry = c.i(A.Engine.MASS_SPECIFIC, 'lbm/lbf') * c.i(A.Engine.SCALED_SLS_THRUST, 'lbf')
    comb = per_engine(c, c.i(A.Engine.MASS_SCALER) * dry) + per_engine(c, c.i(A.Engine.ADDITIONAL_MASS, LB))
    if c.opt(A.Electrical.HAS_HYBRID_SYSTEM):
        comb = comb + c.i('aug_mass', LB)
    yield 'installed engine mass', c.o('eng_comb_mass', LB), comb
    yield 'propeller mass', c.o('prop_mass_sum', LB), per_engine(c, c.i(A.Engine.Propeller.MASS, LB))


# ---------------------------------------------------------------- GASP groups
@contract(G + r'control:SumControlMass$')
def controls(c):
    yield ('controls mass', c.o(A.Controls.MASS, LB), c.i(A.Controls.COCKPIT_CONTROL_MASS, LB) + c.i(A.Wing.SURFACE_CONTROL_MASS, LB)
           + c.i(A.Controls.STABILITY_AUGMENTATION_SYSTEM_MASS, LB) + c.i(A.Controls.CONTROL_MASS_INCREMENT, LB))


@contract(G + r'fixed:HighLiftMass$')
def high_lift(c):
    yield 'high lift mass', c.o(A.Wing.HIGH_LIFT_MASS, LB), c.o('slat_mass', LB) + c.o('flap_mass', LB)


@contract(G + r'wing:StrutAndFoldMass$')
def strut_fold(c):
    iso = c.i('isolated_wing_mass', LB)
    strut = c.i(A.Strut.MASS_COEFFICIENT) * iso if c.opt(A.Wing.HAS_STRUT) else 0.0
    yield 'strut mass', c.o(A.Strut.MASS, LB), strut
    fold = c.i(A.Wing.FOLD_MASS_COEFFICIENT) * iso * c.i(A.Wing.FOLDING_AREA, 'ft**2') / c.i(A.Wing.AREA, 'ft**2') if c.opt(A.Wing.HAS_FOLD) else 0.0
    yield 'fold mass', c.o(A.Wing.FOLD_MASS, LB), fold


@contract(G + r'wing:WingMassTotal$')
def gasp_wing(c):
    yield 'wing mass', c.o(A.Wing.MASS, LB), c.i(A.Wing.MASS_SCALER) * (
        c.i('isolated_wing_mass', LB) + c.i(A.Strut.MASS, LB) + c.i(A.Wing.FOLD_MASS, LB))


@contract(r'mass_to_weight:MassToWeight$')
def weight(c):
    yield 'weight', c.o('weight', 'lbf'), c.i('mass', LB)
