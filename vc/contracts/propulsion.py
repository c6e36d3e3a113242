"""C06 contracts: propulsion totals, throttle allocation, engine scaling, propeller relations."""
import math
import numpy as np
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M
from aviary.subsystems.propulsion.utils import EngineModelVariables as V
from ..spec import Registry, Skip

contract = Registry()
P = D.Vehicle.Propulsion
S = r'^subsystems\.propulsion\.'


def weighted(c, a):
    """sum over the engine types of (number of engines) * a[..., type]"""
    n = c.opt(A.Engine.NUM_ENGINES)
    return sum(n[k] * a[..., k] for k in range(len(n)))


@contract(S + r'propulsion_mission:PropulsionSum$')
def totals(c):
    for one, tot, u in ((P.THRUST, P.THRUST_TOTAL, 'lbf'), (P.THRUST_MAX, P.THRUST_MAX_TOTAL, 'lbf'),
                        (P.FUEL_MASS_FLOW_RATE_NEGATIVE, P.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL, 'lbm/h'),
                        (P.ELECTRIC_POWER_IN, P.ELECTRIC_POWER_IN_TOTAL, 'kW'), (P.NOX_RATE, P.NOX_RATE_TOTAL, 'lbm/h')):
        yield tot, c.o(tot, u), weighted(c, c.i(one, u))


@contract(S + r'propulsion_premission:PropulsionSum$')
def sls_total(c):
    yield 'total SLS thrust', c.o(A.Propulsion.TOTAL_SCALED_SLS_THRUST, 'lbf'), weighted(c, c.i(A.Engine.SCALED_SLS_THRUST, 'lbf'))


@contract(S + r'engine_sizing:SizeEngine$')
def size(c):
    yield ('scaled thrust', c.o(A.Engine.SCALED_SLS_THRUST, 'lbf'), c.i(A.Engine.SCALE_FACTOR) * c.i(A.Engine.REFERENCE_SLS_THRUST, 'lbf'))


@contract(S + r'throttle_allocation:ThrottleAllocator$')
def allocation(c):
    t, agg, al = c.o(P.THROTTLE), c.i('aggregate_throttle'), c.i('throttle_allocations')
    nt = t.shape[1]
    tot = sum(t[:, k] for k in range(nt))
    yield 'throttles add up to the aggregate throttle', tot, agg
    for k in range(nt - 1):
        yield 'share of an engine type', t[:, k], agg * al[..., k]
    yield 'allocation sum', c.o('throttle_allocation_sum'), sum(al[..., k] for k in range(nt - 1))


@contract(S + r'engine_scaling:EngineScaling$')
def scaling(c):
    s, mach = c.i(A.Engine.SCALE_FACTOR), c.i(D.Atmosphere.MACH)
    for var in c.opt('engine_variables'):
        if var is V.FUEL_FLOW:
            sub, sup = c.opt(A.Engine.SUBSONIC_FUEL_FLOW_SCALER), c.opt(A.Engine.SUPERSONIC_FUEL_FLOW_SCALER)
            poly = 1 + c.opt(A.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM) + c.opt(A.Engine.FUEL_FLOW_SCALER_LINEAR_TERM) * (1 - s)
            regime = np.where(mach >= 1.0, sup, sub)
            yield ('fuel flow', -1.0 * c.o(P.FUEL_MASS_FLOW_RATE_NEGATIVE, 'lbm/h'),
                   c.i('fuel_flow_rate_unscaled', 'lbm/h') * s * poly * regime + c.opt(A.Engine.CONSTANT_FUEL_MASS_CONSUMPTION, 'lbm/h'))
            continue
        if not c.has_o(var.value):
            # temperatures, mach numbers, ... are intensive: they must not be scaled at all
            continue
        u = c.inst.outputs[var.value]['units']
        intensive = var in (V.TEMPERATURE_T4, V.MACH, V.ALTITUDE, V.THROTTLE, V.HYBRID_THROTTLE)
        yield (f'{var.value}', c.o(var.value, u), c.i(var.value + '_unscaled', u) * (1.0 if intensive else s))
        if c.has_o(var.value + '_max'):
            yield f'{var.value}_max', c.o(var.value + '_max', u), c.i(var.value + '_max_unscaled', u) * s


# ---------------------------------------------------------------- propeller
@contract(S + r'propeller\.propeller_performance:TipSpeed$')
def tip_speed(c):
    yield ('tip speed', c.o(P.PROPELLER_TIP_SPEED, 'ft/s'), c.i(P.RPM, 'rpm') / 60.0 * math.pi * c.i(A.Engine.Propeller.DIAMETER, 'ft'))


@contract(S + r'propeller\.propeller_performance:AreaSquareRatio$')
def area_ratio(c):
    if c.opt('smooth_sqa'):
        raise Skip
    yield 'area ratio', c.o('sqa_array'), np.minimum(c.i('DiamNac', 'ft') ** 2 / c.i('DiamProp', 'ft') ** 2, 0.5)


@contract(S + r'propeller\.propeller_performance:AdvanceRatio$')
def advance(c):
    if c.opt('smooth_zje'):
        raise Skip
    raw = (1.0 - 0.254 * c.i('sqa_array')) * math.pi * c.i('vtas', 'ft/s') / c.i('tipspd', 'ft/s')
    yield 'equivalent advance ratio', c.o('equiv_adv_ratio'), np.minimum(raw, 5.0)


@contract(S + r'propeller\.hamilton_standard:PreHamiltonStandard$')
def pre_hs(c):
    """Mach number, J = V/(nD) and Cp = P/(rho n^3 D^5) (with the rounded constants of the original tables)"""
    v, tip = np.maximum(c.i(D.Mission.VELOCITY, 'ft/s'), 1e-6), c.i(P.PROPELLER_TIP_SPEED, 'ft/s')
    yield 'tip Mach number', c.o('tip_mach'), tip / c.i(D.Atmosphere.SPEED_OF_SOUND, 'ft/s')
    yield 'advance ratio', c.o('advance_ratio'), math.pi * v / tip
    rho0 = c.opt(M.SEA_LEVEL_DENSITY)
    yield ('power coefficient', c.o('power_coefficient') * (c.i(D.Atmosphere.DENSITY, 'slug/ft**3') / rho0)
           * tip ** 3 * c.i(A.Engine.Propeller.DIAMETER, 'ft') ** 2, c.i(P.SHAFT_POWER, 'hp') * 10.0e10 / (2 * 6966.0))


@contract(S + r'propeller\.hamilton_standard:PostHamiltonStandard$')
def post_hs(c):
    tip, dia = c.i(P.PROPELLER_TIP_SPEED, 'ft/s'), c.i(A.Engine.Propeller.DIAMETER, 'ft')
    ct = c.o('thrust_coefficient_comp_loss')
    yield 'compressibility corrected thrust coefficient', ct, c.i('thrust_coefficient') * c.i('comp_tip_loss_factor')
    rho = c.i(D.Atmosphere.DENSITY, 'slug/ft**3') / c.opt(M.SEA_LEVEL_DENSITY)
    loss, cp = c.i('install_loss_factor'), c.i('power_coefficient')
    yield 'thrust', c.o(P.THRUST, 'lbf') * 1.515e06, ct * rho * tip ** 2 * dia ** 2 * (1.0 - loss) * 364.76
    eff = c.o('propeller_efficiency')
    yield 'efficiency J Ct / Cp', eff * cp, c.i('advance_ratio') * ct, cp > 1e-6
    yield 'no efficiency without power', eff, 0.0 * cp, cp < 1e-6
    yield 'installed efficiency', c.o('install_efficiency'), eff * (1.0 - loss)
