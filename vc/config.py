"""Per-class configuration the option model cannot infer: alternatives for required or structured options."""
import numpy as np


def class_cfg(name):
    """List of alternative (kwargs, controller keyword) pairs for a component class (by simple class name)."""
    n = name.split(':')[-1]
    if n in ('TailVolCoef', 'TailSize'):
        return [({'orientation': o}, {'fixed': {'orientation': o}}) for o in ('horizontal', 'vertical')]
    if n == 'EngineScaling':
        from aviary.subsystems.propulsion.utils import EngineModelVariables as V
        out = []
        ev = {V.THRUST: 'lbf', V.FUEL_FLOW: 'lbm/h', V.NOX_RATE: 'lbm/h', V.ELECTRIC_POWER_IN: 'kW', V.SHAFT_POWER: 'hp',
              V.TEMPERATURE_T4: 'degR', V.MACH: 'unitless', V.ALTITUDE: 'ft', V.THROTTLE: 'unitless'}
        return [({}, {'fixed': {'engine_variables': ev}, 'scalar_engine': True})]
    if n == 'MainGearLength':   # documented to support one engine type only
        return [({}, {'engine_cfgs': [dict(n=[2], w=[2], f=[0])]}), ({}, {'engine_cfgs': [dict(n=[2], w=[0], f=[2])]})]
    if n in ('NacelleCharacteristicLength', 'NacelleWettedArea', 'NacelleTotalWettedArea', 'NacelleMass'):   # these say what an engine type with no engines gets
        return [({}, {}), ({}, {'engine_cfgs': [dict(n=[0, 2], w=[0, 2], f=[0, 0])]}), ({}, {'engine_cfgs': [dict(n=[2, 0], w=[0, 0], f=[2, 0])]})]
    if n == 'FlightConstraints':
        return [({}, {})]
    if n in ('LinearInterpolationComp',):
        return [({}, {})]
    return [({}, {})]


DEFAULT_SUB = {}
