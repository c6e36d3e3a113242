"""C04 contracts: a result scales linearly with its own scaler (X is proportional to X_scaler, element by element)."""
import re
import numpy as np
from aviary.variable_info.variables import Aircraft as A
from ..spec import Registry, Skip

contract = Registry()

# scalers that do not follow the `<name>_scaler` spelling: (component, output, scaler)
EXTRA = [
    (r'misc_engine:EngineMiscMass', A.Propulsion.TOTAL_MISC_MASS, A.Propulsion.MISC_MASS_SCALER),
    (r'engine_oil:(Transport|Alt)EngineOilMass', A.Propulsion.TOTAL_ENGINE_OIL_MASS, A.Propulsion.ENGINE_OIL_MASS_SCALER),
    (r'furnishings:AltFurnishingsGroupMassBase', A.Furnishings.MASS_BASE, A.Furnishings.MASS_SCALER),
    (r'engine:AdditionalEngineMass', A.Engine.ADDITIONAL_MASS, A.Propulsion.MISC_MASS_SCALER),
    (r'gasp_based\.engine:EnginePodMass', A.Propulsion.TOTAL_ENGINE_POD_MASS, A.Engine.POD_MASS_SCALER),
    (r'thrust_reverser:ThrustReverserMass', A.Propulsion.TOTAL_THRUST_REVERSERS_MASS, A.Engine.THRUST_REVERSERS_MASS_SCALER),
]
# scalers that are documented not to be multipliers of the whole result
NOT_LINEAR = [
    (r'flops_based\.engine:EngineMass$', A.Engine.MASS_SCALER),             # exponent (or slope) of the thrust scaling law
    (r'gasp_based\.furnishings:', A.Furnishings.MASS_SCALER),             # coefficient per passenger of the empirical formula
    (r'gasp_based\.engine:EnginePodMass', A.Engine.POD_MASS_SCALER),         # enters in the total of the pods (see EXTRA)
]


def pairs(name, c):
    for s in c.ins:
        if s.endswith('_scaler') and not any(re.search(p, name) and s == x for p, x in NOT_LINEAR):
            if c.has_o(s[:-len('_scaler')]):
                yield s[:-len('_scaler')], s
    for p, o, s in EXTRA:
        if re.search(p, name):
            yield o, s


@contract(r'^subsystems\.')
def linear_in_scaler(c):
    for out, s in pairs(c.name, c):
        n, m = np.size(c.i(s)), np.size(c.o(out))
        base = np.reshape(c.o(out), -1)
        if n == m:
            for j in range(n):
                fac = np.ones(n)
                fac[j] = 2.0
                new = np.reshape(c.rescaled(s, fac, [out])[out], -1)
                yield f'{out} doubles with {s}', new[j], 2.0 * base[j]
                for k in range(n):
                    if k != j:
                        yield f'{out} independent of the {s} of another item', new[k], base[k]
        else:
            new = np.reshape(c.rescaled(s, np.full(n, 2.0), [out])[out], -1)
            yield f'{out} doubles with {s}', new, 2.0 * base
