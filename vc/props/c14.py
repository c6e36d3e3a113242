"""C14: smoothing functions."""
import aviary.utils.math as am
from .. import data, symarr
from ..contracts import mathfun


def main():
    symarr.USE_CONTRACTS[0] = False      # the functions themselves are under contract here
    return data.run_cases('C14', mathfun.cases(), ['arrays of one to three entries', 'steepness non-zero'], 50,
                          ['aviary.utils.math.' + f for f in ('sigmoidX', 'dSigmoidXdx', 'smooth_min', 'd_smooth_min', 'smooth_max', 'd_smooth_max', 'sin_int', 'dydx_sin_int',
                                                              'sin_int4', 'dydx_sin_int4', 'smooth_int_tanh', 'd_smooth_int_tanh')], env_mods=(am,))
