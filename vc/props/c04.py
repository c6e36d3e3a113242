"""C04: results are proportional to their own scaler."""
from .. import spec
from ..contracts import scalers


def main():
    return spec.run_property('C04', scalers, ['FLOPS engine mass scaler (an exponent) and GASP furnishings scaler (a per-passenger coefficient) are '
                                              'not multipliers by definition and are excluded'], 150)
