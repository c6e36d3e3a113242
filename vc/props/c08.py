"""C08: aerodynamic coefficients and forces follow their defining relations."""
from .. import spec
from ..contracts import aero


def main():
    return spec.run_property('C08', aero, ['table look-ups and fits are taken as given'], 4000)
