"""C07: equations of motion conserve momentum and energy and agree with the path kinematics."""
from .. import spec
from ..contracts import eom


def main():
    return spec.run_property('C07', eom, ['forces themselves are inputs here'], 250)
