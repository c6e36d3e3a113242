"""C10: atmosphere and airspeeds are consistent."""
from .. import spec
from ..contracts import atmosphere


def main():
    return spec.run_property('C10', atmosphere, ['table entries are taken as measured data; only their consistency is proved'], 20000)
