"""C05: mass roll-ups are conserved."""
from .. import spec
from ..contracts import mass


def main():
    return spec.run_property('C05', mass, ['component masses themselves are not judged here, only how they are combined'], 80)
