"""C09: geometry is consistent."""
from .. import spec
from ..contracts import geometry


def main():
    return spec.run_property('C09', geometry, ['correlations for cabin and gear sizing are taken as given'], 600)
