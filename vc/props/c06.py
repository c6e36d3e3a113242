"""C06: propulsion totals, throttle allocation and engine scaling."""
from .. import spec
from ..contracts import propulsion


def main():
    return spec.run_property('C06', propulsion, ['engine decks themselves (interpolated tables) are uninterpreted functions here'], 200)
