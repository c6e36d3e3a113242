"""Sampling domains for refutation and path-witness search (never part of a proof)."""
import re
import zlib
import numpy as np

# name regex -> (lo, hi, log?)  in whatever units the name is used with; first match wins
NAME_DOM = [
    (r'mach', 0.1, 0.92, False),
    (r'angle_of_attack|alpha', -3, 14, False),
    (r'flight_path_angle|gamma', -0.3, 0.3, False),
    (r'sweep', 1, 40, False),
    (r'dihedral|twist|incidence', -4, 6, False),
    (r'taper_ratio', 0.1, 0.9, False),
    (r'thickness_to_chord|thickness_ratio', 0.05, 0.2, False),
    (r'aspect_ratio', 1.0, 14, False),
    (r'altitude', 100., 60000., False),
    (r'throttle', 0.05, 1.0, False),
    (r'scaler|factor', 0.3, 2.0, False),
    (r'fraction|location|percent|ratio|efficiency|coefficient|ctrl|technology', 0.05, 0.95, False),
    (r'friction', 0.02, 0.5, False),
    (r'rpm|shaft_speed', 500, 6000, False),
    (r'ultimate_load_factor|load_factor', 1.2, 5, False),
    (r'count|num_', 1, 8, False),
]
UNIT_DOM = {
    'ft': (1, 200, True), 'm': (0.5, 60, True), 'inch': (5, 400, True), 'ft**2': (10, 6000, True), 'm**2': (1, 600, True),
    'lbm': (50, 4e5, True), 'kg': (20, 2e5, True), 'lbf': (500, 1e5, True), 'N': (2e3, 5e5, True), 'deg': (1, 35, False),
    'rad': (0.02, 0.6, False), 'kn': (60, 480, False), 'ft/s': (80, 900, False), 'm/s': (30, 300, False),
    'slug/ft**3': (3e-4, 2.4e-3, True), 'kg/m**3': (0.1, 1.3, True), 'lbf/ft**2': (30, 2100, True), 'psi': (3, 50, True),
    'Pa': (1e4, 1.1e5, True), 'degR': (380, 560, False), 'K': (215, 310, False), 'degF': (-60, 100, False), 'degC': (-50, 40, False),
    'hp': (100, 8000, True), 'kW': (100, 5000, True), 's': (1, 2000, True), 'h': (0.1, 10, True), 'min': (1, 300, True),
    'NM': (20, 4000, True), 'nmi': (20, 4000, True), 'lbm/h': (100, 2e4, True), 'lbm/s': (0.1, 10, True), 'kg/s': (0.05, 5, True),
    'ft/min': (100, 3000, True), 'rpm': (500, 6000, False), 'unitless': (0.05, 3, True), None: (0.05, 3, True),
    'lbm/ft': (1, 100, True), 'lbm/ft**2': (0.1, 150, True), 'lbf/lbm': (0.1, 2, True), 'galUS': (100, 5e4, True), 'ft**3': (10, 1e4, True),
    'lbm/galUS': (5, 8, False), 'mi/h': (60, 500, False), 'rad/s': (0.001, 0.2, True), 'deg/s': (0.1, 5, False),
}
MIXED_SIGN = re.compile(r'angle_of_attack|alpha|flight_path_angle|gamma|dihedral|twist|incidence|delta_|_rate|rate$|climb|sweep|camber')


def bare(name):
    m = re.match(r'^A?(in|opt|out|state|stale|stalepartial):(.*?)(\[[\d,]*\])?$', name)
    return m.group(2) if m else name


class Sampler:
    def __init__(self, n=384, seed=1, meta=None, optvars=None):
        self.n, self.seed = n, seed
        self.meta = meta if meta is not None else {}          # bare name -> dict(units, val)
        self.optvars = optvars if optvars is not None else {}
        self.env = {}
        r = np.random.default_rng(seed)
        # mode per sample point: 0 physical, 1 wide log, 2 around default, 3 tiny/edge, 4 mixed sign
        self.mode = r.choice([0, 0, 0, 1, 2, 2, 3, 4], size=n)

    def get(self, name):
        if name not in self.env:
            self.env[name] = self._gen(name)
        return self.env[name]

    def __getitem__(self, name):
        return self.get(name)

    def _rng(self, name):
        return np.random.default_rng((zlib.crc32(name.encode()) + 7919 * self.seed) % (2 ** 32))

    def _gen(self, name):
        n = self.n
        r = self._rng(name)
        if name in self.optvars:
            kind, base = self.optvars[name]
            b = float(base) if np.isscalar(base) else 1.0
            if kind == 'count':
                x = r.integers(1, 4, size=n) * 2.0
                x[r.random(n) < 0.25] = b
                return x
            if kind == 'int':
                x = r.integers(0, 9, size=n).astype(float)
                big = r.integers(0, 400, size=n).astype(float)
                mid = r.integers(0, 40, size=n).astype(float)
                u = r.random(n)
                x = np.where(u < 0.25, big, np.where(u < 0.5, mid, x))
                x[r.random(n) < 0.07] = b
                return x
            lo, hi, lg = self._dom(bare(name), None)
            x = _u(r, lo, hi, lg, n)
            if b != 0:
                x = np.where(r.random(n) < 0.5, b * np.exp(r.normal(0, .5, n)), x)
            x[r.random(n) < 0.06] = b
            return x
        bn = bare(name)
        m = self.meta.get(bn, {})
        lo, hi, lg = self._dom(bn, m.get('units'))
        x = _u(r, lo, hi, lg, n)
        wide = np.exp(r.uniform(np.log(1e-3), np.log(1e5), n))
        v = m.get('val')
        d = float(np.ravel(v)[0]) if v is not None and np.size(v) else 0.0
        near = d * np.exp(r.normal(0, 0.6, n)) if d != 0 and np.isfinite(d) else x
        edge = np.where(r.random(n) < 0.5, lo + 1e-3 * (hi - lo) * r.random(n), hi * (1 + r.random(n)))
        out = np.where(self.mode == 0, x, np.where(self.mode == 1, np.where(r.random(n) < .3, wide, x),
              np.where(self.mode == 2, near, np.where(self.mode == 3, edge, x))))
        if 'sweep' in bn and m.get('units') in ('rad', 'deg'):
            k = 57.3 if m.get('units') == 'deg' else 1.0
            out = k * r.uniform(0.02, 1.2, n)
        if MIXED_SIGN.search(bn):
            out = np.where((self.mode == 4) & (r.random(n) < .5), -np.abs(out), out)
        return out

    def _dom(self, bn, units):
        for pat, lo, hi, lg in NAME_DOM:
            if re.search(pat, bn):
                if pat == 'altitude' and units == 'm':
                    return lo / 3.28, hi / 3.28, lg
                return lo, hi, lg
        return UNIT_DOM.get(units, (0.1, 50, True))


def _u(r, lo, hi, lg, n):
    if lg:
        return np.exp(r.uniform(np.log(lo), np.log(hi), n))
    return r.uniform(lo, hi, n)
