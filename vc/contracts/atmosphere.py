"""C10 contracts: atmosphere, speeds and their tables."""
from fractions import Fraction
import numpy as np
from aviary.variable_info.enums import SpeedType
from aviary.variable_info.variables import Dynamic as D, Mission as M
from ..spec import Registry

contract = Registry()
RHO, SOS, Q, V, MACH = D.Atmosphere.DENSITY, D.Atmosphere.SPEED_OF_SOUND, D.Atmosphere.DYNAMIC_PRESSURE, D.Mission.VELOCITY, D.Atmosphere.MACH
T, P, MU = D.Atmosphere.TEMPERATURE, D.Atmosphere.STATIC_PRESSURE, D.Atmosphere.DYNAMIC_VISCOSITY
# molar mass, ratio of specific heats, Sutherland temperature and coefficient
PLANET = {'Earth': (28.97, 1.4, 110.4, 1.458e-6), 'Mars': (43.34, 1.36, 222.0, 1.503e-6), 'Venus': (43.45, 1.29, 222.0, 1.503e-6)}


def speeds(c):
    get = lambda n, u: c.i(n, u) if c.has_i(n) else c.o(n, u)
    return get(V, 'm/s'), get(MACH, 'unitless'), get('EAS', 'm/s')


@contract(r'^subsystems\.atmosphere\.flight_conditions:FlightConditions$',
          r'^mission\.solved_two_dof\.ode\.unsteady_solved_flight_conditions:UnsteadySolvedFlightConditions$')
def flight_conditions(c):
    v, m, eas = speeds(c)
    rho, rho0, a = c.i(RHO, 'kg/m**3'), c.opt(M.SEA_LEVEL_DENSITY, 'kg/m**3'), c.i(SOS, 'm/s')
    flying = (rho > 0.0) & (a > 0.0)
    yield 'M a = V', m * a, v, flying
    yield 'equal dynamic pressure at sea level', eas**2 * rho0, v**2 * rho, flying & (rho0 > 0.0)
    yield 'dynamic pressure', c.o(Q, 'N/m**2'), rho * v**2 / 2, flying & (rho0 > 0.0)
    yield 'same direction', v * np.sqrt(rho / rho0), eas, flying & (rho0 > 0.0)


@contract(r'^mission\.solved_two_dof\.ode\.unsteady_solved_flight_conditions:UnsteadySolvedFlightConditions$')
def acceleration(c):
    """Chain rule along the path: d/dt = V cos(gamma) d/dr for controls and V sin(gamma) d/dh for the atmosphere."""
    v, m, eas = speeds(c)
    rho, rho0, a = c.i(RHO, 'kg/m**3'), c.opt(M.SEA_LEVEL_DENSITY, 'kg/m**3'), c.i(SOS, 'm/s')
    g = c.i(D.Mission.FLIGHT_PATH_ANGLE, 'rad') if c.has_i(D.Mission.FLIGHT_PATH_ANGLE) else 0.0
    dr, dh = v * np.cos(g), v * np.sin(g)
    ok = (rho > 0.0) & (rho0 > 0.0) & (a > 0.0)
    acc = c.o('dTAS_dt_approx', 'm/s**2')
    kind = c.opt('input_speed_type')
    if kind is SpeedType.TAS:
        yield 'true airspeed schedule', acc, c.i('dTAS_dr') * dr
    elif kind is SpeedType.EAS:
        # V = EAS sqrt(rho0 / rho)
        s = np.sqrt(rho0 / rho)
        yield 'equivalent airspeed schedule', acc, c.i('dEAS_dr') * dr * s - eas * s / (2 * rho) * c.i('drho_dh', 'kg/m**4') * dh, ok
    else:
        yield 'Mach schedule', acc, c.i('dmach_dr') * dr * a + m * c.i('dsos_dh') * dh, ok


@contract(r'^subsystems\.atmosphere\.atmosphere:AtmosphereComp$')
def atmosphere(c):
    mm, gamma, s, beta = PLANET[c.inst.comp.planet]
    R = 8314.32 / mm
    dt = c.opt('delta_T_Celcius')
    t, p, rho, a, mu = c.o(T, 'degK'), c.o(P, 'Pa'), c.o(RHO, 'kg/m**3'), c.o(SOS, 'm/s'), c.o(MU, 'Pa*s')
    std = c.with_option('delta_T_Celcius', 0.0, [T, P, RHO])
    warm = t > 0.0
    yield 'the temperature offset shifts the temperature', t - dt, std[T]
    yield 'the temperature offset keeps the pressure', p, std[P]
    yield 'warm air at the same pressure is thinner (ideal gas law)', 1 / rho - 1 / std[RHO], R * dt / p, (rho > 0.0) & (std[RHO] > 0.0) & (p > 0.0)
    yield 'speed of sound', a * a, gamma * R * t, warm
    yield 'Sutherland viscosity', mu * (t + s), beta * t * np.sqrt(t), warm


# ---------------------------------------------------------------- the tables themselves
def _bernstein_positive(c, L, depth=24):
    """Exact: is c0 + c1 x + c2 x^2 + c3 x^3 > 0 on [0, L]?"""
    b = [c[0], c[0] + c[1] * L / 3, c[0] + 2 * c[1] * L / 3 + c[2] * L**2 / 3, c[0] + c[1] * L + c[2] * L**2 + c[3] * L**3]
    if min(b) > 0:
        return True
    if b[0] <= 0 or b[3] <= 0 or depth == 0:
        return False
    h = L / 2
    right = [c[0] + c[1] * h + c[2] * h**2 + c[3] * h**3, c[1] + 2 * c[2] * h + 3 * c[3] * h**2, c[2] + 3 * c[3] * h, c[3]]
    return _bernstein_positive(c, h, depth - 1) and _bernstein_positive(right, h, depth - 1)


def extra(R):
    """Lemmas about every segment of every atmosphere table, in exact rational arithmetic."""
    from aviary.subsystems.atmosphere.utils.get_atmosphere_data import get_atmosphere_data
    from aviary.variable_info.enums import AtmosphereModel
    expect = {'MARS': 'Mars', 'VENUS': 'Venus'}
    surface = {}
    for model in AtmosphereModel:
        d, planet, radius, gravity, sea_level = get_atmosphere_data(model)
        alt = [Fraction(float(x)) for x in d.alt]
        n = len(alt)
        bad = {}

        def need(ok, what, k):
            R.obl += 1
            if ok:
                R.proved += 1
            else:
                bad.setdefault(what, []).append(k)
        need(planet == expect.get(model.name.split('_')[0], 'Earth'), 'planet', 0)
        for k in range(n - 1):
            need(alt[k] < alt[k + 1], 'altitudes increase', k)
        tab = {}
        for nm in ('T', 'P', 'rho', 'dT'):
            c = np.asarray(getattr(d, 'akima_' + nm), float)
            need(c.shape == (n + 1, 4), f'{nm}: one cubic per interval', 0)
            if c.shape != (n + 1, 4):
                continue
            tab[nm] = c
            F = [[Fraction(float(x)) for x in row] for row in c]
            size, slope = max(abs(r[0]) for r in F), max(abs(r[1]) for r in F)
            need(abs(F[0][0] - F[1][0]) <= size * Fraction(1, 10**6), f'{nm}: continuous at the lowest altitude', 0)
            for k in range(1, n):
                L = alt[k] - alt[k - 1]
                a = F[k]
                end, dend = a[0] + a[1] * L + a[2] * L**2 + a[3] * L**3, a[1] + 2 * a[2] * L + 3 * a[3] * L**2
                need(abs(end - F[k + 1][0]) <= size * Fraction(1, 10**9), f'{nm}: continuous', k)
                need(abs(dend - F[k + 1][1]) <= slope * Fraction(1, 2000), f'{nm}: smooth', k)
                if nm != 'dT':
                    need(_bernstein_positive(a, L), f'{nm}: positive', k)
                if nm in ('P',):
                    need(F[k + 1][0] <= a[0], 'pressure does not rise with altitude', k)
                if nm == 'dT' and 'T' in tab:
                    need(abs(c[k, 0] - tab['T'][k, 1]) <= np.max(abs(tab['T'][:, 1])) * 5e-4, 'dT is the slope of T', k)
        if len(tab) == 4:
            mm = PLANET[planet][0]
            tol = 0.002 if model is AtmosphereModel.STANDARD else 0.2
            for k in range(1, n + 1):
                if planet == 'Venus' and alt[k - 1] > 120000:
                    continue        # the molar mass is not constant up there
                p, t, r = (tab[x][k, 0] for x in ('P', 'T', 'rho'))
                need(abs(p / (r * 8314.32 / mm * t) - 1) <= tol, 'ideal gas law', k)
            j = [k for k in range(n) if alt[k] == 0]
            need(len(j) == 1 and sea_level[1] == 'kg/m**3' and abs(sea_level[0] - tab['rho'][j[0] + 1, 0]) <= 1e-12, 'sea level density is the tabulated one', 0)
            if j:
                surface[model.name] = (tab['T'][j[0] + 1, 0], tab['rho'][j[0] + 1, 0])
        # two thirds power of the volume: g R^2 = G M; known surface gravities
        g0, r0 = {'Earth': (9.80665, 6.371e6), 'Mars': (3.72, 3.3895e6), 'Venus': (8.87, 6.0518e6)}[planet]
        need(gravity[1] == 'm/s**2' and abs(gravity[0] / g0 - 1) < 0.01 and radius[1] == 'm' and abs(radius[0] / r0 - 1) < 0.01, 'planet constants', 0)
        for what, ks in bad.items():
            for k in ks[:5]:
                at = float(d.alt[min(k, n) - 1] if k else d.alt[0])
                R.violate(f'atmosphere table {model.name}|{what}|interval {k}', replay=dict(model=model.name, lemma=what, interval=k, altitude_m=at),
                          message=f'{model.name}: {what} fails in the interval above {at:.6g} m')
    if {'COLD', 'STANDARD', 'TROPICAL', 'HOT', 'POLAR'} <= set(surface):
        R.obl += 1
        t = {k: v[0] for k, v in surface.items()}
        if t['COLD'] < t['POLAR'] < t['STANDARD'] < t['TROPICAL'] < t['HOT']:
            R.proved += 1
        else:
            R.violate('atmosphere models|named by their surface temperature', replay=dict(surface=t), message=f'surface temperatures do not match the model names: {t}')
