"""C09 contracts: planform, fuselage, nacelle and tail geometry identities, wetted-area and volume bookkeeping."""
import numpy as np
from openmdao.utils.units import convert_units
from aviary.subsystems.geometry.flops_based.utils import Names
from aviary.variable_info.enums import AircraftTypes
from aviary.variable_info.variables import Aircraft as A
from ..spec import Registry, Skip

contract = Registry()
F = r'^subsystems\.geometry\.flops_based\.'
G = r'^subsystems\.geometry\.gasp_based\.'
S, B, AR, TR, GLOVE, TC = A.Wing.AREA, A.Wing.SPAN, A.Wing.ASPECT_RATIO, A.Wing.TAPER_RATIO, A.Wing.GLOVE_AND_BAT, A.Wing.THICKNESS_TO_CHORD
D = A.Fuselage.AVG_DIAMETER
NE = A.Engine.NUM_ENGINES


def surface(tc):
    """Wetted over planform area of a lifting surface."""
    return 2.0 + 0.387 * tc


def mac(root, t):
    """Mean aerodynamic chord of a trapezoid."""
    return 2.0 / 3.0 * root * (1 + t + t * t) / (1 + t)


# ---------------------------------------------------------------- FLOPS: wetted areas
@contract(F + r'wetted_area_total:TotalWettedArea$')
def total_wetted(c):
    parts = [A.Canard.WETTED_AREA, A.Fuselage.WETTED_AREA, A.HorizontalTail.WETTED_AREA, A.Nacelle.TOTAL_WETTED_AREA, A.VerticalTail.WETTED_AREA, A.Wing.WETTED_AREA]
    yield 'sum of the parts', c.o(A.Design.TOTAL_WETTED_AREA, 'ft**2'), sum(c.i(p, 'ft**2') for p in parts)


@contract(F + r'nacelle:NacelleTotalWettedArea$')
def total_nacelle(c):
    n, a = np.atleast_1d(c.opt(NE)), c.i(A.Nacelle.WETTED_AREA, 'ft**2')
    yield 'sum over all engines', c.o(A.Nacelle.TOTAL_WETTED_AREA, 'ft**2'), sum(n[k] * a[k] for k in range(len(a)))


@contract(F + r'nacelle:NacelleWettedArea$')
def nacelle(c):
    n, a = np.atleast_1d(c.opt(NE)), c.o(A.Nacelle.WETTED_AREA, 'ft**2')
    d, l, s, e = c.i(A.Nacelle.AVG_DIAMETER, 'ft'), c.i(A.Nacelle.AVG_LENGTH, 'ft'), c.i(A.Nacelle.WETTED_AREA_SCALER), c.i(A.Engine.SCALE_FACTOR)
    for k in range(len(a)):
        yield f'nacelle {k}', a[k], s[k] * e[k] * 2.8 * d[k] * l[k], n[k] >= 1
        yield f'no nacelle {k}', a[k], 0.0, n[k] < 1


@contract(F + r'canard:CanardWettedArea$')
def canard(c):
    a = c.i(A.Canard.AREA, 'ft**2')
    yield 'canard', c.o(A.Canard.WETTED_AREA, 'ft**2'), c.i(A.Canard.WETTED_AREA_SCALER) * surface(c.i(A.Canard.THICKNESS_TO_CHORD)) * a, a > 0.0
    yield 'no canard', c.o(A.Canard.WETTED_AREA, 'ft**2'), 0.0, a <= 0.0


@contract(F + r'wetted_area_total:TailWettedArea$')
def tails(c):
    h, v = A.HorizontalTail, A.VerticalTail
    full = c.i(h.WETTED_AREA_SCALER) * c.i(Names.XMULTH) * c.i(h.AREA, 'ft**2')
    if c.opt(A.Wing.SPAN_EFFICIENCY_REDUCTION):
        yield 'horizontal tail', c.o(h.WETTED_AREA, 'ft**2'), full
    else:
        hidden = (0.185 + 0.063 * c.opt(A.Propulsion.TOTAL_NUM_FUSELAGE_ENGINES)) * (1.0 - c.i(h.VERTICAL_TAIL_MOUNT_LOCATION))
        yield 'horizontal tail less the part hidden by the body', c.o(h.WETTED_AREA, 'ft**2'), full * (1.0 - hidden)
    yield 'vertical tail', c.o(v.WETTED_AREA, 'ft**2'), c.i(v.WETTED_AREA_SCALER) * c.i(Names.XMULTV) * c.i(v.AREA, 'ft**2')


@contract(F + r'wetted_area_total:WingWettedArea$')
def wing_wetted(c):
    covered = c.opt(A.Fuselage.NUM_FUSELAGES) * c.i(Names.XDX) * (c.i(Names.CROOT) + c.i(Names.CROOTB)) / 2.0
    yield 'exposed wing', c.o(A.Wing.WETTED_AREA, 'ft**2'), c.i(A.Wing.WETTED_AREA_SCALER) * c.i(Names.XMULT) * (c.i(S, 'ft**2') - covered)


@contract(F + r'wetted_area_total:PrelimWettedArea$')
def prelim(c):
    s, b, t, g = c.i(S, 'ft**2'), c.i(B, 'ft'), c.i(TR), c.i(GLOVE, 'ft**2')
    bwb = c.opt(A.Design.TYPE) is AircraftTypes.BLENDED_WING_BODY
    h, v = A.HorizontalTail, A.VerticalTail
    yield 'wing surface factor', c.o(Names.XMULT), surface(c.i(TC))
    yield 'horizontal tail surface factor', c.o(Names.XMULTH), surface(c.i(h.THICKNESS_TO_CHORD))
    yield 'vertical tail surface factor', c.o(Names.XMULTV), surface(c.i(v.THICKNESS_TO_CHORD))
    root = c.o(Names.CROOT)
    yield 'trapezoidal wing', root * (1 + t) * b / 2, s - g
    x = c.o(Names.XDX) / b
    yield 'wing chord at the body side', c.o(Names.CROOTB), root * ((1 - x) + x * t)
    if not bwb:
        hs = c.i(h.AREA, 'ft**2')
        yield 'tail span', c.o(Names.SPANHT)**2, hs * c.i(h.ASPECT_RATIO)
        span, taper = c.o(Names.SPANHT), c.i(h.TAPER_RATIO)
        yield ('horizontal tail chord inside the body', c.o(Names.CRTHTB) * span**2 * (1 + taper) / 2, hs * (span - (1 - taper) * c.o(Names.XDX) / 2),
               (hs > 0.0) & (c.i(h.ASPECT_RATIO) > 0.0))
    if not c.has_i(v.AREA):
        return
    n = c.opt(v.NUM_TAILS)
    yield 'fin span', c.o(Names.SPANVT)**2, c.i(v.AREA, 'ft**2') * c.i(v.ASPECT_RATIO), n > 0
    yield ('trapezoidal fin', c.o(Names.CROTVT) * c.o(Names.SPANVT) * (1 + c.i(v.TAPER_RATIO)) / 2, c.i(v.AREA, 'ft**2'),
           (n > 0) & (c.i(v.ASPECT_RATIO) * c.i(v.AREA) > 0.0))


@contract(F + r'wetted_area_total:FuselageWettedArea$')
def fuselage_wetted(c):
    d, l = c.i(A.Fuselage.REF_DIAMETER, 'ft'), c.i(A.Fuselage.LENGTH, 'ft')
    yield 'circular cross section', c.o(A.Fuselage.CROSS_SECTION, 'ft**2'), np.pi / 4 * d * d
    def cut(chord, tc): return 0.673 * c.i(tc) * c.i(chord)**2
    h = A.HorizontalTail
    holes = (2 * cut(Names.CROOTB, TC) + 2 * (1 - c.i(h.VERTICAL_TAIL_MOUNT_LOCATION)) * cut(Names.CRTHTB, h.THICKNESS_TO_CHORD)
             + cut(Names.CROTVT, A.VerticalTail.THICKNESS_TO_CHORD))
    yield ('body less the intersections', c.o(A.Fuselage.WETTED_AREA, 'ft**2'), c.i(A.Fuselage.WETTED_AREA_SCALER) * (np.pi * d * (l - 1.7 * d) - holes),
           (c.opt(A.Fuselage.NUM_FUSELAGES) > 0) & (d > 0.0))


def _stations(c):
    """Span stations and chords of a blended wing body as the detailed wing definition gives them [ft]."""
    w, b = c.i(A.Fuselage.MAX_WIDTH, 'ft').ravel()[0], c.i(B, 'ft').ravel()[0]
    ch = c.i('BWB_CHORD_PER_SEMISPAN_DISTRIBUTION').ravel()
    given = list(np.ravel(np.asarray(c.opt(A.Wing.INPUT_STATION_DISTRIBUTION), dtype=object)))
    if c.opt(A.BWB.WING_ROOT_INDEX) < 1:
        # stations run outboard of the body side: fractions of the outer panel or feet
        y = [0.0, w / 2.0] + [np.where(x <= 1.0, x * (b - w) / b + w / b, x + w / 2.0) for x in given[1:]]
    else:
        y = given
    y = [np.where(x <= 1.1, x * b / 2.0, x) for x in y]
    ch = [np.where(x <= 5.0, x * b / 2.0, x) for x in ch]
    if len(y) != len(ch):
        raise Skip
    return y, ch


@contract(F + r'wetted_area_total:BWBWingWettedArea$')
def bwb_wetted(c):
    y, ch = _stations(c)
    tc = c.i('BWB_THICKNESS_TO_CHORD_DISTRIBUTION').ravel()
    tot = 0.0
    for k in range(1, len(y)):
        tot = tot + (y[k] - y[k - 1]) * (ch[k] + ch[k - 1]) * surface((tc[k] + tc[k - 1]) / 2.0)
    yield 'strip wetted areas', c.o(A.Wing.WETTED_AREA, 'ft**2'), tot


@contract(F + r'wing_detailed_bwb:BWBWingPrelim$')
def bwb_planform(c):
    y, ch = _stations(c)
    s = 0.0
    for k in range(1, len(y)):
        s = s + (y[k] - y[k - 1]) * (ch[k] + ch[k - 1])
    area, b = c.o(S, 'ft**2'), c.i(B, 'ft')
    yield 'strip areas', area, s
    yield 'aspect ratio', c.o(AR) * (area - c.i(GLOVE, 'ft**2')), b * b
    yield 'reference aspect ratio', c.o(A.Wing.ASPECT_RATIO_REFERENCE), c.o(AR)
    yield 'load carried by the outer wing', c.o(A.Wing.LOAD_FRACTION) * b * b, (b - c.i(A.Fuselage.MAX_WIDTH, 'ft'))**2


@contract(F + r'wing_detailed_bwb:BWB(Update|Compute)DetailedWingDist$')
def bwb_span(c):
    yield 'span is body width plus both outer panels', c.o(B, 'ft'), c.i(A.Fuselage.MAX_WIDTH, 'ft') + 2 * c.i(A.Wing.OUTBOARD_SEMISPAN, 'ft')


# ---------------------------------------------------------------- FLOPS: reference dimensions
@contract(F + r'wing:WingPrelim$')
def wing_prelim(c):
    yield 'aspect ratio', c.o(AR) * (c.i(S, 'ft**2') - c.i(GLOVE, 'ft**2')), c.i(B, 'ft')**2


@contract(F + r'fuselage:(BWB)?FuselagePrelim$')
def fuselage_prelim(c):
    w, h, l = c.i(A.Fuselage.MAX_WIDTH, 'ft'), c.i(A.Fuselage.MAX_HEIGHT, 'ft'), c.i(A.Fuselage.LENGTH, 'ft')
    yield 'mean of width and height', c.o(A.Fuselage.REF_DIAMETER, 'ft') * 2, w + h
    side = c.i(A.Wing.ROOT_CHORD, 'ft') if c.has_i(A.Wing.ROOT_CHORD) else l
    yield 'planform', c.o(A.Fuselage.PLANFORM_AREA, 'ft**2'), w * (l + side) / 2


@contract(F + r'prep_geom:_FuselageRatios$')
def fuselage_ratios(c):
    d, b2 = c.i(A.Fuselage.REF_DIAMETER, 'ft'), c.i(AR) * (c.i(S, 'ft**2') - c.i(GLOVE, 'ft**2'))
    yield 'diameter to span', c.o(A.Fuselage.DIAMETER_TO_WING_SPAN)**2 * b2, d * d
    yield 'length to diameter', c.o(A.Fuselage.LENGTH_TO_DIAMETER) * d, c.i(A.Fuselage.LENGTH, 'ft'), d > 0.0


@contract(F + r'characteristic_lengths:(BWB)?WingCharacteristicLength$')
def wing_length(c):
    s, l = c.i(S, 'ft**2'), c.o(A.Wing.CHARACTERISTIC_LENGTH, 'ft')
    yield 'fineness', c.o(A.Wing.FINENESS), c.i(TC)
    if c.has_i(B):
        yield 'mean chord', l * c.i(B, 'ft'), s
    elif c.opt(A.Wing.SPAN_EFFICIENCY_REDUCTION):
        yield 'mean aerodynamic chord', l, mac(c.i(Names.CROOT), c.i(TR))
    else:
        yield 'mean chord', l * l * c.i(AR), s - c.i(GLOVE, 'ft**2')


@contract(F + r'characteristic_lengths:(HorizontalTail|VerticalTail|Canard)CharacteristicLength$')
def tail_length(c):
    p = next(x for x in (A.HorizontalTail, A.VerticalTail, A.Canard) if c.has_o(x.CHARACTERISTIC_LENGTH))
    l = c.o(p.CHARACTERISTIC_LENGTH, 'ft')
    if p is not A.Canard:
        yield 'no tail, no length', l, 0.0, c.opt(p.NUM_TAILS) < 1
        if not c.has_i(p.AREA):
            return
    s, ar = c.i(p.AREA, 'ft**2'), c.i(p.ASPECT_RATIO)
    there = (s > 0.0) & (ar > 0.0)
    if p is not A.Canard:
        there = there & (c.opt(p.NUM_TAILS) > 0)
    yield 'mean chord', l * l * ar, s, there
    yield 'fineness', c.o(p.FINENESS), c.i(p.THICKNESS_TO_CHORD), there


@contract(F + r'characteristic_lengths:FuselageCharacteristicLengths$')
def fuselage_length(c):
    l = c.i(A.Fuselage.LENGTH, 'ft')
    yield 'length', c.o(A.Fuselage.CHARACTERISTIC_LENGTH, 'ft'), l
    yield 'fineness', c.o(A.Fuselage.FINENESS) * c.i(A.Fuselage.REF_DIAMETER, 'ft'), l


@contract(F + r'characteristic_lengths:NacelleCharacteristicLength$')
def nacelle_length(c):
    n = np.atleast_1d(c.opt(NE))
    l, d = c.i(A.Nacelle.AVG_LENGTH, 'ft'), c.i(A.Nacelle.AVG_DIAMETER, 'ft')
    f, r = c.i(A.Engine.SCALED_SLS_THRUST, 'lbf'), c.i(A.Engine.REFERENCE_SLS_THRUST, 'lbf')
    ol, of = c.o(A.Nacelle.CHARACTERISTIC_LENGTH, 'ft'), c.o(A.Nacelle.FINENESS)
    for k in range(len(n)):
        there = (n[k] >= 1) & (f[k] > 0.0) & (r[k] > 0.0) & (d[k] > 0.0) & (l[k] > 0.0)
        yield f'length scales with the square root of thrust, engine {k}', ol[k]**2 * r[k], l[k]**2 * f[k], there
        yield f'fineness, engine {k}', of[k] * d[k], l[k], there


@contract(F + r'landing_gear:NoseGearLength$')
def nose_gear(c):
    yield 'nose gear', c.o(A.LandingGear.NOSE_GEAR_OLEO_LENGTH, 'inch'), 0.7 * c.i(A.LandingGear.MAIN_GEAR_OLEO_LENGTH, 'inch')


@contract(F + r'fuselage:SimpleCabinLayout$')
def simple_cabin(c):
    l = c.i(A.Fuselage.LENGTH, 'ft')
    yield 'cabin length', c.o(A.Fuselage.PASSENGER_COMPARTMENT_LENGTH, 'ft'), 0.6085 * l * np.arctan(l / 59.0)**1.1


@contract(F + r'fuselage:BWBSimpleCabinLayout$')
def bwb_cabin(c):
    l, w = c.i(A.Fuselage.LENGTH, 'ft'), c.i(A.Fuselage.MAX_WIDTH, 'ft')
    cab, wall = c.o(A.Fuselage.PASSENGER_COMPARTMENT_LENGTH, 'ft'), c.o(A.Wing.ROOT_CHORD, 'ft') * c.i(A.BWB.REAR_SPAR_PERCENT_CHORD_ROOT)
    yield 'centreline length', cab, c.i(A.BWB.REAR_SPAR_PERCENT_CHORD_CENTERLINE) * l
    yield 'trapezoidal cabin', c.o(A.Fuselage.CABIN_AREA, 'ft**2') * 2, (cab + wall) * w
    yield 'height', c.o(A.Fuselage.MAX_HEIGHT, 'ft'), c.i(A.Fuselage.SIDEBODY_THICKNESS_TO_CHORD) * l


# ---------------------------------------------------------------- GASP: wing
@contract(G + r'wing:WingSize$')
def wing_size(c):
    s = c.o(S, 'ft**2')
    yield 'wing loading carries the design weight', s * c.i(A.Design.WING_LOADING, 'lbf/ft**2'), c.i(A.Design.GROSS_MASS, 'lbm')
    yield 'aspect ratio', c.o(B, 'ft')**2, c.i(AR) * s


@contract(G + r'wing:WingParameters$')
def wing_parameters(c):
    s, b, t, root = c.i(S, 'ft**2'), c.i(B, 'ft'), c.i(TR), c.o(A.Wing.CENTER_CHORD, 'ft')
    yield 'trapezoidal wing', root * (1 + t) * b / 2, s
    yield 'mean aerodynamic chord', c.o(A.Wing.AVERAGE_CHORD, 'ft'), mac(root, t)
    k = (1 - t) / (1 + t) / c.i(AR)
    qc = np.tan(c.i(A.Wing.SWEEP, 'rad'))
    yield 'leading edge sweep', np.tan(c.o(A.Wing.LEADING_EDGE_SWEEP, 'rad')), qc + k
    tcr, d = c.i(A.Wing.THICKNESS_TO_CHORD_ROOT), c.i(D, 'ft')
    z = tcr * root
    half = np.sqrt(z * (d - z)) + 0.2
    yield 'root chord where the wing leaves the body', c.o(A.Wing.ROOT_CHORD, 'ft'), root - half * ((qc + k) - (qc - 3 * k))
    tct, x = c.i(A.Wing.THICKNESS_TO_CHORD_TIP), d / b
    yield ('chord-weighted thickness', c.o(A.Wing.THICKNESS_TO_CHORD_UNWEIGHTED) * ((1 - x * (1 - t)) + t),
           (tcr - x * (tcr - tct)) * (1 - x * (1 - t)) + t * tct)


def prismoid(frac, tc, s, ar, t):
    return frac * 0.888889 * tc * s**1.5 * (2 * t + 1) / (np.sqrt(ar) * (t + 1)**2)


@contract(G + r'wing:WingVolume$')
def wing_volume(c):
    t, x = c.i(TR), c.i(D, 'ft') / c.i(B, 'ft')
    tcr, tct = c.i(A.Wing.THICKNESS_TO_CHORD_ROOT), c.i(A.Wing.THICKNESS_TO_CHORD_TIP)
    side = 1 - x * (1 - t)
    tc = ((tcr - x * (tcr - tct)) * side + t * tct) / (side + t)
    yield ('tank volume', c.o(A.Fuel.WING_VOLUME_GEOMETRIC_MAX, 'ft**3'), prismoid(c.i(A.Fuel.WING_FUEL_FRACTION), tc, c.i(S, 'ft**2'), c.i(AR), t))


def fold_at(c):
    return c.i(A.Wing.FOLDED_SPAN, 'ft') / 2 if c.opt(A.Wing.CHOOSE_FOLD_LOCATION) else c.i('strut_y', 'ft')


@contract(G + r'wing:WingFoldArea$')
def fold_area(c):
    s, b, t, y = c.i(S, 'ft**2'), c.i(B, 'ft'), c.i(TR), fold_at(c)
    root = 2 * s / (b * (1 + t))
    x = 2 * y / b
    yield 'area outboard of the fold', c.o(A.Wing.FOLDING_AREA, 'ft**2'), (1 - x) * b / 2 * root * ((1 - x) + x * t + t)


@contract(G + r'wing:WingFoldVolume$')
def fold_volume(c):
    s, b, t, y = c.i(S, 'ft**2'), c.i(B, 'ft'), c.i(TR), fold_at(c)
    x = 2 * y / b
    inner = c.o('nonfolded_wing_area', 'ft**2')
    yield 'folded and fixed areas add up', inner + c.i(A.Wing.FOLDING_AREA, 'ft**2'), s
    yield 'taper of the fixed part', c.o('nonfolded_taper_ratio'), 1 + x * (t - 1)
    yield 'aspect ratio of the fixed part', c.o('nonfolded_AR') * inner, (2 * y)**2
    tcr, tct = c.i(A.Wing.THICKNESS_TO_CHORD_ROOT), c.i(A.Wing.THICKNESS_TO_CHORD_TIP)
    yield 'mean thickness of the fixed part', c.o('tc_ratio_mean_folded'), (tcr + ((1 - x) * tcr + x * tct)) / 2
    yield ('tank volume', c.o(A.Fuel.WING_VOLUME_GEOMETRIC_MAX, 'ft**3'),
           prismoid(c.i(A.Fuel.WING_FUEL_FRACTION), c.o('tc_ratio_mean_folded'), inner, c.o('nonfolded_AR'), c.o('nonfolded_taper_ratio')))


@contract(G + r'wing:BWBWingFoldVolume$')
def bwb_fold_volume(c):
    b, d, y = c.i(B, 'ft'), c.i(D, 'ft'), fold_at(c)
    x = 2 * y / b
    tcr, tct = c.i(A.Wing.THICKNESS_TO_CHORD_ROOT), c.i(A.Wing.THICKNESS_TO_CHORD_TIP)
    fold = (1 - x) * tcr + x * tct
    yield ('volume kept inboard of the fold', c.o(A.Fuel.WING_VOLUME_GEOMETRIC_MAX, 'ft**3') * (b - d) * (tcr + tct),
           c.i('wing_volume_no_fold', 'ft**3') * (2 * y - d) * (tcr + fold))


@contract(G + r'wing:ExposedWing$')
def exposed(c):
    z, d, s, b, t = c.i(A.Wing.VERTICAL_MOUNT_LOCATION), c.i(D, 'ft'), c.i(S, 'ft**2'), c.i(B, 'ft'), c.i(TR)
    chord = np.sqrt(z * (1 - z))
    if c.opt(A.Design.TYPE) is AircraftTypes.BLENDED_WING_BODY:
        h = d * c.i(A.Fuselage.HEIGHT_TO_WIDTH_RATIO)
        half = (d - h) / 2 + h * chord
    else:
        half = d * chord
    root = 2 * s / (b * (1 + t))
    x = 2 * half / b
    yield ('area outside the body', c.o(A.Wing.EXPOSED_AREA, 'ft**2'), (b / 2 - half) * root * ((1 - x) + x * t + t), (z > 0.06) & (z < 0.94))


@contract(G + r'strut:StrutGeom$')
def strut(c):
    y, d, l, a = c.o('strut_y', 'ft'), c.i(D, 'ft'), c.o(A.Strut.LENGTH, 'ft'), c.o(A.Strut.AREA, 'ft**2')
    yield 'half the attachment distance', 2 * y, c.i(A.Strut.ATTACHMENT_LOCATION, 'ft')
    yield 'strut runs from the body bottom to the wing', l * l, (y - d / 2)**2 + d * d
    yield 'area ratio', a, c.i(A.Strut.AREA_RATIO) * c.i(S, 'ft**2')
    yield 'two struts make up the area', 2 * c.o(A.Strut.CHORD, 'ft') * l, a


@contract(G + r'non_dimensional_conversion:StrutCalcs$')
def strut_nondim(c):
    if not c.opt(A.Wing.HAS_STRUT):
        raise Skip
    n = A.Strut.ATTACHMENT_LOCATION
    x, z = (c.i(n, 'ft'), c.o(n + '_dimensionless')) if c.has_i(n) else (c.o(n, 'ft'), c.i(n + '_dimensionless'))
    yield 'fraction of the span', z * c.i(B, 'ft'), x


@contract(G + r'non_dimensional_conversion:FoldCalcs$')
def fold_nondim(c):
    n = A.Wing.FOLDED_SPAN
    x, z = (c.i(n, 'ft'), c.o(n + '_dimensionless')) if c.has_i(n) else (c.o(n, 'ft'), c.i(n + '_dimensionless'))
    yield 'fraction of the span', z * c.i(B, 'ft'), x


# ---------------------------------------------------------------- GASP: tails, engines, body
@contract(G + r'empennage:TailSize$')
def tail_size(c):
    v = c.opt('orientation') == 'vertical'
    p, ref = (A.VerticalTail, B) if v else (A.HorizontalTail, A.Wing.AVERAGE_CHORD)
    s, b, root, arm, t = c.o(p.AREA, 'ft**2'), c.o(p.SPAN, 'ft'), c.o(p.ROOT_CHORD, 'ft'), c.o(p.MOMENT_ARM, 'ft'), c.i(p.TAPER_RATIO)
    yield 'tail volume', s * arm, c.i(p.VOLUME_COEFFICIENT) * c.i(S, 'ft**2') * c.i(ref, 'ft')
    yield 'moment arm', arm * c.i(p.MOMENT_RATIO), c.i(ref, 'ft')
    yield 'aspect ratio', b * b, s * c.i(p.ASPECT_RATIO)
    yield 'trapezoid', root * (1 + t) * b / 2, s
    yield 'mean aerodynamic chord', c.o(p.AVERAGE_CHORD, 'ft'), mac(root, t)


@contract(G + r'empennage:TailVolCoef$')
def tail_volume(c):
    v = c.opt('orientation') == 'vertical'
    p, ref, k = (A.VerticalTail, B, (0.07, 0.0434, 0.336)) if v else (A.HorizontalTail, A.Wing.AVERAGE_CHORD, (0.43, 0.38, 0.85))
    body = c.i(A.Fuselage.LENGTH, 'ft') * c.i(D, 'ft')**2 / (c.i(S, 'ft**2') * c.i(ref, 'ft'))
    yield 'volume coefficient', c.o(p.VOLUME_COEFFICIENT), k[0] - k[1] * c.i(A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION) + k[2] * body


@contract(G + r'engine:GASPEngineDiameter$')
def engine_diameter(c):
    n, d = np.atleast_1d(c.opt(NE)), c.o(A.Nacelle.AVG_DIAMETER, 'ft')
    k = c.i(A.Nacelle.CORE_DIAMETER_RATIO)
    inlet = c.i(A.Engine.INLET_AREA_COEFFICIENT) * c.i(A.Design.GROSS_MASS, 'lbm')
    for j in range(len(d)):
        yield f'inlet area per engine {j}', np.pi / 4 * d[j]**2 * n[j], k[j]**2 * inlet.ravel()[j if inlet.size > 1 else 0], n[j] >= 1


@contract(G + r'engine:GASPEngineLength$')
def engine_length(c):
    yield 'fineness', c.o(A.Nacelle.AVG_LENGTH, 'ft'), c.i(A.Nacelle.FINENESS) * c.i(A.Nacelle.AVG_DIAMETER, 'ft')


@contract(G + r'engine:GASPEngineSurfaceArea$')
def engine_surface(c):
    yield 'exposed cylinder', c.o(A.Nacelle.SURFACE_AREA, 'ft**2'), c.i('percent_exposed') * np.pi * c.i(A.Nacelle.AVG_DIAMETER, 'ft') * c.i(A.Nacelle.AVG_LENGTH, 'ft')


@contract(G + r'engine:PercentNotInFuselage$')
def buried(c):
    x = c.i(A.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE)
    yield 'exposed arc of a circle', np.cos(np.pi * (1 - c.o('percent_exposed'))), 1 - 2 * x, (x > 0.06) & (x < 0.94)


@contract(G + r'electric:CableSize$')
def cable(c):
    yield ('cable length', c.o(A.Electrical.HYBRID_CABLE_LENGTH, 'ft'), np.sum(c.i(A.Engine.WING_LOCATIONS)) * c.i(B, 'ft') + 2 * c.i(D, 'ft'))


@contract(G + r'fuselage:FuselageSize$')
def fuselage_size(c):
    nose = c.i(A.Fuselage.NOSE_FINENESS) * c.i('nose_height', 'ft')
    pilot, cab, h = c.i(A.Fuselage.PILOT_COMPARTMENT_LENGTH, 'ft'), c.i('cabin_len', 'ft'), c.i('cabin_height', 'ft')
    tail = c.i(A.Fuselage.TAIL_FINENESS) * h
    yield 'sections add up to the length', c.o(A.Fuselage.LENGTH, 'ft'), nose + pilot + cab + tail
    yield 'tail boom', c.o(A.TailBoom.LENGTH, 'ft'), c.o(A.Fuselage.LENGTH, 'ft')
    yield ('sections add up to the wetted area', c.o(A.Fuselage.WETTED_AREA, 'ft**2'),
           c.i(A.Fuselage.WETTED_AREA_SCALER) * h * (2.5 * (nose + pilot) + 3.14 * cab + 2.1 * tail))
    yield 'cabin floor', c.o(A.Fuselage.CABIN_AREA, 'ft**2'), h * (pilot + cab)


@contract(G + r'fuselage:FuselageParameters$')
def cabin_width(c):
    n, k = c.opt(A.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY), c.opt(A.Fuselage.NUM_AISLES)
    yield ('seats, aisles and walls side by side', c.o(D, 'inch'), n * c.i(A.Fuselage.SEAT_WIDTH_ECONOMY, 'inch') + k * c.i(A.Fuselage.AISLE_WIDTH, 'inch') + 12)


@contract(G + r'fuselage:BWBFuselageParameters1$')
def bwb_body(c):
    n, k = c.opt(A.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY), c.opt(A.Fuselage.NUM_AISLES)
    cab = n * c.i(A.Fuselage.SEAT_WIDTH_ECONOMY, 'ft') + k * c.i(A.Fuselage.AISLE_WIDTH, 'ft') + 1
    d, h = c.o(D, 'ft'), c.o('cabin_height', 'ft')
    yield 'body width', d, cab + c.i(A.Fuselage.PRESSURIZED_WIDTH_ADDITIONAL, 'ft')
    yield 'height to width ratio', h, c.i(A.Fuselage.HEIGHT_TO_WIDTH_RATIO) * cab
    yield 'hydraulic diameter of an ellipse', c.o(A.Fuselage.HYDRAULIC_DIAMETER, 'ft')**2, d * h
    yield 'nose height', c.o('nose_height', 'ft') + c.i(A.Fuselage.DELTA_DIAMETER, 'ft'), h
    yield 'nose length', c.o('nose_length', 'ft'), c.i(A.Fuselage.NOSE_FINENESS) * c.o('nose_height', 'ft')


@contract(G + r'fuselage:BWBFuselageParameters2$')
def bwb_planform_areas(c):
    tan = np.tan(c.i(A.BWB.PASSENGER_LEADING_EDGE_SWEEP, 'rad'))
    d, cab = c.i(D, 'ft'), c.i(D, 'ft') - c.i(A.Fuselage.PRESSURIZED_WIDTH_ADDITIONAL, 'ft')
    nose, aft = c.i('nose_length', 'ft'), c.i('fuselage_station_aft', 'ft')
    tail = c.o('aftbody_len', 'ft')
    yield 'triangular forebody', 2 * c.o('forebody_len', 'ft'), cab * tan
    yield 'triangular nose', c.o('nose_area', 'ft**2') * tan, nose * nose
    yield 'tail cone', tail, c.i(A.Fuselage.TAIL_FINENESS) * c.i('cabin_height', 'ft')
    yield 'lengths add up to the aft station', c.o('cabin_len', 'ft') + nose + c.i(A.Fuselage.PILOT_COMPARTMENT_LENGTH, 'ft'), aft
    yield 'planform areas add up', c.o(A.Fuselage.PLANFORM_AREA, 'ft**2'), c.o('nose_area', 'ft**2') + c.o(A.Fuselage.CABIN_AREA, 'ft**2') + tail * (cab + d) / 2


@contract(G + r'fuselage:BWBFuselageSize$')
def bwb_fuselage_size(c):
    parts = c.i('nose_length', 'ft') + c.i(A.Fuselage.PILOT_COMPARTMENT_LENGTH, 'ft') + c.i('cabin_len', 'ft') + c.i('aftbody_len', 'ft')
    yield 'sections add up to the length', c.o(A.Fuselage.LENGTH, 'ft'), parts
    yield 'tail boom', c.o(A.TailBoom.LENGTH, 'ft'), parts
    d, h, w = c.i(D, 'ft'), c.i('cabin_height', 'ft'), c.i(A.Fuselage.PRESSURIZED_WIDTH_ADDITIONAL, 'ft')
    fb, ab = c.i('forebody_len', 'ft'), c.i('aftbody_len', 'ft')
    def slant(x, y): return np.sqrt(x * x + (y / 2)**2)
    area = (h * slant(fb, d) + d * slant(fb, h) + 2 * (d * (c.i('fuselage_station_aft', 'ft') - fb) + c.i('nose_area', 'ft**2'))
            + (2 * d - w) * slant(ab, h) + h * slant(ab, w))
    yield 'sections add up to the wetted area', c.o(A.Fuselage.WETTED_AREA, 'ft**2'), c.i(A.Fuselage.WETTED_AREA_SCALER) * area
