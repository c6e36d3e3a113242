"""C17: how variables, options and overrides of the aircraft data reach the components of the model.

The metadata defaults are symbolic (one fresh number per default), the components and groups are OpenMDAO's own wherever that is
possible; the trajectory and the problem are recorders with the signatures of dymos / OpenMDAO."""
from fnmatch import fnmatchcase
import inspect
import itertools
import warnings
from enum import Enum
import dymos as dm
import numpy as np
import openmdao.api as om
import aviary.utils.functions as uf
import aviary.variable_info.functions as vf
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import GASPEngineType, LegacyCode, Verbosity
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft, Dynamic, Mission, Settings
from ..data import freeze
from .values import POOL, compatible, conv, units_of

NUM = (int, float, np.integer, np.floating)
Eng = Aircraft.Engine


class Comp:
    """A component that records its declarations; the options are OpenMDAO's."""
    def __init__(self):
        self.name, self.calls, self.options = 'comp', [], om.OptionsDictionary()

    def add_input(self, name, val=1.0, shape=None, units=None, desc='', **k):
        self.calls.append(('input', name, val, shape, units, desc, k))

    def add_output(self, name, val=1.0, shape=None, units=None, desc='', **k):
        self.calls.append(('output', name, val, shape, units, desc, k))


def symbolic_default(M, v, tag='default'):
    """The same kind of default with symbolic numbers."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, Enum)):
        return v
    if isinstance(v, float):
        return M.f(tag, 1, 1000)
    if isinstance(v, int):
        return M.i(tag, 1, 9)
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu':
        return M.arr([symbolic_default(M, x, f'{tag}{k}') for k, x in enumerate(v.tolist())])
    if isinstance(v, (list, tuple)):
        return type(v)(symbolic_default(M, x, f'{tag}{k}') for k, x in enumerate(v))
    return v


def numeric(v):
    if isinstance(v, np.ndarray):
        return v.dtype.kind in 'fiu'
    if isinstance(v, (list, tuple)):
        return all(numeric(x) for x in v)
    return isinstance(v, (int, float)) and not isinstance(v, (bool, Enum))


def meta_of(M, name, val):
    """One entry of the metadata with the symbolic default, numbers of any kind allowed as declared."""
    return M.meta({name: {**CoreMetaData[name], 'default_value': val}})


def filled(val, shape):
    if shape is None:
        return val
    n = (shape,) if isinstance(shape, int) else tuple(shape)
    a = np.empty(n, dtype=object)
    for i in np.ndindex(n):
        a[i] = val
    return a


def flat(M, v):
    """(shape, numbers) of a declared value."""
    if isinstance(v, np.ndarray):
        return list(v.shape), [M.real(x) for x in v.ravel()]
    if isinstance(v, (list, tuple)):
        return [len(v)], [M.real(x) for x in v]
    return [], [M.real(v)]


INCOMPATIBLE = {u: next(v for v in POOL if not compatible(u, v)) for u in {m['units'] for m in CoreMetaData.values()}}


def io_case(name, n_units):
    meta = CoreMetaData[name]
    du = meta['units']

    def f(M):
        vec = isinstance(meta['default_value'], (list, tuple, np.ndarray))
        d = symbolic_default(M, float(meta['default_value']) if type(meta['default_value']) is int else meta['default_value'])
        for kind, add in (('input', vf.add_aviary_input), ('output', vf.add_aviary_output)):
            for u in [None] + units_of(du, n_units):
                for shape in (None,) if vec or not meta['multivalue'] else (None, 1, 3, (2, 2)):
                    md = meta_of(M, name, freeze(d))
                    c = Comp()
                    add(c, name, units=u, meta_data=md, **({} if shape is None else dict(shape=shape)))
                    yield f'{kind}: declared once', [(x[0], x[1]) for x in c.calls], [(kind, name)]
                    _, _, val, shp, units, desc, kw = c.calls[0]
                    yield f'{kind}: default of the metadata in the requested units and shape', flat(M, val), flat(M, filled(conv(d, du, u or du), shape))
                    yield f'{kind}: units', units, u or du
                    yield f'{kind}: description', desc, meta['desc']
                    if kind == 'input':
                        yield 'input: shape', shp, shape
                    yield f'{kind}: metadata untouched', md[name]['default_value'], d
            md = meta_of(M, name, freeze(d))
            yield f'{kind}: incompatible units are refused', M.raises(lambda: add(Comp(), name, units=INCOMPATIBLE[du], meta_data=md), (ValueError, TypeError)), 'raised'
            c = Comp()
            add(c, name, desc='own text', meta_data=md, shape_by_conn=True, primal_name='p', tags=['t'], copy_shape='q')
            x = c.calls[0]
            yield f'{kind}: arguments passed on', [x[5], x[6]], ['own text', dict(shape_by_conn=True, primal_name='p', tags=['t'], copy_shape='q')]
    return f


def option_case(name, n_units):
    meta = CoreMetaData[name]
    du = meta['units']
    unitless = du in (None, 'unitless')

    def f(M):
        d = symbolic_default(M, meta['default_value'])
        md = meta_of(M, name, freeze(d))
        for u in [None] + ([] if unitless else units_of(du, n_units)):
            c = Comp()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                vf.add_aviary_option(c, name, units=u, meta_data=md)
            yield 'a variable that is no option is reported', [str(x.message).startswith(f'Variable {name} was declared an option') for x in w if 'declared an option' in str(x.message)], [] if meta['option'] else [True]
            yield 'one option', list(c.options), [name]
            want = conv(d, du, u or du) if numeric(meta['default_value']) else d
            got = c.options[name] if d is not None or not unitless else want
            yield 'default of the metadata in the requested units', M.real(got), M.real(want if unitless else (want, u or du))
            yield 'description', c.options._dict[name]['desc'], meta['desc']
            if not unitless and numeric(meta['default_value']):
                new = symbolic_default(M, meta['default_value'], 'given')
                for g in units_of(du, 3):
                    c.options[name] = (freeze(new), g)
                    yield 'a value given in other units is converted', M.real(c.options[name]), M.real((conv(new, g, u or du), u or du))
        if numeric(meta['default_value']):
            c = Comp()
            own = symbolic_default(M, meta['default_value'], 'own')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                vf.add_aviary_option(c, name, val=freeze(own), desc='own text', meta_data=md)
            yield 'given value and description', [M.real(c.options[name]), c.options._dict[name]['desc']], [M.real(own if unitless else (own, du)), 'own text']
        if not unitless:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield 'incompatible units are refused', M.raises(lambda: vf.add_aviary_option(Comp(), name, units=INCOMPATIBLE[du], meta_data=md), (ValueError, TypeError)), 'raised'
        yield 'metadata untouched', md[name]['default_value'], d
    return f


# ------------------------------------------------------------------------------------------------------------ model options
def own_meta(M, spec):
    """spec: {name: (units, option, types)}"""
    return M.meta({k: dict(units=u, option=o, types=t, desc='', default_value=None, multivalue=True, historical_name=None) for k, (u, o, t) in spec.items()})


def extract_case(mask):
    """Four variables: (option, units) in all combinations; `mask` says which of them the data holds."""
    def f(M):
        spec = {'aircraft:a': ('ft', True, float), 'aircraft:b': ('unitless', True, float), 'aircraft:c': ('ft', False, float), 'aircraft:d': (None, True, float), 'aircraft:e': ('unitless', False, float)}
        md = own_meta(M, spec)
        av, want = AviaryValues(), {}
        for k, (n, (u, o, t)) in enumerate(spec.items()):
            if mask >> k & 1:
                g = 'm' if u == 'ft' else u or 'unitless'
                v = M.f(f'x{k}')
                av.set_val(n, v, g, md)
                if o:
                    got, gu = av.get_item(n)
                    want[n] = (got, gu) if u == 'ft' else got
                    yield 'stored value', (got, gu), (v, g)
        yield 'every option of the data and nothing else', vf.extract_options(av, md), want
    return f


class Box:
    pass


OPT = [Eng.Motor.DATA_FILE, Eng.SUBSONIC_FUEL_FLOW_SCALER, Eng.SUPERSONIC_FUEL_FLOW_SCALER, Eng.FUEL_FLOW_SCALER_CONSTANT_TERM, Eng.FUEL_FLOW_SCALER_LINEAR_TERM]
OPT_UNITS = [Eng.RPM_DESIGN, Eng.FIXED_RPM, Eng.REFERENCE_SLS_THRUST, Eng.CONSTANT_FUEL_MASS_CONSUMPTION]


def model_options_case(n, present, prefix, how):
    """`n` engine types; every engine group gets its own entry of the per-engine options."""
    def f(M):
        av = AviaryValues()
        av.set_val(Settings.VERBOSITY, Verbosity.QUIET)
        data = {}
        for k, name in enumerate(OPT + OPT_UNITS):
            if not present >> k & 1:
                continue
            u = CoreMetaData[name]['units']
            g = units_of(u, 2)[-1] if u != 'unitless' else u
            v = [f'file{j}' for j in range(n)] if name == Eng.Motor.DATA_FILE else M.arr([M.f(f'v{k}_{j}', 1, 100) for j in range(n)])
            av.set_val(name, v, g)
            data[name] = (v, g)
        plain = M.f('plain', 1, 100)
        av.set_val(Aircraft.Wing.SPAN, plain, 'm')
        av.set_val(Aircraft.APU.MASS, plain, 'kg')
        engines = []
        for j in range(n):
            e = Box()
            e.name = ('eng_2', 'eng', 'engine')[j]      # names that start alike
            engines.append(e)
        prob = Box()
        prob.model_options, prob.model = {}, Box()
        kw = {}
        if how == 'argument':
            kw['engine_models'] = engines
        elif how == 'group':
            kw['group'] = Box()
            kw['group'].engine_models = engines
            prob.model.engine_models = []
        elif how == 'model':
            prob.model.engine_models = engines
        if prefix:
            kw['prefix'] = prefix
        extra = Mission.RESERVE_FUEL_MASS_ADDITIONAL if hasattr(Mission, 'RESERVE_FUEL_MASS_ADDITIONAL') else 'mission:reserve_fuel_mass_additional'
        av.set_val(extra, plain, 'kg')
        keys = snapshot = {k: freeze(av.get_item(k)) for k, _ in av.items()}
        vf.setup_model_options(prob, av, **kw)
        p = f'{prefix}.' if prefix else ''
        base = {k: (snapshot[k] if CoreMetaData[k]['units'] not in (None, 'unitless') else snapshot[k][0]) for k in keys if CoreMetaData[k]['option']}

        def resolved(path):     # as OpenMDAO does: later patterns win
            o = {}
            for pattern, opts in prob.model_options.items():
                if fnmatchcase(path, pattern):
                    o.update(opts)
            return o
        for path in ('pre_mission', 'pre_mission.core_subsystems.mass.wing', 'traj.phases.cruise.rhs_all.propulsion.propulsion_sum', 'pre_mission.core_subsystems.propulsion'):
            yield 'all options of the data', resolved(p + path), base
        for j, e in enumerate(engines):
            o = dict(base)
            if how != 'none':
                for name, (v, g) in data.items():
                    o[name] = (v[j], g) if name in OPT_UNITS else v[j]
            for path in ('pre_mission.core_subsystems.propulsion.', 'traj.phases.cruise.rhs_all.propulsion.', 'traj.phases.climb.rhs_all.solver_sub.propulsion.'):
                for below in ('', '.engine_scaling', '.turboprop.gearbox.motor'):
                    yield 'each engine gets its own entry of the per-engine options', resolved(p + path + e.name + below), o
        if prefix:
            yield 'options of another group untouched', resolved('other.traj.phases.cruise.rhs_all.propulsion.eng'), {}
        yield 'data untouched', {k: av.get_item(k) for k, _ in av.items()}, snapshot
    return f


# ------------------------------------------------------------------------------------------------------------ overrides
UNIT = {'aircraft:x': 'ft', 'mission:y': 'lbm', 'aircraft:z': 'm'}


class Producer(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('makes')
        self.options.declare('needs', default=())

    def setup(self):
        for n in self.options['makes']:
            self.add_output(n, 7.0, units=UNIT.get(n))
        for n in self.options['needs']:
            self.add_input(n, 1.0, units=UNIT[n])
        self.add_output('seen_' + self.name, np.zeros(max(1, len(self.options['needs']))))

    def compute(self, inputs, outputs):
        for n in self.options['makes']:
            outputs[n] = 7.0
        for k, n in enumerate(self.options['needs']):
            outputs['seen_' + self.name][k] = inputs[n][0]


def override_case(state, depth, cdepth, verbosity=Verbosity.QUIET):
    """state: {variable: (in the data, consumed, external, origin)}; the producer sits `depth` groups down, the consumer `cdepth`."""
    def f(M):
        av = AviaryValues()
        md = own_meta(M, {n: (u, False, float) for n, u in UNIT.items()})
        av.set_val(Settings.VERBOSITY, verbosity)
        given = {}
        for n, (held, *_) in state.items():
            if held:
                g = {'ft': 'inch', 'lbm': 'kg', 'm': 'km'}[UNIT[n]]
                given[n] = (M.f('v_' + n, 1, 100), g)
                av.set_val(n, *given[n], md)
        made = list(state)
        used = [n for n in state if state[n][1]]
        ext = [n for n in state if state[n][2]]
        defaults, ret = {}, []

        class Top(om.Group):
            def setup(self):
                self.place('prod', Producer(makes=made + ['other']), depth)
                self.place('cons', Producer(makes=[], needs=used), cdepth)

            def place(self, name, comp, d):
                g = self
                for k in range(d):
                    g = g.add_subsystem(f'{name}_{k}', om.Group(), promotes_inputs=['*'], promotes_outputs=['*'])
                g.add_subsystem(name, comp, **(dict(promotes_inputs=['*'], promotes_outputs=['*']) if d else {}))

            def set_input_defaults(self, name, val=None, units=None, **k):
                defaults[name] = (val, units)
                super().set_input_defaults(name, val=1.0 if M.symbolic else val, units=units, **k)

            def configure(self):
                origin = [n for n in state if state[n][3]]
                kw = {}
                if origin:
                    path = '.'.join([self.pathname] + [f'prod_{k}' for k in range(depth)] + ['prod'])
                    kw['code_origin_overrides'] = [f'{path}.{n}' for n in origin]
                    sub = self._get_subsystem('.'.join(f'prod_{k}' for k in range(depth))) if depth else self
                    if depth:
                        sub.promotes('prod', outputs=[(n, f'CODE_ORIGIN_OVERRIDE:{n}') for n in origin])
                if ext:
                    kw['external_overrides'] = ext
                ret.append(vf.override_aviary_vars(self, av, **kw))
        import contextlib
        import io
        p = om.Problem(reports=False)
        top = p.model.add_subsystem('top', Top(), promotes=['*'])
        if ext:     # an external subsystem computes them
            p.model.add_subsystem('ext', om.ExecComp([f'{"e" + str(k)}=11.0' for k in range(len(ext))]))
        buf = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
            warnings.simplefilter('ignore')
            p.setup()
            p.final_setup()
        prefix = '.'.join(['top'] + [f'prod_{k}' for k in range(depth)] + ['prod']) + '.'
        prom = {m: top.get_io_metadata(iotypes=('output',), return_rel_names=False)[prefix + m]['prom_name'] for m in made + ['other']}
        over = []
        for n in made:
            held, con, e, o = state[n]
            if o:
                yield 'a variable of the other code origin is not promoted', prom[n] != n, True
            elif e:
                yield 'output replaced by an external subsystem', prom[n], f'EXTERNAL_SUBSYSTEM_OVERRIDE:{n}'
            elif held:
                yield 'output replaced by the aircraft data', prom[n], f'AIRCRAFT_DATA_OVERRIDE:{n}'
                over.append(n)
            else:
                yield 'computed output is promoted', prom[n], n
        yield 'reported overrides', sorted(ret[0]), sorted(over)
        yield 'defaults are set where the data replaces a computed input', defaults, {n: given[n] for n in over if state[n][1]}
        yield 'the report lists them on request', sorted(l.split()[0].strip("'") for l in buf.getvalue().splitlines() if l.startswith("  '") and len(l.split()) > 1), \
            sorted(over) if verbosity.value >= Verbosity.VERBOSE.value else []
        if not M.symbolic and used and not any(state[n][2] or state[n][3] for n in used):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p.run_model()
            seen = list(p.model.get_val(next(k for k in p.model._var_allprocs_abs2meta['output'] if k.endswith('seen_cons'))))
            want = [conv(*given[n], UNIT[n]) if n in given else 7.0 for n in used]
            yield 'consumers see the data, or what is computed', [float(x) for x in seen], want
    return f


# ------------------------------------------------------------------------------------------------------------ trajectory parameters
class Traj:
    def __init__(self):
        self.params = {}

    def add_parameter(self, name, **k):
        self.params.setdefault(name, []).append(k)


class Top:
    def __init__(self):
        self.promoted = []

    def promotes(self, subsys_name, any=None, inputs=None, outputs=None, **k):
        for x in list(inputs or []):
            self.promoted.append((subsys_name, x))


def trajectory_case(owners, core, given):
    """owners: {external parameter: phases that add it}; core: variables added for all phases; given: core variables the data holds."""
    ALL = ['climb', 'cruise', 'descent']

    def f(M):
        spec = {'aircraft:p': ('ft', False, float), 'mission:q': ('unitless', False, float), 'aircraft:opt': ('ft', True, float), 'plain': ('ft', False, float), 'aircraft:n': ('lbm', False, float)}
        md = own_meta(M, spec)
        for n in md:
            md[n]['default_value'] = None if n == 'aircraft:n' else M.f('d_' + n)
        av, want = AviaryValues(), {}
        for n in given:
            u = 'm' if spec[n][0] == 'ft' else 'kg' if spec[n][0] == 'lbm' else 'unitless'
            av.set_val(n, M.f('g_' + n), u, md)
        ext = {ph: {} for ph in ALL}
        for k, phs in owners.items():
            o = dict(val=M.f('e_' + k), units='ft', static_target=True)
            for ph in phs:
                ext[ph][k] = dict(o)
            if phs:
                want[k] = [dict(o, targets={ph: [k] for ph in ALL if ph in phs})]
        traj, top = Traj(), Top()
        r = vf.setup_trajectory_params(top, traj, av, list(ALL), variables_to_add=list(core), meta_data=md, external_parameters=ext)
        for n in core:
            if n in want or spec[n][1] or ':' not in n:
                continue
            u = spec[n][0]
            v = md[n]['default_value']
            if n in given:
                v = conv(M.f('g_' + n), 'm' if u == 'ft' else 'kg' if u == 'lbm' else u, u)
            elif v is None:
                v = vf._unspecified
            want[n] = [dict(opt=False, units=u, val=v, static_target=True, targets={ph: [n] for ph in ALL})]
        yield 'parameters added', sorted(traj.params), sorted(want)
        for n in want:
            yield 'an external parameter reaches the phases that declare it' if n in owners else 'a core parameter reaches every phase', traj.params[n][0].get('targets'), want[n][0]['targets']
            yield 'settings of the parameter', [{k: v for k, v in x.items() if k != 'targets' and v is not vf._unspecified} for x in traj.params[n]], \
                [{k: v for k, v in x.items() if k != 'targets' and v is not vf._unspecified} for x in want[n]]
        yield 'promoted to the name of the variable', sorted(top.promoted), sorted(('traj', (f'parameters:{n}', n)) for n in want)
        yield 'same trajectory', r is traj, True
    return f


# ------------------------------------------------------------------------------------------------------------ initial values
class Prob:
    def __init__(self, bad):
        self.bad, self.vals = bad, {}

    def set_val(self, name, val=None, units=None, indices=None):
        if name in self.bad:
            raise KeyError(name)
        self.vals[name] = (val, units)

    def set_input_defaults(self, name, val=1.0, units=None, **k):
        self.vals[name] = (val, units)


def initial_case(names, bad):
    def f(M):
        av = AviaryValues()
        for k, n in enumerate(names):
            av.set_val(n, M.f(f'x{k}'), units_of(CoreMetaData[n]['units'], 2)[-1])
        p = Prob(bad)
        uf.set_aviary_initial_values(p, av)
        yield 'every value that is an input is set', p.vals, {n: av.get_item(n) for n in names if n not in bad}
    return f


def defaults_case(names, held):
    def f(M):
        av, md = AviaryValues(), M.meta({n: {**CoreMetaData[n], 'default_value': M.f(f'd{k}')} for k, n in enumerate(names)})
        for k, n in enumerate(held):
            av.set_val(n, M.f(f'x{k}'), units_of(CoreMetaData[n]['units'], 2)[-1])
        p = Prob(())
        uf.set_aviary_input_defaults(p, list(names), av, md)
        yield 'data first, else metadata', p.vals, {n: av.get_item(n) if n in held else (md[n]['default_value'], CoreMetaData[n]['units']) for n in names}
    return f


def cases():
    C = {}
    for n, m in CoreMetaData.items():
        d = m['default_value']
        t = m['types'] if isinstance(m['types'], tuple) else (m['types'],)
        if numeric(d) and float in t and not (isinstance(d, (list, tuple, np.ndarray)) and len(d) == 0):
            C[f'variable {n}'] = io_case(n, 6)
        if m['option'] or n in (Aircraft.Wing.SPAN, Mission.RANGE):
            C[f'option {n}'] = option_case(n, 6)
    for mask in range(32):
        C[f'extract options {mask}'] = extract_case(mask)
    for n in (1, 2, 3):
        for how in ('argument', 'group', 'model', 'none'):
            for prefix in (None, 'mission1'):
                for present in (0, 511, 0b000000011, 0b101010101, 0b010101010):
                    C[f'model options {n} engines {how} {prefix} {present:b}'] = model_options_case(n, present, prefix, how)
    st = list(itertools.product((False, True), repeat=4))
    for d, cd in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2)):
        for k, s in enumerate(st):
            if s[3] and not d or s[2] and s[3]:
                continue
            C[f'override depth {d} {cd} {"".join(str(int(x)) for x in s)}'] = override_case({'aircraft:x': s}, d, cd)
            for s2 in (st[3], st[8], st[12], st[2]):
                if not (s2[3] and not d) and not (s2[2] and s2[3]):
                    C[f'override depth {d} {cd} {"".join(str(int(x)) for x in s)} with {"".join(str(int(x)) for x in s2)}'] = override_case({'aircraft:x': s, 'mission:y': s2}, d, cd)
    for v in Verbosity:
        C[f'override report {v.name}'] = override_case({'aircraft:x': (True, True, False, False), 'mission:y': (True, False, False, False), 'aircraft:z': (False, True, False, False)}, 1, 1, v)
    subsets = [list(x) for r in range(4) for x in itertools.combinations(['climb', 'cruise', 'descent'], r)]
    for k, (a, b) in enumerate(itertools.product(subsets, subsets)):
        core = [['aircraft:p', 'mission:q', 'aircraft:opt', 'plain', 'aircraft:n'], ['mission:q', 'aircraft:p']][k % 2]
        C[f'trajectory {"+".join(a) or "none"} | {"+".join(b) or "none"}'] = trajectory_case({'ext:a': a, 'aircraft:p' if k % 3 else 'ext:b': b}, core, [['aircraft:p'], ['mission:q', 'aircraft:n'], []][k % 3])
    for core in ([], ['aircraft:p'], ['aircraft:n'], ['plain'], ['aircraft:opt']):
        for given in ([], core):
            C[f'trajectory core {core} {len(given)}'] = trajectory_case({}, core, given)
    names = [Aircraft.Wing.SPAN, Aircraft.Wing.AREA, Mission.RANGE, Aircraft.Wing.SWEEP, Aircraft.Fuselage.LENGTH]
    for mask in range(32):
        bad = [n for k, n in enumerate(names) if mask >> k & 1]
        C[f'initial values {mask}'] = initial_case(names, bad)
        C[f'input defaults {mask}'] = defaults_case(names, bad)
    return C
