"""Groups of components as one function of the values at their free inputs.

The group is built and set up by the real code. Symbolic mode: its components are evaluated in execution order along the connections
OpenMDAO resolved, with unit conversion and source indices; expression components from their expressions, explicit components by
executing their real compute body symbolically, all others (interpolation, balances, solvers) as unknown values at their outputs.
Native mode (used for replay and as a cross check of the evaluation): OpenMDAO runs the model."""
import re
import numpy as np
import openmdao.api as om
from openmdao.components.exec_comp import _expr_dict
from openmdao.core.component import Component
from openmdao.utils.units import unit_conversion
from . import comprun as C, expr as E, symarr as S


def build(make, options=None, defaults=None):
    with C.silence():
        p = om.Problem(reports=None)
        p.model = make()
        if options:
            p.model_options['*'] = options
        for name, (val, units) in (defaults or {}).items():
            p.model.set_input_defaults(name, val, units=units)
        p.setup()
        p.final_setup()
    return p


def _conv(a, u, v):
    if v in (None, 'unitless') or u in (None, 'unitless') or u == v:
        if (u in (None, 'unitless')) != (v in (None, 'unitless')) and None not in (u, v):
            raise ValueError(f'units {u} and {v}')
        return a
    f, o = unit_conversion(u, v)
    return (a + o) * f if o else a * f


class Values:
    """Values of one evaluation by promoted name, in the units asked for."""

    def __init__(self, c, make, ranges=None, free=(), unknown=None, options=None, defaults=None):
        self.c, self.ranges, self.free = c, ranges or {}, free
        self.p = p = build(make, options, defaults)
        m = self.m = p.model
        self.src = m._conn_global_abs_in2out
        self.meta = {**m._var_allprocs_abs2meta['output']}
        self.vals = {}
        self.prom_in = {}
        meta_in = m._var_allprocs_abs2meta['input']
        prom = dict(input={a: m._resolver.abs2prom(a, 'input') for a in meta_in}, output={a: m._resolver.abs2prom(a, 'output') for a in self.meta if not a.startswith('_auto_ivc')})
        for a in meta_in:
            self.prom_in.setdefault(prom['input'][a], self.src[a])
        self.prom_out = {v: k for k, v in prom['output'].items()}
        names = {}
        for a, s in self.src.items():
            names.setdefault(s, prom['input'][a])
        for s in self.meta:
            if s.startswith('_auto_ivc') or any(s.endswith(f) for f in free):
                shape = self.meta[s]['shape']
                name = names.get(s, s)
                lo, hi = next((r for k, r in self.ranges.items() if re.search(k, name)), (0.5, 2.0))
                a = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape):
                    a[i] = c.f(f'{name}{list(i)}', lo, hi)
                self.vals[s] = a
        if not c.symbolic:
            for s, a in self.vals.items():
                p.set_val(s if not s.startswith('_auto_ivc') else names[s], np.array(a, float),
                                                                               units=self.meta[s]['units'])
            with C.silence():
                p.run_model()
            return
        for comp in m.system_iter(include_self=False, recurse=True, typ=Component):
            if not (unknown and re.search(unknown, comp.pathname)):
                self._eval(comp)

    def _source(self, s):
        if s not in self.vals:      # not evaluated (yet): an unknown value
            shape = self.meta[s]['shape']
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                a[i] = E.var(f'unknown:{s}{list(i)}')
            self.vals[s] = a
        return self.vals[s]

    def _input(self, comp, a):
        s = self.src[a]
        v = S.base(self._source(s))
        m = comp._var_abs2meta['input'][a]
        for ind in m.get('src_inds_list') or ():
            v = np.asarray(v, dtype=object)
            v = v.ravel()[ind.flat()] if ind._flat_src else v[ind()]
        v = np.asarray(v, dtype=object).reshape(m['shape']) if np.size(v) == np.prod(m['shape'], dtype=int) else np.broadcast_to(v, m['shape'])
        return S.wrap(_conv(v, self.meta[s]['units'], m['units']))

    def _eval(self, comp):
        n = len(comp.pathname) + 1
        outs = list(comp._var_abs2meta['output'])
        if isinstance(comp, om.IndepVarComp):
            for a in outs:
                if a not in self.vals:
                    v = np.empty(self.meta[a]['shape'], dtype=object)
                    for i, x in np.ndenumerate(np.asarray(comp._outputs[a[n:]])):
                        v[i] = E.const(float(x))
                    self.vals[a] = v
            return
        if type(comp) is om.ExecComp:
            ns = {a[n:]: self._input(comp, a) for a in comp._var_abs2meta['input']}
            self.exec(comp, ns, n)
            return
        if isinstance(comp, om.ExplicitComponent) and type(comp).__module__.startswith('aviary.') and C._has(comp, 'compute', om.ExplicitComponent):
            inst = C.Instance(comp)
            r = C.execute(inst, C.Controller(), what=('compute',), inputs={k: self._input(comp, comp.pathname + '.' + k) for k in inst.inputs})
            for k, v in r.outputs.items():
                self.vals[comp.pathname + '.' + k] = np.asarray(S.base(v), dtype=object)

    def exec(self, comp, ns, n):
        funcs = dict(_expr_dict)
        for e in comp._exprs:
            lhs, rhs = (x.strip() for x in re.split(r'(?<![=!<>])=(?!=)', e, maxsplit=1))
            v = eval(rhs, {'__builtins__': {}}, {**funcs, **ns})       # noqa: S307 - the expression is the code under contract
            m = comp._var_abs2meta['output'][f'{comp.pathname}.{lhs}']
            b = S.base(v) if isinstance(v, np.ndarray) else v
            out = np.empty(m['shape'], dtype=object)
            out[...] = b.reshape(m['shape']) if isinstance(b, np.ndarray) and b.size == out.size else b
            for i in np.ndindex(*out.shape):
                out[i] = E.lift(out[i])
            ns[lhs] = S.wrap(out)
            self.vals[f'{comp.pathname}.{lhs}'] = out

    def has(self, name): return name in self.prom_out or name in self.prom_in

    def source(self, name):
        s = self.src.get(name) or self.prom_in.get(name)
        if s is None:
            raise E.Unsupported(f'no {name}')
        return s

    def __call__(self, name, units=None):
        """The value seen under a promoted (or absolute) name."""
        s = self.prom_out.get(name) or (name if name in self.meta else self.prom_in.get(name) or self.src.get(name))
        if s is None:
            if '.' in name:     # a name inside the group: no part of its interface
                raise E.Unsupported(f'no {name}')
            raise KeyError(name)
        if self.c.symbolic:
            v = np.asarray(self._source(s), dtype=object)
        else:
            v = np.array(self.p.model._outputs._abs_get_val(s, flat=False), float)
        v = _conv(v, self.meta[s]['units'], units)
        return S.wrap(v.copy()) if self.c.symbolic else v


class Assembled(Values):
    """The assembled model: expression components are evaluated where they are asked for, all other outputs are unknown."""

    def __init__(self, c, p):
        self.c, self.p = c, p
        m = self.m = p.model
        self.src = m._conn_global_abs_in2out
        self.meta = {**m._var_allprocs_abs2meta['output']}
        self.vals, self.prom_in, self.named = {}, {}, {}
        for a in m._var_allprocs_abs2meta['input']:
            self.prom_in.setdefault(m._resolver.abs2prom(a, 'input'), self.src[a])
        self.prom_out = {m._resolver.abs2prom(a, 'output'): a for a in self.meta if not a.startswith('_auto_ivc')}
        self.readers = {}
        for a, s in self.src.items():
            self.readers.setdefault(s, []).append(a)

    def _source(self, s):
        if s not in self.vals:
            comp = None if s.startswith('_auto_ivc') else self.m._get_subsystem(s.rpartition('.')[0])
            if type(comp) is om.ExecComp:
                self._eval(comp)
            elif isinstance(comp, om.EQConstraintComp):
                self.equality(comp)
            elif (t := s.replace('.mission_bus_variables.', '.timeseries.')) != s and t in self.meta:   # two time series of one phase
                self.vals[s] = _conv(np.asarray(self._source(t), dtype=object), self.meta[t]['units'], self.meta[s]['units'])
            else:
                a = np.empty(self.meta[s]['shape'], dtype=object)
                name = s
                for i in np.ndindex(*a.shape):
                    n = f'{name}{list(i)}'
                    if n not in self.named:
                        self.named[n] = self.c.f(n, 0.5, 2.0)
                    a[i] = self.named[n]
                self.vals[s] = a
        return self.vals[s]

    def equality(self, comp):
        """lhs - rhs, up to the normalization of the component."""
        for name, o in comp._output_vars.items():
            pre = comp.pathname + '.'
            lhs, rhs = (np.asarray(S.base(self._input(comp, pre + o[k])), dtype=object) for k in ('lhs_name', 'rhs_name'))
            if o['use_mult']:
                lhs = lhs * np.asarray(S.base(self._input(comp, pre + o['mult_name'])), dtype=object)
            self.vals[pre + name] = lhs - rhs

    def zeros(self, kind='equals'):
        """Values the optimizer has to bring to zero (keep above zero), outside of the phases."""
        for name, o in self.m.get_constraints(recurse=True).items():
            if o[kind] is not None and not np.any(np.asarray(o[kind])) and not o['source'].startswith('traj.'):
                yield self(o['source'])

    def __call__(self, name, units=None):
        s = self.prom_out.get(name) or (name if name in self.meta else self.prom_in.get(name) or self.src.get(name))
        if s is None:
            if '.' in name:
                raise E.Unsupported(f'no {name}')
            raise KeyError(name)
        v = _conv(np.asarray(S.base(self._source(s)), dtype=object), self.meta[s]['units'], units)
        if self.c.symbolic:
            return S.wrap(v.copy())
        return np.array([float(getattr(x, 'val', x)) for x in np.ravel(v)]).reshape(np.shape(v))
