"""C18: the assembled model is wired as one aircraft."""
import os
import re
import sys
import time
from enum import Enum

from .. import env, runner, wiring

M = 'aviary.models.'
ES, TD = M + 'missions.energy_state_default', M + 'missions.two_dof_default'
AC = 'models/aircraft/'
VC = 'validation_cases/validation_data/test_models/'
TP = M + 'aircraft.large_turboprop_freighter.phase_info:'
BASES = {
    'FLOPS transport': (AC + 'large_single_aisle_1/large_single_aisle_1_FLOPS.csv', ES),
    'FLOPS transport, alternate weights': (AC + 'large_single_aisle_2/large_single_aisle_2_altwt_FLOPS.csv', ES),
    'FLOPS transport, detailed wing': (AC + 'large_single_aisle_2/large_single_aisle_2_detailwing_FLOPS.csv', ES),
    'FLOPS blended wing body, detailed': (AC + 'blended_wing_body/bwb_detailed_FLOPS.csv', ES),
    'FLOPS blended wing body, simple': (AC + 'blended_wing_body/bwb_simple_FLOPS.csv', ES),
    'FLOPS, few data': (AC + 'minimum_single_aisle/minimum_single_aisle_FLOPS.csv', ES),
    'GASP transport': (AC + 'large_single_aisle_1/large_single_aisle_1_GASP.csv', TD),
    'GASP small transport': (AC + 'small_single_aisle/small_single_aisle_GASP.csv', TD),
    'GASP blended wing body': (AC + 'blended_wing_body/generic_BWB_GASP.csv', TD),
    'GASP turboprop': (AC + 'large_turboprop_freighter/large_turboprop_freighter_GASP.csv', TP + 'two_dof_phase_info'),
}
FULL = {
    'FLOPS transport, energy state mission': BASES['FLOPS transport'],
    'FLOPS advanced transport, energy state mission': (AC + 'advanced_single_aisle/advanced_single_aisle_FLOPS.csv', M + 'aircraft.advanced_single_aisle.phase_info'),
    'FLOPS blended wing body, energy state mission': BASES['FLOPS blended wing body, detailed'],
    'GASP transport, two degrees of freedom': BASES['GASP transport'],
    'GASP small transport, two degrees of freedom': BASES['GASP small transport'],
    'GASP blended wing body, two degrees of freedom': BASES['GASP blended wing body'],
    'GASP turboprop, two degrees of freedom': BASES['GASP turboprop'],
    'FLOPS transport, alternate weights, energy state mission': BASES['FLOPS transport, alternate weights'],
    'FLOPS transport, detailed wing, energy state mission': BASES['FLOPS transport, detailed wing'],
    'FLOPS blended wing body, simple, energy state mission': BASES['FLOPS blended wing body, simple'],
    'FLOPS, few data, energy state mission': BASES['FLOPS, few data'],
    'FLOPS weights, GASP mission': (VC + 'aircraft_for_bench_FwGm.csv', TD),
    'GASP weights, FLOPS mission': (VC + 'aircraft_for_bench_GwFm.csv', 'aviary.validation_cases.validation_data.test_models.GwFm_phase_info'),
    'FLOPS transport, solved two degrees of freedom': (VC + 'aircraft_for_bench_solved2dof.csv', M + 'missions.solved2dof_default+low_speed'),
    'FLOPS transport, solved landing': (VC + 'aircraft_for_bench_solved2dof.csv', M + 'missions.solved2dof_landing_default+low_speed'),
    'FLOPS transport, electric propulsion data': (VC + 'aircraft_for_bench_FwFm_with_electric.csv', ES),
    'GASP weights, FLOPS mission, tabular': (VC + 'aircraft_for_bench_GwFm.csv', 'aviary.validation_cases.validation_data.test_models.GwFm_phase_info+tabular'),
    'battery': ('py:battery', ES),
    **{f'two engine types, {a}': (f'py:two engines {a}', ES) for a in ('FIXED', 'STATIC', 'DYNAMIC')},
    **{f'{k}, {e}': (f'py:{k} {e}', TP + ('energy_phase_info' if e == 'energy' else 'two_dof_phase_info')) for k in ('turboprop', 'electric') for e in ('energy', '2DOF')},
    'FLOPS high wing transport': (VC + 'high_wing_single_aisle.csv', ES),
}
H, V, F = 'aircraft:horizontal_tail:num_tails', 'aircraft:vertical_tail:num_tails', 'aircraft:fuselage:num_fuselages'
TAILS = {'FLOPS transport, energy state mission': [(H, 0), (V, 0), (V, 2), (F, 2), ('aircraft:wing:span_efficiency_reduction', True)],
         'FLOPS blended wing body, energy state mission': [(H, 0), (H, 1), (V, 0), (V, 1), (V, 2)],
         'GASP transport, two degrees of freedom': [('aircraft:wing:has_strut', True), ('aircraft:electrical:has_hybrid_system', True), ('aircraft:wing:has_fold', True)]}
# options that select another input format or analysis tool, or only reporting
FIXED = {'settings:verbosity', 'settings:equations_of_motion', 'settings:mass_method', 'settings:aerodynamics_method', 'settings:problem_type', 'aircraft:design:type'}


# only read where the aircraft has a strut or a folding wing
UNUSED = {n: ('aircraft:wing:has_strut', 'aircraft:wing:has_fold') for n in ('aircraft:strut:mass', 'aircraft:wing:fold_mass')}


def flips(given):
    """Every boolean or enumerated scalar option of the hierarchy, each of its other values."""
    from aviary.variable_info.variable_meta_data import CoreMetaData
    for n, m in sorted(CoreMetaData.items()):
        if not m['option'] or n in FIXED or not n.startswith(('aircraft:', 'mission:')) or m['multivalue']:
            continue
        types = m['types'] if isinstance(m['types'], tuple) else (m['types'],)
        v = given.get(n, m['default_value'])
        if isinstance(v, (bool,)) or bool in types:
            yield n, not v
        elif isinstance(v, Enum):
            for x in type(v):
                if x is not v:
                    yield n, x


def cases():
    import aviary.api as av
    from aviary.utils.process_input_decks import create_vehicle
    out = {}
    for k, (csv, pi) in FULL.items():
        out['full: ' + k] = (csv, pi, (), 'as given', True)
        if k in TAILS:
            for n, v in TAILS[k]:
                out[f'full: {k}: {n}={v}'] = (csv, pi, ((n, v, 'unitless'),), 'as given', True)
        out['full: ' + k + ': everything given that is computed'] = (csv, pi, (), 'given', True)
    for k, (csv, pi) in BASES.items():
        out[k] = (csv, pi, (), 'as given', False)
        out[k + ': nothing given that is computed'] = (csv, pi, (), 'bare', False)
        out[k + ': everything given that is computed'] = (csv, pi, (), 'given', False)
        vals, _ = create_vehicle(csv, verbosity=0)[:2]
        d = {n: v for n, (v, u) in vals}
        for n, v in flips(d):
            out[f'{k}: {n}={v}'] = (csv, pi, ((n, v, 'unitless'),), 'as given', False)
    return out


def overridable(p):
    """Outputs of the pre-mission analyses that the user could give instead."""
    g = wiring.Graph(p)
    res = {}
    for o, d in g.outs.items():
        n = wiring.hierarchy_name(o)
        if n is None and d['prom_name'].split('.')[-1].startswith(('aircraft:', 'mission:')):
            n = d['prom_name'].split('.')[-1]        # promoted under the name of the hierarchy
        if n and o.startswith('pre_mission.core_subsystems') and d['prom_name'].split('.')[-1] == n and n not in wiring.RECOMPUTED:
            res[n] = d
    return res


def work(item):
    import numpy as np
    name, (csv, pi, over, mode, full) = item
    t0 = time.time()
    R = dict(name=name, obligations=0, proved=0, bounded=0, undecided=0, violations=[], notes=[], paths=1, refused=None)
    try:
        if mode == 'as given':
            p = wiring.assemble(csv, pi, over, full=full)
        else:
            q = wiring.assemble(csv, pi, over)
            outs = overridable(q)
            if mode == 'bare':
                p = wiring.assemble(csv, pi, over, remove=[n for n in outs if n in q.given])
            else:
                ov = []
                for k, (n, d) in enumerate(sorted(outs.items())):
                    if n in q.given or n in UNUSED and not any(q.aviary_inputs.get_val(x) for x in UNUSED[n] if x in q.aviary_inputs):
                        continue
                    val = np.full(d['shape'], 1.5 + 0.25 * k)
                    ov.append((n, val if val.size > 1 else float(val.ravel()[0]), d['units'] or 'unitless'))
                p = wiring.assemble(csv, pi, (*over, *ov), full=full)
    except Exception as e:      # noqa: BLE001 - a configuration that Aviary refuses has no wiring to decide
        R['refused'] = f'{type(e).__name__}: {e}'[:300]
        if not over and mode == 'as given':
            R['violations'].append(dict(key=f'assembly|{name}', replay=dict(csv=csv, phase_info=pi), message=f'the model of this aircraft can no longer be built: {R["refused"]}'))
        R['wall'] = time.time() - t0
        return R
    for rule, n, a, ok, detail in wiring.obligations(p, closed=mode != 'bare' and not over):
        R['obligations'] += 1
        if ok:
            R['proved'] += 1
        else:
            R['violations'].append(dict(key=f'{rule}|{n}', message=f'{name}: {a} {detail}',
                                        replay=dict(csv=csv, phase_info=pi, overrides=[(x, repr(v)) for x, v, _ in over], mode=mode, full=full, subject=a, variable=n, rule=rule, detail=detail)))
    R['wall'] = time.time() - t0
    return R


def main():
    R = runner.Result('C18', level='exploration')
    cs = cases()
    items = sorted(cs.items(), key=lambda x: not x[1][4])
    rs = runner.pmap(work, items, timeout=800)
    refused = []
    for r in rs:
        if r.get('refused') and not r['violations']:
            refused.append(f'{r["name"]}: {r["refused"]}'[:160])
    R.component_results(rs)
    R.bounded, R.proved = R.proved, 0       # decided for the listed configurations, never counted as proved
    R.functions = ['aviary.core.aviary_group.AviaryGroup.configure', 'aviary.core.aviary_group.AviaryGroup.add_pre_mission_systems', 'aviary.core.aviary_group.AviaryGroup.add_phases',
                   'aviary.core.pre_mission_group.CorePreMission', 'aviary.core.aviary_problem.AviaryProblem.build_model', 'build_pre_mission, build_mission, get_parameters of every core builder',
                   'setup / configure of every group of the model']
    R.extra = dict(configurations=len(items), refused_configurations=len(refused), refused=refused[:60])
    R.backends = {'exhaustive evaluation of the postcondition on the connection graph resolved by OpenMDAO': R.bounded}
    R.trusted = ['OpenMDAO: the connection graph, promotion and units conversion', 'dymos: parameters of a trajectory reach the phases they are connected to']
    R.assumptions = ['the wiring does not depend on the numbers in the aircraft data', f'bounded to {len(items)} configurations: the aircraft of the repository, every boolean and enumerated option '
                     'flipped one at a time (before the mission), with all / none of the computed values given']
    return runner.finish(R, min_obligations=100000)
