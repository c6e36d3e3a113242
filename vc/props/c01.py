"""C01: reported partials are the derivatives of the computed outputs."""
from .. import env, comprun as C, derivs, runner

BUDGET = 100.0 if env.TIER != 'thorough' else 150.0
MAXP = 1000 if env.TIER != 'thorough' else 4000


FEW = {'SkinFriction': 24, 'SkinFrictionDrag': 60, 'MuxComponent': 200}      # one path has thousands of obligations


def work(item):
    name, nn = item
    mp = FEW.get(name.split(':')[1], MAXP)
    return derivs.check_component(name, COMPS[name], nn=nn, modules=MODS, budget=BUDGET, max_paths=mp)


def main():
    global COMPS, MODS
    R = runner.Result('C01')
    COMPS, failed = C.components()
    MODS = C.aviary_modules()
    items = [(k, 2) for k in COMPS]
    if env.TIER == 'thorough':
        items += [(k, 3) for k in COMPS]
    rs = runner.pmap(work, items, timeout=780 if env.TIER != 'thorough' else 5400)
    for r in sorted(rs, key=lambda r: r['name']):
        if 'crash' in r:
            R.notes.append(r['name'] + ': ' + r['crash'][-300:])
            R.undecided += 1
            continue
        R.count(r['obligations'], r['proved'], r['bounded'], r['undecided'])
        if r['obligations']:
            R.functions.append(r['name'])
        for n in r['notes'][:2]:
            R.notes.append(r['name'] + ': ' + n[:200])
        for v in r['violations']:
            if v['kind'] == 'crash':
                R.violate(v['key'], message=f'compute succeeds but the derivatives fail with {v["error"]} ({v["config"]})', **{k: v[k] for k in ('replay', 'config')})
            else:
                p = v['replay']
                R.violate(v['key'], message=f'd {v["of"]} / d {v["wrt"]}: reported {p["reported"]:.8g}, true {p["finite_difference"]:.8g}'
                          f' ({v["config"]})', **{k: v[k] for k in ('replay', 'config', 'i', 'j')})
    R.backends = {'structural identity of the derivative DAG and the reported DAG, generalized-polynomial normal form (vc/normal.py)': R.proved}
    R.notes += [f'module not importable: {m}' for m, _ in failed]
    R.trusted = ['CPython and numpy semantics of object arrays', 'symbolic stand-ins for numpy/math functions (vc/symarr.py)',
                 'OpenMDAO vector and Jacobian containers (replaced by vc/comprun.Vec / Partials)', 'vc/expr.py differentiation rules',
                 'vc/normal.py zero test (coefficients compared at relative 2e-8 because constants are rounded floats)']
    R.assumptions = ['floating point arithmetic is treated as real arithmetic', 'every subterm is inside its mathematical domain (no division by zero)',
                     'boundaries between formula branches (measure zero) are excluded', 'array sizes fixed at 2 nodes (3 in the thorough tier) and the listed engine configurations; array options at their documented default length',
                     'derivatives the framework approximates (declare_partials method cs/fd) are trusted, only their sparsity is checked',
                     'obligations counted as bounded_stand_ins were compared at sampled points only; undecided ones are not claimed']
    return runner.finish(R, min_obligations=100000)
