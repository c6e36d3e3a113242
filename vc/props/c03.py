"""C03: see vc/nodes.py."""
from .. import env, comprun as C, nodes as M, runner

THOROUGH = env.TIER == 'thorough'
BUDGET = 120.0 if THOROUGH else 60.0
MAXP = 1000 if THOROUGH else 200


def work(item):
    name, nn = item
    return M.check_component(name, COMPS[name], nn=nn, modules=MODS, budget=BUDGET, max_paths=MAXP)


def main():
    global COMPS, MODS
    R = runner.Result('C03')
    COMPS, failed = C.components()
    MODS = C.aviary_modules()
    items = [(k, 3) for k in COMPS]
    rs = runner.pmap(work, items, timeout=5400 if THOROUGH else 780)
    R.component_results(rs)
    R.notes += [f'module not importable: {m}' for m, _ in failed]
    R.backends = {BACKEND: R.proved}
    R.trusted = runner.ENGINE_TRUST
    R.assumptions = ASSUME
    return runner.finish(R, min_obligations=4000)


BACKEND = 'structural identity of the vector result term at node i and the single-node result term, generalized-polynomial normal form'
ASSUME = ['3 nodes stand for any number of nodes', 'floating point arithmetic is treated as real arithmetic',
          'cumulative outputs are excluded: ' + ', '.join(sorted(M.CUMULATIVE)), 'time points given to TimeRamp are in ascending order']
