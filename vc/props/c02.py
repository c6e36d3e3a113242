"""C02: see vc/hist.py."""
from .. import env, comprun as C, hist as M, runner

THOROUGH = env.TIER == 'thorough'
BUDGET = 120.0 if THOROUGH else 60.0
MAXP = 1000 if THOROUGH else 300


def work(item):
    name, nn = item
    return M.check_component(name, COMPS[name], nn=nn, modules=MODS, budget=BUDGET, max_paths=MAXP)


def main():
    global COMPS, MODS
    R = runner.Result('C02')
    COMPS, failed = C.components()
    MODS = C.aviary_modules()
    items = [(k, 2) for k in COMPS]
    rs = runner.pmap(work, items, timeout=5400 if THOROUGH else 780)
    R.component_results(rs)
    R.notes += [f'module not importable: {m}' for m, _ in failed]
    R.backends = {BACKEND: R.proved}
    R.trusted = runner.ENGINE_TRUST
    R.assumptions = ASSUME
    return runner.finish(R, min_obligations=40000)


BACKEND = 'dependency analysis of the exact result terms (no symbol of an earlier evaluation occurs), frame comparison of instance, class and module state'
ASSUME = ['derivatives are evaluated at the inputs of the last evaluation of the outputs (OpenMDAO run order)',
          'array sizes fixed at 2 nodes and the listed engine configurations',
          'components that keep state (listed in notes): the two-evaluation obligation is explored up to a path limit']
