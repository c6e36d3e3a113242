"""Shared check runner: parallel execution of obligations generators, known findings, replay files, evidence."""
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import time
import traceback

from . import env

KNOWN = os.path.join(env.VERIF, 'known_findings.txt')


ENGINE_TRUST = ['CPython and numpy semantics of object arrays', 'symbolic stand-ins for numpy/math functions (vc/symarr.py)',
                'OpenMDAO vector and Jacobian containers (replaced by vc/comprun.Vec / Partials)', 'vc/expr.py term construction and simplification',
                'vc/normal.py zero test (coefficients compared at relative 2e-8 because constants are rounded floats)']


def known_findings(pid):
    """{key: text}: lines `known: property=<id> key=<key> :: <text>`; fixed lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', line.rstrip('\n'))
            if m and m.group(1) == pid:
                out[m.group(2).strip()] = m.group(3)
    return out


def _call(args):
    f, item = args
    try:
        return f(item)
    except MemoryError:
        return dict(name=str(item)[:80], crash='MemoryError')
    except BaseException:    # noqa: BLE001 - reported as undecided, never as a violation
        return dict(name=str(item)[:80], crash=traceback.format_exc()[-1500:])


def pmap(f, items, procs=None, timeout=None, chunk=1):
    """Run f over items in forked workers. Items not finished within `timeout` seconds are reported as crashed."""
    procs = procs or min(8, os.cpu_count() or 1)
    items = list(items)
    out = []
    t0 = time.time()
    with mp.get_context('fork').Pool(procs, maxtasksperchild=6) as pool:
        it = pool.imap_unordered(_call, [(f, i) for i in items], chunksize=chunk)
        for _ in items:
            left = None if timeout is None else max(1.0, timeout - (time.time() - t0))
            try:
                out.append(it.next(left))
            except mp.TimeoutError:
                done = len(out)
                out += [dict(name='(not finished)', crash='time limit')] * (len(items) - done)
                pool.terminate()
                break
    return out


class Result:
    """Accumulates what one check covered."""

    def __init__(self, pid, level='proof'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.obl = self.proved = self.bounded = self.undecided = 0
        self.violations = []
        self.functions = []
        self.notes = []
        self.assumptions = []
        self.trusted = []
        self.samples = []
        self.extra = {}
        self.backends = {}

    def count(self, obligations=0, proved=0, bounded=0, undecided=0, backend=None):
        self.obl += obligations
        self.proved += proved
        self.bounded += bounded
        self.undecided += undecided
        if backend:
            self.backends[backend] = self.backends.get(backend, 0) + proved

    def component_results(self, rs):
        for r in sorted(rs, key=lambda r: r['name']):
            if 'crash' in r:
                self.notes.append(r['name'] + ': ' + r['crash'][-300:])
                self.undecided += 1
                continue
            self.count(r['obligations'], r['proved'], r['bounded'], r['undecided'])
            if r['obligations']:
                self.functions.append(r['name'])
            for n in r['notes'][:2]:
                self.notes.append(r['name'] + ': ' + n[:200])
            for v in r['violations']:
                self.violate(**v)

    def violate(self, key, **info):
        self.violations.append(dict(key=key, **info))


def finish(R, checker_cmd=None, min_obligations=1):
    """Print, write replay files and evidence; return the exit code."""
    known = known_findings(R.pid)
    rdir = os.path.join(env.VERIF, 'replays', R.pid)
    shutil.rmtree(rdir, ignore_errors=True)
    seen, new, kept = set(), [], []
    for v in R.violations:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        (kept if v['key'] in known else new).append(v)
    code = 0
    if R.obl < min_obligations:
        new.append(dict(key='(obligations)', message=f'only {R.obl} obligations generated (expected at least {min_obligations}): the contracts no longer reach the code'))
    for v in sorted(kept, key=lambda v: v['key']):
        print(f'KNOWN-FINDING: property={R.pid} {v["key"]} :: {known[v["key"]]}')
    for n, v in enumerate(sorted(new, key=lambda v: v['key'])):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{n:03d}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=repr)
        tail = '' if v.get('replay') else ' no-failing-input-found'
        print(f'  {v["key"]}: {v.get("message", "")}'[:600])
        print(f'VIOLATION property={R.pid} replay={path}{tail}')
        code = 1
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    cov = dict(obligations=R.obl, discharged=R.proved, bounded_stand_ins=R.bounded, undecided=R.undecided,
               discharged_by=R.backends, functions_under_contract=len(R.functions), functions=sorted(R.functions),
               checker_cmd=checker_cmd or f'/opt/venv/bin/python /verif/check.py {R.pid}', trusted_base=R.trusted,
               known_findings=sorted(v['key'] for v in kept), notes=R.notes[:200], samples=R.samples[:20], **R.extra)
    ev = dict(property=R.pid, tier='thorough' if env.TIER == 'thorough' else 'quick', seed=env.SEED, level=R.level, coverage=cov,
              wall_s=round(time.time() - R.t0, 2), assumptions=R.assumptions, violations=len(new))
    with open(os.path.join(env.VERIF, 'evidence', R.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f'{R.pid}: {R.obl} obligations, {R.proved} discharged, {R.bounded} bounded, {R.undecided} undecided, '
          f'{len(kept)} known findings, {len(new)} violations, {time.time() - R.t0:.0f} s')
    return code
