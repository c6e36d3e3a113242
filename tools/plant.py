"""Plant bugs in a scratch copy of /repo, confirm them (existing tests pass, demo separates) and store them under /verif/seeded.

usage: plant.py SPEC.py [ids...]   SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
The bugs of one batch are tested together first; only if tests fail are they tested one by one."""
import json
import os
import runpy
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
S = '/tmp/plant/repo'
SEED = '/verif/seeded'
ENV = {**os.environ, 'PYTHONPATH': S, 'PATH': '/opt/venv/bin:' + os.environ['PATH'], 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
       'TESTFLO_RUNNING': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0'}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def reset():
    if not os.path.isdir(S):
        os.makedirs('/tmp/plant', exist_ok=True)
        assert sh(f'cp -a /repo {S}').returncode == 0
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if sh(f'git -C {S} rev-parse HEAD').stdout.strip() != head:
        sh(f'git -C {S} fetch -q /repo HEAD; git -C {S} checkout -q -f FETCH_HEAD')
    sh(f'git -C {S} checkout -q -f .')


def apply(b):
    for f, old, new in b['edits']:
        p = os.path.join(S, f)
        t = open(p).read()
        n = t.count(old)
        assert n == 1, f'{b["id"]}: {n} matches in {f} for {old[:60]!r}'
        open(p, 'w').write(t.replace(old, new))


def tests():
    """failing stable tests of the scratch copy"""
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    with tempfile.TemporaryDirectory() as d:
        sh(f'cd {S} && {PY} -m pytest -q -n 8 --dist worksteal -p no:cacheprovider --timeout=600 --continue-on-collection-errors '
           f'--disable-warnings --tb=no -o junit_family=xunit2 --junitxml={d}/junit.xml aviary', env=ENV)
        sh(f'python3 /opt/vp/results.py {d}/o.json junit:{d}/junit.xml')
        r = json.load(open(f'{d}/o.json'))
    passed = set(r.get('passed', []))
    return sorted(stable - passed)


def demo(b, where=S):
    with tempfile.TemporaryDirectory() as d:
        write(b, d)
        r = sh(f'cd {where} && timeout 300 bash {d}/demo.sh', env={k: v for k, v in ENV.items() if k != 'PYTHONPATH'})
        return r.returncode, (r.stdout + r.stderr)[-300:]


def write(b, d):
    open(f'{d}/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds for the demonstrated case\nexport PYTHONPATH="$PWD" OPENMDAO_REPORTS=0 '
                                    'TESTFLO_RUNNING=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nW=$(mktemp -d); export OPENMDAO_WORKDIR="$W"\n'
                                    'H="$(cd "$(dirname "$0")" && pwd)"\nR="$PWD"; cd "$W" && /opt/venv/bin/python "$H/demo.py" "$R"; rc=$?\nrm -rf "$W"\nexit $rc\n')


def store(b, diff):
    d = f'{SEED}/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    write(b, d)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)


def caught(b):
    d = tempfile.mkdtemp()
    r = sh(f'cd /verif && VERIF_NO_EVIDENCE=1 VERIF_REPO={S} {PY} check.py {b["property"]}', env={**ENV, 'PYTHONPATH': ''})
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v[:2], r.stdout.splitlines()[-3:]


def main():
    spec = [] if '--recheck' in sys.argv else runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    spec = [b for b in spec if not ids or b['id'] in ids]
    if '--recheck' in sys.argv:
        for i in sorted(os.listdir(SEED)):
            m = json.load(open(f'{SEED}/{i}/meta.json'))
            if sys.argv[-1] in (i, m['property'], '--recheck'):
                reset()
                r = sh(f'git -C {S} apply {SEED}/{i}/patch.diff')
                print(i, r.stderr[:100], *caught(dict(property=m['property'])), flush=True)
        return reset()
    ok, diffs = [], {}
    for b in spec:
        reset()
        r0 = demo(b)
        apply(b)
        diffs[b['id']] = sh(f'git -C {S} diff').stdout
        r1 = demo(b)
        good = r0[0] == 0 and r1[0] != 0
        print(b['id'], 'demo', r0[0], r1[0], '' if good else (r0[1], r1[1]), flush=True)
        if good:
            ok.append(b)
    if '--check-only' in sys.argv:
        return
    keep = []
    if ok:
        reset()
        for b in ok:
            apply(b)
        bad = tests()
        print('together failing:', bad[:20], flush=True)
        if not bad:
            keep = ok
        else:
            for b in ok:
                reset()
                apply(b)
                bad = tests()
                print(b['id'], 'failing:', bad[:6], flush=True)
                if not bad:
                    keep.append(b)
    for b in keep:
        store(b, diffs[b['id']])
        reset()
        apply(b)
        print(b['id'], b['property'], 'check:', *caught(b), flush=True)
    reset()


main()
