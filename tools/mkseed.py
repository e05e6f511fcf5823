"""mkseed.py SPEC.py...: confirm a planted bug (applies, tests pass, demo discriminates) and store
it under seeded/<id>; report whether the property's quick check catches it."""
import json
import os
import runpy
import subprocess
import sys
import shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONPATH="$PWD/src/hookeai"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    o = '/tmp/_seed_out.json'
    sh(f'bash /opt/vp/test.sh {o}')
    d = json.load(open(o))
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ps = set(d.get('passed', []))
    return [t for t in st if t not in ps]


def main(spec):
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'dirty /repo'
    m = runpy.run_path(spec)
    sid = os.path.basename(spec)[:-3]
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(m['DEMO'].lstrip('\n'))
    json.dump({'property': m['PROPERTY'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = sh(f'bash {d}/demo.sh', cwd=R)
    try:
        for f, a, b in m['EDITS']:
            p = os.path.join(R, 'src/hookeai', f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh(f'git -C {R} diff').stdout)
        bad = stable()
        r1 = sh(f'bash {d}/demo.sh', cwd=R)
        extra = [] if len(sys.argv) < 2 else os.environ.get('ALSO', '').split()
        res = {}
        for p in [m['PROPERTY']] + extra:
            c = sh(f'python3 {HERE}/check.py {p} quick')
            res[p] = (c.returncode, [x for x in c.stdout.splitlines() if x][-3:])
    finally:
        sh(f'git -C {R} checkout -- .')
    ok = r0.returncode == 0 and r1.returncode != 0 and not bad
    print(f'{sid}: {"OK" if ok else "BAD"} demo {r0.returncode}->{r1.returncode} tests-broken={bad} check={res}')
    if not ok:
        print(r0.stdout[-800:], r0.stderr[-1500:], '---', r1.stdout[-500:], r1.stderr[-800:])
        shutil.rmtree(d)


for s in sys.argv[1:]:
    main(s)
