#!/usr/bin/env python3
"""Run the check of one property:  check.py P01 [quick|thorough]
Replay a counterexample:           check.py --replay evidence/replay/P01-0.json
exit 0: held on everything explored; 1: VIOLATION (reproduced on the real code);
2: no verdict (inconclusive or error)."""
import os
import sys

PY = '/opt/venv/bin/python'
if sys.prefix != '/opt/venv' and os.path.exists(PY) and not os.environ.get('SYM_REEXEC'):
    os.environ['SYM_REEXEC'] = '1'
    os.execv(PY, [PY, '-B'] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
import tempfile
import atexit
import shutil
SCR = tempfile.mkdtemp(prefix='symcheck_')
MAIN = os.getpid()
atexit.register(lambda: os.getpid() == MAIN and shutil.rmtree(SCR, ignore_errors=True))
os.environ.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=SCR,
                  CUDA_VISIBLE_DEVICES='', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                  SYM_SCRATCH=SCR)
REPO = os.environ.get('HOOKEAI_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src', 'hookeai'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib
import json
import time
import traceback
import warnings
import multiprocessing as mp
warnings.filterwarnings('ignore')
sys.setrecursionlimit(20000)


def load(pid):
    return importlib.import_module(f'specs.{pid.lower()}')


def worker(pid, tier, idx, deadline, q):
    try:
        import torch
        torch.set_num_threads(1)
        scr = os.path.join(SCR, f'c{idx}')
        os.makedirs(scr, exist_ok=True)
        os.chdir(scr)
        os.environ['SYM_SCRATCH'] = scr
        if not os.environ.get('SYM_DEBUG'):
            # the code under test prints; keep the report readable
            sys.stdout = open(os.devnull, 'w')
        from symtorch import drive
        spec = load(pid)
        case = spec.cases(tier)[idx]
        r = drive.run_case(case, deadline)
        d = dict(vars(r))
        d['fns'] = sorted(d['fns'])
        q.put((idx, d))
    except BaseException as e:
        q.put((idx, {'name': f'case {idx}', 'status': 'error',
                     'detail': [''.join(traceback.format_exception(e))[-1500:]], 'fns': []}))


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(x.split('=', 1) for x in line.split('|')[0][6:].split() if '=' in x)
                f['text'] = line.split('|', 1)[1].strip() if '|' in line else ''
                out.append(f)
    return out


def is_known(pid, cex):
    for f in known_findings():
        if f.get('property') == pid and f.get('case') == cex['case'] and \
                all(f.get('match', '') in d for d in cex['detail']):
            return f
    return None


def do_replay(path):
    rec = json.load(open(path))
    from symtorch import drive
    spec = load(rec['property'])
    os.chdir(SCR)
    for c in spec.cases('thorough'):
        if c.name == rec['case']:
            st, d, _ = drive.replay(c, dict(rec['inputs']))
            print(st, d)
            return 1 if st in ('fail', 'exception') else 0
    print('no such case')
    return 2


def selftest():
    """the tools are there and the solver answers"""
    import torch
    import z3
    x = z3.Real('x')
    s = z3.Solver()
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    s.add(x > 2)
    assert s.check() == z3.unsat
    print('torch', torch.__version__, 'z3', z3.get_version_string(), 'ok')
    return 0


def main(argv):
    if argv[:1] == ['--replay']:
        return do_replay(argv[1])
    if argv[:1] == ['--selftest']:
        return selftest()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = load(pid)
    cases = spec.cases(tier)
    idxs = [i for i, c in enumerate(cases) if only is None or only in c.name]
    total = getattr(spec, 'WALL', {}).get(tier, 700 if tier == 'quick' else 3600)
    deadline = t0 + total
    jobs = int(os.environ.get('SYM_JOBS', '8'))
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend = sorted(idxs, key=lambda i: -cases[i].opts.get('cost', 1))
    running, results = {}, {}
    stop = False
    while (pend and not stop) or running:
        while pend and len(running) < jobs and not stop:
            i = pend.pop(0)
            p = ctx.Process(target=worker, args=(pid, tier, i, deadline, q))
            p.start()
            running[i] = p
        try:
            i, d = q.get(timeout=0.2)
            results[i] = d
            running.pop(i).join()
            if os.environ.get('SYM_VERBOSE'):
                print(f"  {d['name']}: {d['status']} paths={d.get('paths')} wall={d.get('wall', 0):.1f} "
                      f"asserts={d.get('asserts')} {d['detail'] if d['status'] != 'pass' else ''}"
                      f"{d.get('cex') or ''}", flush=True)
            if d['status'] == 'violation' and not os.environ.get('SYM_ALL') and \
                    not is_known(pid, d['cex']):
                stop = True
        except Exception:
            for i, p in list(running.items()):
                if not p.is_alive() and i not in results:
                    try:
                        k, d = q.get(timeout=1)
                        results[k] = d
                        running.pop(k, None)
                    except Exception:
                        results[i] = {'name': cases[i].name, 'status': 'error',
                                      'detail': [f'worker died (exit {p.exitcode})'], 'fns': []}
                        running.pop(i, None)
            if time.time() > deadline + 90:
                for i, p in list(running.items()):
                    p.kill()
                    results[i] = {'name': cases[i].name, 'status': 'inconclusive',
                                  'detail': ['killed at the wall limit'], 'fns': []}
                    running.pop(i)
                for i in pend:
                    results[i] = {'name': cases[i].name, 'status': 'inconclusive',
                                  'detail': ['not started at the wall limit'], 'fns': []}
                pend = []
    rs = [results[i] for i in sorted(results)]
    viol, bad, known = [], [], []
    for r in rs:
        if r['status'] == 'violation':
            k = is_known(pid, r['cex'])
            (known if k else viol).append((r, k))
        elif r['status'] != 'pass':
            bad.append(r)
    for r, k in known:
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    rc = 0
    vids = []
    if viol:
        rc = 1
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, (r, _) in enumerate(viol):
            p = os.path.join(rd, f'{pid}-{n}.json')
            json.dump({'property': pid, **r['cex']}, open(p, 'w'), indent=1)
            print(f"  {r['cex']['case']}: {r['cex']['how']}: {r['cex']['detail'][:3]}")
            print(f'VIOLATION property={pid} replay={p}')
            vids.append({'case': r['cex']['case'], 'detail': '; '.join(r['cex']['detail'][:3])[:400],
                         'replay': p})
    elif bad:
        rc = 2
        for r in bad:
            print(f"NO VERDICT {pid} {r['name']}: {'; '.join(r['detail'])[:900]}")
    write_evidence(pid, tier, seed, spec, cases, rs, vids, time.time() - t0)
    s = {k: sum(r.get('stats', {}).get(k, 0) for r in rs) for k in ('queries', 'unsat', 'sat', 'unknown')}
    print(f"{pid} {tier}: {len(rs)} cases, {sum(r.get('paths', 0) for r in rs)} paths, "
          f"{sum(r.get('asserts', 0) for r in rs)} assertions, {s['queries']} queries, "
          f"{time.time() - t0:.1f}s, exit {rc}")
    return rc


def write_evidence(pid, tier, seed, spec, cases, rs, vids, wall):
    fns = sorted({f for r in rs for f in r.get('fns', [])})
    st = {}
    for r in rs:
        for k, v in r.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real Python/PyTorch code over exact '
                           'real arithmetic; every path condition and assertion is decided by z3 '
                           '(QF_NRA/QF_LRA) after algebraic normalisation; counterexamples are '
                           'replayed on the unpatched code in float64.',
            'functions_encoded': fns,
            'bounds': {r['name']: r.get('bounds', '') for r in rs},
            'cases': len(rs),
            'paths': sum(r.get('paths', 0) for r in rs),
            'infeasible_paths': sum(r.get('infeasible', 0) for r in rs),
            'assertions': sum(r.get('asserts', 0) for r in rs),
            'assertions_closed_by_normal_form': sum(r.get('identities', 0) for r in rs),
            'queries': st.get('queries', 0), 'unsat': st.get('unsat', 0), 'sat': st.get('sat', 0),
            'unknown': st.get('unknown', 0), 'solver_s': round(st.get('solver_s', 0.0), 3),
            'raw_crosschecks': {k: st.get(k, 0) for k in ('raw_unsat', 'raw_unknown')},
            'vacuity_witnesses': sum(r.get('witnesses', 0) for r in rs),
            'witness_runs_matching_real_code': sum(r.get('validated', 0) for r in rs),
            'case_status': {r['name']: r['status'] for r in rs},
            'violation_details': vids,
            'outside_bounds': getattr(spec, 'OUTSIDE', ''),
            'stubs': getattr(spec, 'STUBS', []),
        },
        'assumptions': COMMON + list(getattr(spec, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 3),
        'violations': len(vids),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', f'{pid}.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)


COMMON = [
    'Arithmetic is exact over the reals: float64 rounding is outside the claim; float literals '
    'such as 1/3 or sqrt(2) stand for the real they approximate.',
    'PyTorch operators follow the operator models in symtorch/tensor.py (checked against the real '
    'operators at every path witness).',
]

if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
