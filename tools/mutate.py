"""Development tool (no check uses it): mutate the functions a property encodes and list survivors.
mutate.py PID[,PID...] COUNT [SEED] -> /tmp/mut/<pid>.txt"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/hookeai'
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '+', ast.Mod: '//', ast.MatMult: '@'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
CMP2 = {ast.Lt: '>', ast.LtE: '>', ast.Gt: '<', ast.GtE: '<'}


def offsets(src):
    o = [0]
    for l in src.split('\n'):
        o.append(o[-1] + len(l.encode()) + 1)
    return o


def muts(path, funcs):
    src = open(path).read()
    b = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def sp(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = sp(n)
        return b[s:e].decode()

    def add(n, new, kind):
        s, e = sp(n)
        out.append((s, e, new, kind, n.lineno))

    def walk(node, inf):
        for n in ast.iter_child_nodes(node):
            visit(n, inf)

    def visit(n, q):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and seg(n).startswith(('print', 'RuntimeError'))):
            return
        if isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            if not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or not isinstance(getattr(n.left, 'value', 0), str):
                add(n, f'({l}) {BIN.get(type(n.op), "+")} ({r})', 'op')
                add(n, f'({l})', 'drop right')
                add(n, f'({r})', 'drop left') if not isinstance(n.op, (ast.Div, ast.Pow)) else None
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            add(n, f'({l}) {CMP[type(n.ops[0])]} ({r})', 'cmp')
            if type(n.ops[0]) in CMP2:
                add(n, f'({l}) {CMP2[type(n.ops[0])]} ({r})', 'cmp')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), bytes, type(...))):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'const')
                if n.value > 0:
                    add(n, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.25 if n.value else 1.0), 'const')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f'({seg(n.operand)})', 'unary')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, w.join(f'({seg(v)})' for v in n.values), 'boolop')
        elif isinstance(n, (ast.AugAssign, ast.Expr)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.If):
            t = n.test
            add(t, f'not ({seg(t)})', 'negate')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('clone', 'detach', 'abs', 'sqrt', 'T'):
            add(n, seg(n.func.value), 'drop call')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a0, a1 = n.args
            s, e = sp(a0)[0], sp(a1)[1]
            out.append((s, e, f'{seg(a1)}, {seg(a0)}', 'swap args', n.lineno))
        walk(n, q)

    def top(node, pre):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                top(n, pre + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                if pre + n.name in funcs:
                    for s in n.body:
                        visit(s, n.name)
    top(tree, '')
    return [(path, s, e, new, k, ln) for s, e, new, k, ln in out], b


def main():
    pids, count = sys.argv[1].split(','), int(sys.argv[2])
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    nw = int(os.environ.get('WORKERS', '7'))
    q = queue.Queue()
    for w in range(nw):
        d = f'/tmp/mut/w{w}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/repo/src')
        shutil.copytree('/repo/src/hookeai', d + '/repo/src/hookeai', ignore=shutil.ignore_patterns('__pycache__'))
        os.makedirs(d + '/verif')
        for x in ('specs', 'symtorch'):
            shutil.copytree(f'{HERE}/{x}', f'{d}/verif/{x}', ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('check.py', 'known_findings.txt', 'MANIFEST.json'):
            shutil.copy(f'{HERE}/{x}', f'{d}/verif/{x}')
        q.put(d)
    props = {json.loads(l)['id']: json.loads(l) for l in open(f'{HERE}/properties.jsonl')}

    def one(job):
        pid, (path, s, e, new, kind, ln) = job
        d = q.get()
        f = path.replace('/repo/', d + '/repo/')
        b = open(path, 'rb').read()
        try:
            t = b[:s] + new.encode() + b[e:]
            try:
                compile(t, f, 'exec')
            except SyntaxError:
                return None
            open(f, 'wb').write(t)
            try:
                r = subprocess.run(['python3', d + '/verif/check.py', pid, 'quick'], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, HOOKEAI_REPO=d + '/repo', SYM_JOBS='1'))
                rc = r.returncode
                tail = [x for x in r.stdout.splitlines() if x][-2:]
            except subprocess.TimeoutExpired:
                rc, tail = 'timeout', []
            if rc != 1:
                old = b[s:e].decode().replace('\n', ' ')
                line = f'{pid} rc={rc} {path[18:]}:{ln} [{kind}] {old[:90]} -> {new[:90]} | {tail[0][:120] if rc == 2 and tail else ""}'
                with open(f'/tmp/mut/{pid}.txt', 'a') as g:
                    g.write(line + '\n')
            return rc
        finally:
            open(f, 'wb').write(b)
            q.put(d)
    jobs = []
    for pid in pids:
        ev = json.load(open(f'{HERE}/evidence/{pid}.json'))
        fn = {}
        for x in ev['coverage']['functions_encoded']:
            a, c = x.split(':')
            fn.setdefault(a, set()).add(c)
        ms = []
        for f in props[pid]['anchors']['files']:
            r = f[len(SRC) + 1:]
            if r in fn:
                ms += muts('/repo/' + f, fn[r])[0]
        rng.shuffle(ms)
        jobs += [(pid, m) for m in ms[:count]]
        print(pid, len(ms), 'sites', flush=True)
        open(f'/tmp/mut/{pid}.txt', 'a').close()
    with ThreadPoolExecutor(nw) as ex:
        res = list(ex.map(one, jobs))
    for pid in pids:
        r = [x for (p, _), x in zip(jobs, res) if p == pid and x is not None]
        print(pid, 'mutants', len(r), 'caught', r.count(1), 'survived', r.count(0), 'none', len(r) - r.count(0) - r.count(1), flush=True)


main()
