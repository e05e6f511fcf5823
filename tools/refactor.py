"""Behaviour-preserving rewrites of the whole package, to see that the checks judge behaviour and not text:
refactor.py STYLE SRC_REPO DST_REPO   (DST is a scratch copy; then HOOKEAI_REPO=DST check.py PID quick)
styles: flow  - inverted if/else, range loops as while loops, returns through a variable
        extract - every function body in a helper, right-hand sides in closures
        names - local variables renamed, arithmetic operands in temporaries"""
import ast
import os
import shutil
import sys

STYLE, SRC, DST = sys.argv[1:4]


def bad(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or
               (isinstance(n, ast.Name) and n.id in ('super', 'locals', 'vars', 'dir', 'exec', 'eval', '__class__'))
               for n in ast.walk(node))


def own_loop_jumps(body):
    """continue statements belonging to this loop"""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if own_loop_jumps(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if own_loop_jumps(getattr(s, f, []) or []):
                return True
        for h in getattr(s, 'handlers', []):
            if own_loop_jumps(h.body):
                return True
    return False


class Flow(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def new(self):
        self.k += 1
        return f'rf_{self.k}'

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = self.new()
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range'
                and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse
                and not own_loop_jumps(n.body)):
            return n
        i, m = self.new(), self.new()
        return [ast.Assign([ast.Name(m, ast.Store())], n.iter.args[0]),
                ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(m, ast.Load())]),
                          [ast.Assign([n.target], ast.Name(i, ast.Load())),
                           *n.body,
                           ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]

    def visit_Lambda(self, n):
        return n


class Extract(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.depth = 0

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_Assign(self, n):
        if not self.depth or bad(n.value) or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        # a name that is deleted or rebound stays visible: the closure is called at once
        self.k += 1
        f = f'_rf_{self.k}'
        fn = ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), [ast.Return(n.value)], [])
        n.value = ast.Call(ast.Name(f, ast.Load()), [], [])
        return [fn, n]


class Names(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not n]
        if inner or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)) or bad(n) and False:
            self.generic_visit(n)
            return n
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval', 'exec') for x in ast.walk(n)):
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        args |= {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        imp = {(a.asname or a.name).split('.')[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        exc = {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler)}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc - imp - exc:
                x.id = 'rn_' + x.id
        return n


class Ops(ast.NodeTransformer):
    """x += y on names bound to fresh numbers cannot be told apart, so only comparisons are turned round"""
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP:
            return ast.Compare(n.comparators[0], [self.FLIP[type(n.ops[0])]()], [n.left])
        return n


class Methods(ast.NodeTransformer):
    """torch/numpy function calls as methods and the other way round"""
    PAIRS = {'sum', 'mean', 'reshape', 'transpose', 'clone', 'abs', 'sqrt', 'matmul', 'unsqueeze', 'squeeze', 'flatten'}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'torch' and f.attr in self.PAIRS \
                and n.args and not isinstance(n.args[0], ast.Starred):
            return ast.Call(ast.Attribute(n.args[0], f.attr, ast.Load()), n.args[1:], n.keywords)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'torch' and f.attr == 'zeros' and False:
            return n
        return n


def wrap(tree):
    """every module-level function calls a helper that holds its body"""
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not n.decorator_list and n.name != 'main':
            import copy
            h = copy.deepcopy(n)
            h.name = '_rf_body_' + n.name
            a = n.args
            call = ast.Call(ast.Name(h.name, ast.Load()),
                            [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args] +
                            ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] +
                            ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            n.body = [ast.Return(call)]
            out += [h, n]
        else:
            out.append(n)
    tree.body = out
    return tree


shutil.rmtree(DST, ignore_errors=True)
shutil.copytree(SRC, DST, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs', 'benchmarks'))
for d, _, fs in os.walk(os.path.join(DST, 'src', 'hookeai')):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            if STYLE == 'flow':
                t = Flow().visit(t)
            elif STYLE == 'extract':
                t = wrap(Extract().visit(t))
            elif STYLE == 'names':
                t = Methods().visit(Ops().visit(Names().visit(t)))
            ast.fix_missing_locations(t)
            open(p, 'w').write(ast.unparse(t) + '\n')
