#!/usr/bin/env python3
"""
Quietness test (development tool, no check): applies behaviour-preserving rewritings to the functions that have a
reference and reports those on which the comparison does not answer ok.

refactor.py SPEC[,SPEC] [function filters]     env: KIND=name,name  L=length
"""
import ast
import copy
import os
import shutil
import signal
import sys
import tempfile
import traceback
from collections import Counter
from multiprocessing import get_context

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import engine as E   # noqa: E402

ROOT = os.environ.get('ROOT', '/repo/crysgsu')


def N(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def parse1(s):
    return ast.parse(s).body[0]


def locals_of(fn):
    args = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in args:
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return set()
    return out


def t_rename(fn):
    ls = locals_of(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ls:
            n.id = 'q_' + n.id


class Ret(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([N('res_', ast.Store())], n.value, lineno=0), ast.Return(N('res_'))]


def t_ret(fn):
    Ret().visit(fn)


class SwapIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


def t_swapif(fn):
    SwapIf().visit(fn)


def mutates(body, src):
    s = ast.dump(src)
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.dump(n.func.value) == s:
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and any(
                    isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(src)):
                return True
    return False


class IndexLoop(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Name, ast.Attribute)) and not n.orelse and not mutates(n.body, n.iter):
            IndexLoop.k += 1
            i = 'ix_%d' % IndexLoop.k
            it = ast.unparse(n.iter)
            h = parse1('for %s in range(len(%s)):\n    %s = %s[%s]' % (i, it, ast.unparse(n.target), it, i))
            h.body += n.body
            return h
        return n


def t_index(fn):
    IndexLoop().visit(fn)


class WhileLoop(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' \
                and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)) \
                and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.target.id for b in n.body for x in ast.walk(b)):
            v = n.target.id
            a = ast.unparse(n.iter.args[0])
            m = ast.parse('%s = 0\nn_%s = %s\nwhile %s < n_%s:\n    pass' % (v, v, a, v, v)).body
            m[2].body = n.body + [parse1('%s += 1' % v)]
            return m
        return n


def t_while(fn):
    WhileLoop().visit(fn)


class CompLoop(ast.NodeTransformer):
    k = 0

    def fix(self, n, comp, rebuild):
        CompLoop.k += 1
        v = 'acc_%d' % CompLoop.k
        out = [parse1('%s = []' % v)]
        body = [ast.Expr(ast.Call(ast.Attribute(N(v), 'append', ast.Load()), [comp.elt], []))]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [], lineno=0)]
        return out + body + [rebuild(N(v))]

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp):
            return self.fix(n, n.value, lambda x: ast.Assign(n.targets, x, lineno=0))
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.ListComp):
            return self.fix(n, n.value, lambda x: ast.Return(x))
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            for i, a in enumerate(n.value.args):
                if isinstance(a, ast.ListComp):
                    def rb(x):
                        n.value.args[i] = x
                        return n
                    return self.fix(n, a, rb)
        return n


def t_comp(fn):
    CompLoop().visit(fn)


class Enum(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 \
                and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) \
                and it.args[0].func.id == 'len' and isinstance(it.args[0].args[0], (ast.Name, ast.Attribute)) \
                and not mutates(n.body, it.args[0].args[0]):
            src = it.args[0].args[0]
            Enum.k += 1
            e = 'el_%d' % Enum.k
            d = ast.dump(ast.Subscript(src, N(n.target.id), ast.Load()))

            class R(ast.NodeTransformer):
                def visit_Subscript(self, x):
                    if ast.dump(x) == d:
                        return N(e)
                    self.generic_visit(x)
                    return x
            body = [R().visit(b) for b in n.body]
            return ast.For(ast.Tuple([n.target, N(e, ast.Store())], ast.Store()),
                           ast.Call(N('enumerate'), [src], []), body, [], lineno=0)
        return n


def t_enum(fn):
    Enum().visit(fn)


def nest(body):
    for i, s in enumerate(body):
        for f in ('body', 'orelse'):
            if isinstance(getattr(s, f, None), list):
                setattr(s, f, nest(getattr(s, f)))
        if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)) \
                and i + 1 < len(body):
            s.orelse = nest(body[i + 1:])
            if isinstance(s.body[-1], ast.Continue):
                s.body = s.body[:-1] or [ast.Pass()]
            return body[:i + 1]
    return body


def t_nest(fn):
    fn.body = nest(fn.body)


class Unnest(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            o = n.orelse
            n.orelse = []
            return [n] + o
        return n


def t_unnest(fn):
    Unnest().visit(fn)


class Guard(ast.NodeTransformer):
    """loop body `if c: ...` -> `if not c: continue; ...`"""

    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n


def t_guard(fn):
    Guard().visit(fn)


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(N(n.target.id), n.op, n.value), lineno=0)
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) \
                and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id \
                and isinstance(n.value.op, ast.Add) and isinstance(n.value.right, ast.Constant):
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


def t_aug(fn):
    Aug().visit(fn)


class FStr(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        import string
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and not n.keywords:
            s = n.func.value.value
            vals = []
            auto = 0
            for lit, f, spec, conv in string.Formatter().parse(s):
                if lit:
                    vals.append(ast.Constant(lit))
                if f is not None:
                    if f == '':
                        f = str(auto)
                        auto += 1
                    if not f.isdigit() or int(f) >= len(n.args):
                        return n
                    vals.append(ast.FormattedValue(copy.deepcopy(n.args[int(f)]), -1,
                                                   ast.JoinedStr([ast.Constant(spec)]) if spec else None))
            return ast.JoinedStr(vals)
        return n


def t_fstr(fn):
    FStr().visit(fn)


class Cmp(ast.NodeTransformer):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.SW:
            return ast.Compare(n.comparators[0], [self.SW[type(n.ops[0])]()], [n.left])
        return n


def t_cmp(fn):
    Cmp().visit(fn)


class DM(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.values]))

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = [self.visit(x) for x in n.body]
        n.orelse = [self.visit(x) for x in n.orelse]
        return n


def t_demorgan(fn):
    # only in tests
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While)):
            n.test = DM().visit(n.test)


def t_noop(fn):
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(k, parse1('unused_ = None'))
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.For):
            n.body.insert(0, ast.Pass())


def t_hoist(fn):
    """attributes of self used as loop iterators are read into a variable before the loop"""
    class H(ast.NodeTransformer):
        k = 0

        def visit_For(self, n):
            self.generic_visit(n)
            if isinstance(n.iter, ast.Attribute):
                H.k += 1
                v = 'h_%d' % H.k
                a = ast.Assign([N(v, ast.Store())], n.iter, lineno=0)
                n.iter = N(v)
                return [a, n]
            return n
    H().visit(fn)


def t_split_and(fn):
    class S(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                r = n.body
                for v in reversed(n.test.values):
                    r = [ast.If(v, r, [])]
                return r[0]
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and n.orelse == [] \
                    and isinstance(n.body[-1], (ast.Return, ast.Raise)):
                return [ast.If(v, copy.deepcopy(n.body), []) for v in n.test.values]
            return n
    S().visit(fn)


def t_truth(fn):
    class S(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            t = n.test
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.Eq) and isinstance(t.left, ast.Call) \
                    and isinstance(t.left.func, ast.Name) and t.left.func.id == 'len' \
                    and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
                n.test = ast.UnaryOp(ast.Not(), t.left.args[0])
            return n
    S().visit(fn)


def t_temp(fn):
    """the arguments of calls in expression statements and assignments go through variables"""
    class S(ast.NodeTransformer):
        k = 0

        def do(self, n):
            c = n.value
            if not isinstance(c, ast.Call):
                return n
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript)):
                    S.k += 1
                    v = 'tmp_%d' % S.k
                    pre.append(ast.Assign([N(v, ast.Store())], a, lineno=0))
                    c.args[i] = N(v)
            return pre + [n]
        visit_Assign = do
        visit_Expr = do
    S().visit(fn)


def t_whole(fn):
    """the body moves into a nested function"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)):
        return
    ls = fn.body
    if isinstance(ls[0], ast.Expr) and isinstance(ls[0].value, ast.Constant) and len(ls) > 1:
        ls = ls[1:]
    h = parse1('def inner_():\n    pass')
    # arguments which are assigned
    args = {a.arg for a in fn.args.args}
    if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in args for n in ast.walk(fn)):
        return
    h.body = ls
    fn.body = [h, parse1('return inner_()') if False else ast.Return(ast.Call(N('inner_'), [], []))]


def t_helper(fn, mod=None, cls=None):
    """the body moves into another function of the same class or module"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)) or fn.args.vararg or fn.args.kwarg:
        return
    if fn.name.startswith('__') and fn.name != '__init__':
        return
    g = copy.deepcopy(fn)
    g.name = 'helper_impl'
    deco = [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]
    if 'property' in deco or any(isinstance(d, ast.Attribute) for d in fn.decorator_list) or 'classmethod' in deco:
        return
    names = [a.arg for a in fn.args.args]
    if cls is None:
        call = 'helper_impl(%s)' % ', '.join(names)
    elif 'staticmethod' in deco:
        call = '%s.helper_impl(%s)' % (cls.name, ', '.join(names))
    else:
        call = '%s.helper_impl(%s)' % (names[0], ', '.join(names[1:]))
    for n in ast.walk(g):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fn.name:
            return
    fn.body = [parse1('def f():\n    return ' + call).body[0]]
    (cls or mod).body.append(g)


def t_loophelper(fn, mod=None, cls=None):
    """the body of a loop without assignments to outer variables moves into a module function"""
    outer = [None]
    k = [0]
    new = []

    class S(ast.NodeTransformer):
        def visit_For(self, n):
            if k[0] == 0:
                bad = any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield)) for b in n.body for x in ast.walk(b))
                stores = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                inside = set(id(x) for b in n.body for x in ast.walk(b))
                used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}
                if not bad and not (stores & used):
                    loc = {a.arg for a in fn.args.args} | locals_of(fn)
                    free = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} & loc - stores)
                    h = parse1('def body_helper(%s):\n    pass' % ', '.join(free))
                    h.body = n.body
                    new.append(h)
                    n.body = [parse1('body_helper(%s)' % ', '.join(free))]
                    k[0] = 1
                    return n
            self.generic_visit(n)
            return n
    S().visit(fn)
    if new:
        mod.body.append(new[0])


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}
SEL = os.environ.get('KIND')
if SEL:
    KINDS = {k: KINDS[k] for k in SEL.split(',')}


def locate(eng, target):
    fn = eng.find(target)
    return fn


def run(job):
    si, kind = job
    spec = SPECS[si]
    fn = ENG.find(spec.target)
    m = fn.module
    tree = copy.deepcopy(m.tree)
    node = cls = None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == fn.node.name and n.lineno == fn.node.lineno:
            node = n
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and node in n.body:
            cls = n
    if node is None:
        return job, 'skip', ''
    before = ast.dump(node)
    try:
        if kind in ('helper', 'loophelper'):
            KINDS[kind](node, tree, cls)
        else:
            KINDS[kind](node)
        ast.fix_missing_locations(tree)
        if ast.dump(node) == before:
            return job, 'same', ''
        src = ast.unparse(tree)
        ast.parse(src)
    except Exception as ex:
        return job, 'skip', repr(ex)
    d = tempfile.mkdtemp(prefix='rf')
    try:
        root = os.path.join(d, 'crysgsu')
        shutil.copytree(ROOT, root, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '*.so', 'cpp'))
        with open(os.path.join(root, os.path.relpath(m.path, ROOT)), 'w') as f:
            f.write(src)
        signal.alarm(int(os.environ.get('T', '60')))
        e = E.Engine(root)
        s = [x for n in NAMES for x in e.load_specs(n)][si]
        v, det, c = e.check(s)
        return job, v, det if v != 'ok' else ''
    except TimeoutError:
        return job, 'timeout', ''
    except Exception:
        return job, 'crash', traceback.format_exc(limit=-4)
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)
        E.tm.clear() if hasattr(E.tm, 'clear') else None


def main():
    global ENG, SPECS, NAMES

    def h(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, h)
    NAMES = sys.argv[1].split(',')
    ENG = E.Engine(ROOT)
    SPECS = [x for n in NAMES for x in ENG.load_specs(n)]
    sel = sys.argv[2:]
    skip = ('load',)
    jobs = [(i, k) for i, s in enumerate(SPECS) for k in KINDS
            if (s.fn.node.name not in skip or sel) and (not sel or any(x in s.target or x == s.fn.node.name for x in sel))]
    C = Counter()
    L = int(os.environ.get('L', '200'))
    with get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for job, v, d in p.imap(run, jobs):
            C[v, job[1]] += 1
            C[v] += 1
            if v not in ('ok', 'same', 'skip'):
                print('%-10s %-10s %-50s %s' % (v, job[1], SPECS[job[0]].target, str(d)[:L]))
                sys.stdout.flush()
    print({k: n for k, n in C.items() if isinstance(k, str)})
    bad = Counter()
    for k, n in C.items():
        if not isinstance(k, str) and k[0] not in ('ok', 'same', 'skip'):
            bad[k] = n
    print(bad)


if __name__ == '__main__':
    main()
