#!/usr/bin/env python3
"""
Sensitivity test (development tool, no check): applies small changes to the functions that have a reference and reports
those the comparison does not flag.

mutate.py SPEC[,SPEC] [function filters]     env: T=seconds  N=changes per function  SHOW=ok,undecided
"""
import ast
import copy
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback
from collections import Counter
from multiprocessing import get_context

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import engine as E   # noqa: E402

ROOT = os.environ.get('ROOT', '/repo/crysgsu')

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}


def mutations(fn):
    """list of (description, function applying the change on an equal copy)"""
    out = []
    nodes = list(ast.walk(fn))

    def add(k, d, f):
        out.append((k, '%d: %s' % (getattr(nodes[k], 'lineno', 0), d), f))
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    for k, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                for r in CMP.get(type(o), ()):
                    add(k, '%s -> %s' % (ast.unparse(n), r.__name__), lambda x, j=j, r=r: x.ops.__setitem__(j, r()))
        elif isinstance(n, ast.BinOp):
            for r in BIN.get(type(n.op), ()):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                add(k, '%s -> %s' % (ast.unparse(n), r.__name__), lambda x, r=r: setattr(x, 'op', r()))
        elif isinstance(n, ast.BoolOp):
            add(k, '%s flip' % ast.unparse(n), lambda x: setattr(x, 'op', ast.And() if isinstance(x.op, ast.Or) else ast.Or()))
            for j in range(len(n.values)):
                add(k, '%s drop %d' % (ast.unparse(n), j), lambda x, j=j: (x.values.pop(j), x.values.append(copy.deepcopy(x.values[0])) if len(x.values) < 2 else None))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(k, '%r + 1' % n.value, lambda x: setattr(x, 'value', x.value + 1))
            if n.value:
                add(k, '%r - 1' % n.value, lambda x: setattr(x, 'value', x.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(k, '%r flip' % n.value, lambda x: setattr(x, 'value', not x.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(k, '%r * 2' % n.value, lambda x: setattr(x, 'value', x.value * 2 + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and (doc is None or n is not doc.value):
            add(k, '%r + x' % n.value, lambda x: setattr(x, 'value', x.value + 'x'))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                add(k, '%s swap' % ast.unparse(n)[:60], lambda x: x.args.__setitem__(slice(0, 2), x.args[1::-1]))
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(k, 'if not %s' % ast.unparse(n.test), lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(k, '%s no minus' % ast.unparse(n), lambda x: setattr(x, 'op', ast.UAdd()))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ('X', 'Y', 'Z', 'A', 'B', 'C', 'Edges', 'Nodes', 'Faces'):
            r = {'X': 'Y', 'Y': 'Z', 'Z': 'X', 'A': 'B', 'B': 'C', 'C': 'A', 'Edges': 'Nodes', 'Nodes': 'Faces', 'Faces': 'Edges'}[n.attr]
            add(k, '%s -> %s' % (ast.unparse(n), r), lambda x, r=r: setattr(x, 'attr', r))
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if s is doc or isinstance(s, ast.Pass):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    add(k, 'drop %s' % ast.unparse(s).split('\n')[0][:70], lambda x, j=j, fld=fld: getattr(x, fld).__setitem__(j, ast.Pass()))
    return out


def run(job):
    si, mi = job
    spec = SPECS[si]
    fn = ENG.find(spec.target)
    m = fn.module
    tree = copy.deepcopy(m.tree)
    node = None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == fn.node.name and n.lineno == fn.node.lineno:
            node = n
    if node is None:
        b = [n for n in tree.body if isinstance(n, ast.If) and n.lineno == fn.node.lineno][0]
        node = E.main_function(b)
    k, desc, f = mutations(node)[mi]
    f(list(ast.walk(node))[k])
    ast.fix_missing_locations(tree)
    try:
        src = ast.unparse(tree)
        ast.parse(src)
    except Exception as ex:
        return job, desc, 'skip', repr(ex)
    d = tempfile.mkdtemp(prefix='mu')
    try:
        root = os.path.join(d, 'crysgsu')
        shutil.copytree(ROOT, root, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '*.so', 'cpp'))
        with open(os.path.join(root, os.path.relpath(m.path, ROOT)), 'w') as g:
            g.write(src)
        signal.alarm(int(os.environ.get('T', '30')))
        e = E.Engine(root)
        s = [x for n in NAMES for x in e.load_specs(n)][si]
        v, det, c = e.check(s)
        return job, desc, v, str(det)
    except TimeoutError:
        return job, desc, 'violation' if e.pending else 'timeout', ''
    except Exception:
        return job, desc, 'crash', traceback.format_exc(limit=-4)
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ENG, SPECS, NAMES

    def h(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, h)
    NAMES = sys.argv[1].split(',')
    ENG = E.Engine(ROOT)
    SPECS = [x for n in NAMES for x in ENG.load_specs(n)]
    sel = sys.argv[2:]
    rnd = random.Random(int(os.environ.get('SEED', '1')))
    N = int(os.environ.get('N', '6'))
    jobs = []
    for i, s in enumerate(SPECS):
        if sel and not any(x in s.target or x == s.fn.node.name for x in sel) or (not sel and s.fn.node.name == 'load'):
            continue
        k = len(mutations(ENG.find(s.target).node))
        jobs += [(i, j) for j in sorted(rnd.sample(range(k), min(N, k)))]
    C = Counter()
    L = int(os.environ.get('L', '200'))
    show = os.environ.get('SHOW', 'ok,undecided,timeout,crash,specerror').split(',')
    with get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for job, desc, v, d in p.imap(run, jobs):
            C[v] += 1
            if v in show:
                print('%-10s %-40s %s   %s' % (v, SPECS[job[0]].target.split(':')[1], desc, d[:L].replace('\n', ' ') if v != 'ok' else ''))
                sys.stdout.flush()
    print(dict(C))


if __name__ == '__main__':
    main()
