"""
Functions of the C++ source as Python syntax trees.

clang prints the type-checked tree (nothing is built or run); the functions defined in the file itself are translated
statement by statement.  Anything outside the translated subset makes the function undecided.
"""

import ast
import json
import os
import subprocess


class Outside(Exception):
    pass


def load(path):
    """Python module of the C++ file or None when it cannot be parsed."""
    p = subprocess.run(['clang', '-x', 'c++', '-std=c++11', '-I', os.path.dirname(path), '-fsyntax-only', '-Xclang',
                        '-ast-dump=json', path], capture_output=True, timeout=80)
    if p.returncode != 0:
        return None
    fs = []
    for n in json.loads(p.stdout).get('inner', []):
        if n.get('kind') == 'FunctionDecl' and 'includedFrom' not in json.dumps(n.get('loc', {})) and \
                n.get('inner') and n['inner'][-1].get('kind') == 'CompoundStmt':
            fs.append(n)
    names = {n['name'] for n in fs}
    body = []
    for n in fs:
        try:
            body.append(Tr(names).function(n))
        except Outside as e:
            f = ast.parse('def %s(*a): pass' % n['name']).body[0]
            f.body = [ast.Expr(ast.Await(ast.Constant('outside the translated subset: %s' % e)))]
            body.append(f)
    m = ast.Module(body, [])
    ast.fix_missing_locations(m)
    return m


BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div}
CMP = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
CASTS = {'LValueToRValue', 'IntegralToFloating', 'IntegralCast', 'FloatingCast', 'NoOp', 'FunctionToPointerDecay'}
SKIPPED = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr',
           'CStyleCastExpr', 'ConstantExpr'}
CALLS = {'min': 'min', 'max': 'max', 'fmin': 'min', 'fmax': 'max', 'fabs': 'abs', 'abs': 'abs'}


def ty(n):
    return n.get('type', {}).get('desugaredQualType') or n.get('type', {}).get('qualType', '')


def integral(n):
    return ty(n).replace('const ', '') in ('int', 'unsigned int', 'long', 'unsigned long', 'long long')


class Tr:
    def __init__(self, names):
        self.names = names

    def at(self, n, x):
        """Source line."""
        b = n.get('range', {}).get('begin', {})
        l = b.get('line')
        if l:
            self.line = l
        x.lineno = x.end_lineno = getattr(self, 'line', 1)
        x.col_offset = x.end_col_offset = 0
        return x

    def function(self, n):
        ps = [p for p in n['inner'] if p['kind'] == 'ParmVarDecl']
        self.line = n['loc'].get('line', 1)
        for p in ps:
            if '&' in ty(p):
                raise Outside('reference')
        f = ast.FunctionDef(n['name'], ast.arguments([], [ast.arg(p.get('name', '_%d' % i)) for i, p in enumerate(ps)],
                                                     None, [], [], None, []), [], [])
        f.body = self.block(n['inner'][-1]) or [ast.Pass()]
        return self.at(n, f)

    def block(self, n):
        if n['kind'] != 'CompoundStmt':
            return self.stmt(n)
        out = []
        for x in n.get('inner', []):
            out.extend(self.stmt(x))
        return out

    def stmt(self, n):
        return [self.at(n, s) for s in self.stmt1(n)]

    def stmt1(self, n):
        k, i = n['kind'], n.get('inner', [])
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'NullStmt':
            return []
        if k == 'DeclStmt':
            out = []
            for v in i:
                if v['kind'] != 'VarDecl' or '&' in ty(v) or v.get('storageClass'):
                    raise Outside('declaration')
                e = self.ex(v['inner'][-1]) if v.get('inner') else None
                if e is not None:
                    out.append(ast.Assign([ast.Name(v['name'], ast.Store())], e))
            return out
        if k == 'IfStmt':
            if n.get('hasVar') or n.get('hasInit'):
                raise Outside('if')
            return [ast.If(self.ex(i[0]), self.block(i[1]) or [ast.Pass()], self.block(i[2]) if len(i) > 2 else [])]
        if k == 'ForStmt':
            return self.loop(n)
        if k == 'WhileStmt':
            return [ast.While(self.ex(i[0]), self.block(i[1]) or [ast.Pass()], [])]
        if k == 'ReturnStmt':
            return [ast.Return(self.ex(i[0]) if i else None)]
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return [ast.Assign([self.lv(i[0])], self.ex(i[1]))]
        if k == 'CompoundAssignOperator' and n['opcode'][:-1] in BIN:
            if n['opcode'] == '/=' and integral(i[0]):
                raise Outside('division')
            return [ast.AugAssign(self.lv(i[0]), BIN[n['opcode'][:-1]](), self.ex(i[1]))]
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return [ast.AugAssign(self.lv(i[0]), ast.Add() if n['opcode'] == '++' else ast.Sub(), ast.Constant(1))]
        if k == 'CallExpr':
            return [ast.Expr(self.ex(n))]
        if k in SKIPPED:
            return self.stmt1(i[0])
        raise Outside(k)

    def loop(self, n):
        init, var, cond, inc, body = n['inner']
        if var:
            raise Outside('for')
        b = self.block(body) or [ast.Pass()]
        r = self.counted(init, cond, inc, b)
        if r is not None:
            return [r]
        if any(isinstance(x, ast.Continue) for s in b for x in ast.walk(s)):
            raise Outside('continue')
        return (self.stmt(init) if init else []) + [ast.While(self.ex(cond) if cond else ast.Constant(True),
                                                              b + (self.stmt(inc) if inc else []), [])]

    def counted(self, init, cond, inc, body):
        """for (int i = A; i < B; i++)"""
        if not (init and cond and inc) or init['kind'] != 'DeclStmt' or len(init['inner']) != 1:
            return None
        v = init['inner'][0]
        a = self.ex(v['inner'][-1])
        c = self.ex(cond)
        s = self.stmt(inc)
        if not (isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and c.left.id == v['name'] and len(s) == 1 and
                isinstance(s[0], ast.AugAssign) and isinstance(s[0].target, ast.Name) and s[0].target.id == v['name'] and
                isinstance(s[0].value, ast.Constant) and s[0].value.value == 1):
            return None
        b = c.comparators[0]
        used = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)} | {v['name']}
        if any(isinstance(x, (ast.Subscript, ast.Call)) and not (isinstance(x, ast.Call) and x.func.id in ('min', 'max'))
               for x in ast.walk(b)):
            return None
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in used for st in body for x in ast.walk(st)):
            return None
        up = isinstance(s[0].op, ast.Add)
        o = type(c.ops[0])
        if up and o is ast.Lt:
            args = [a, b]
        elif up and o is ast.LtE:
            args = [a, ast.BinOp(b, ast.Add(), ast.Constant(1))]
        elif not up and o is ast.Gt:
            args = [a, b, ast.Constant(-1)]
        elif not up and o is ast.GtE:
            args = [a, ast.BinOp(b, ast.Sub(), ast.Constant(1)), ast.Constant(-1)]
        else:
            return None
        return ast.For(ast.Name(v['name'], ast.Store()), ast.Call(ast.Name('range', ast.Load()), args, []), body, [])

    def lv(self, n):
        if n['kind'] == 'DeclRefExpr':
            return ast.Name(n['referencedDecl']['name'], ast.Store())
        if n['kind'] == 'ArraySubscriptExpr':
            return ast.Subscript(self.ex(n['inner'][0]), self.ex(n['inner'][1]), ast.Store())
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '*':
            return self.deref(n, ast.Store())
        if n['kind'] in SKIPPED:
            return self.lv(n['inner'][0])
        raise Outside(n['kind'])

    def deref(self, n, ctx):
        x = n['inner'][0]
        while x['kind'] in SKIPPED or x['kind'] == 'ImplicitCastExpr':
            x = x['inner'][0]
        if x['kind'] == 'BinaryOperator' and x['opcode'] == '+' and '*' in ty(x['inner'][0]):
            return ast.Subscript(self.ex(x['inner'][0]), self.ex(x['inner'][1]), ctx)
        if x['kind'] == 'DeclRefExpr':
            return ast.Subscript(ast.Name(x['referencedDecl']['name'], ast.Load()), ast.Constant(0), ctx)
        raise Outside('dereference')

    def ex(self, n):
        return self.at(n, self.ex1(n))

    def ex1(self, n):
        k, i = n['kind'], n.get('inner', [])
        if k == 'ImplicitCastExpr' or k in SKIPPED:
            c = n.get('castKind', 'NoOp')
            if c == 'FloatingToIntegral':
                return ast.Call(ast.Name('int', ast.Load()), [self.ex(i[0])], [])
            if c not in CASTS:
                raise Outside(c)
            if c == 'IntegralCast' and 'unsigned' in ty(n) and i[0]['kind'] != 'IntegerLiteral':
                raise Outside('unsigned')
            return self.ex(i[0])
        if k == 'IntegerLiteral':
            return ast.Constant(int(n['value']))
        if k == 'FloatingLiteral':
            return ast.Constant(float(n['value']))
        if k == 'CXXBoolLiteralExpr':
            return ast.Constant(bool(n['value']))
        if k == 'DeclRefExpr':
            return ast.Name(n['referencedDecl']['name'], ast.Load())
        if k == 'ArraySubscriptExpr':
            return ast.Subscript(self.ex(i[0]), self.ex(i[1]), ast.Load())
        if k == 'BinaryOperator':
            o = n['opcode']
            if o in BIN:
                if '*' in ty(n) or o == '/' and integral(n):
                    raise Outside('operator')
                return ast.BinOp(self.ex(i[0]), BIN[o](), self.ex(i[1]))
            if o in CMP:
                return ast.Compare(self.ex(i[0]), [CMP[o]()], [self.ex(i[1])])
            if o in ('&&', '||'):
                return ast.BoolOp(ast.And() if o == '&&' else ast.Or(), [self.ex(i[0]), self.ex(i[1])])
            raise Outside(o)
        if k == 'UnaryOperator':
            o = n['opcode']
            if o == '-':
                return ast.UnaryOp(ast.USub(), self.ex(i[0]))
            if o == '+':
                return self.ex(i[0])
            if o == '!':
                return ast.UnaryOp(ast.Not(), self.ex(i[0]))
            if o == '*':
                return self.deref(n, ast.Load())
            raise Outside(o)
        if k == 'ConditionalOperator':
            return ast.IfExp(self.ex(i[0]), self.ex(i[1]), self.ex(i[2]))
        if k == 'CallExpr':
            f = self.ex(i[0])
            if not isinstance(f, ast.Name):
                raise Outside('call')
            if f.id not in self.names:
                if f.id not in CALLS:
                    raise Outside(f.id)
                f = ast.Name(CALLS[f.id], ast.Load())
            return ast.Call(f, [self.ex(x) for x in i[1:]], [])
        raise Outside(k)
