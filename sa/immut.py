"""
Local lists that are never changed: the variables of a function to which list displays and comprehensions are
assigned and through which no list is changed, stored, returned or captured.  Such a list is a plain value.
"""

import ast

_memo = {}
_pure = {'len', 'sum', 'min', 'max', 'zip', 'enumerate', 'sorted', 'list', 'set', 'dict', 'tuple', 'str', 'range',
         'any', 'all', 'reversed', 'map', 'filter', 'print', 'int', 'float'}


def _parents(node):
    par = {}
    for p in ast.walk(node):
        for c in ast.iter_child_nodes(p):
            par[c] = p
    return par


def _callees(program, call):
    """Functions of the program a call may reach by name: (function, offset of the first argument)."""
    f = call.func
    name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    out = []
    mods = list(program.modules.values())
    own = [m for m in mods if '.' in m.name and any(isinstance(s, ast.ClassDef) and s.name == name for s in m.tree.body)]
    if own:
        mods = own
    for m in mods:
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ClassDef):
                if s.name == name:
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef) and x.name == '__init__':
                            out.append((x, 1))
                for x in s.body:
                    if isinstance(x, ast.FunctionDef) and x.name == name and isinstance(f, ast.Attribute):
                        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in x.decorator_list)
                        out.append((x, 0 if static else 1))
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                out.append((s, 0))
    return out


def _use_ok(program, n, par, depth):
    p = par.get(n)
    if isinstance(p, (ast.For, ast.comprehension)):
        return p.iter is n
    if isinstance(p, ast.Subscript):
        if p.value is n:
            return isinstance(p.ctx, ast.Load)
        return False
    if isinstance(p, (ast.Compare, ast.UnaryOp, ast.If, ast.While)):
        return not (isinstance(p, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in p.ops))
    if isinstance(p, ast.BinOp):
        return True
    if isinstance(p, (ast.Call, ast.keyword)):
        kw = None
        c = p
        if isinstance(p, ast.keyword):
            kw = p.arg
            c = par.get(p)
            if kw is None:
                return False
        if isinstance(c.func, ast.Name) and c.func.id in _pure:
            return True
        if isinstance(c.func, ast.Attribute) and c.func.attr in ('join', 'format', 'index', 'extend'):
            return c.func.value is not n
        if n is c.func or depth > 4:
            return False
        cs = _callees(program, c)
        if not cs:
            return False
        for fn, off in cs:
            names = [a.arg for a in fn.args.posonlyargs + fn.args.args] if hasattr(fn.args, 'posonlyargs') else []
            if kw is not None:
                v = kw if kw in names else None
            else:
                k = [i for i, a in enumerate(c.args) if a is n]
                v = names[k[0] + off] if k and k[0] + off < len(names) else None
            if v is None or not ok(program, fn, v, depth + 1):
                return False
        return True
    if isinstance(p, ast.Attribute):
        q = par.get(p)
        return p.attr in ('index', 'count', 'copy', 'keys', 'values', 'items', 'get', 'split', 'replace', 'strip') \
            and isinstance(q, ast.Call) and q.func is p
    if isinstance(p, ast.Expr):
        return True
    return False


def ok(program, fn, name, depth=0):
    k = (id(fn), name)
    if k in _memo:
        return _memo[k][0]
    _memo[k] = (False, fn)
    r = _ok(program, fn, name, depth)
    _memo[k] = (r, fn)
    return r


def _ok(program, fn, name, depth):
    par = _parents(fn)
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                return False
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
            return False
        if isinstance(n, ast.Name) and n.id == name:
            if isinstance(n.ctx, ast.Load):
                if not _use_ok(program, n, par, depth):
                    return False
            elif isinstance(n.ctx, ast.Store):
                p = par.get(n)
                if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is n):
                    if isinstance(p, ast.AugAssign):
                        return False
                if isinstance(p, ast.Assign) and isinstance(p.value, ast.Name):
                    return False
            else:
                return False
    return True
