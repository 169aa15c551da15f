"""
Resolution rules over the syntax trees: every name, member, attribute and argument list has a definition.

All rules answer for every path of every function: they are flow insensitive or use a may analysis, and report a use
only when no path and no class of the program (or of the library stubs) can define it.
"""

import ast
import builtins
import importlib
import os
import sys

STDLIB = {'math', 'os', 'os.path', 're', 'sys', 'time', 'random', 'functools', 'itertools', 'json', 'pathlib', 'shutil', 'copy',
          'collections', 'statistics', 'struct', 'array', 'multiprocessing', 'argparse', 'datetime', 'glob', 'operator',
          'string', 'bisect', 'heapq', 'typing', 'contextlib', 'logging', 'io', 'fractions', 'decimal', 'enum', 'tempfile'}
SKIPPED = {'swim', '_swim', 'test'}
STUBS = ('/opt/venv/lib/python3.12/site-packages',)
DEFS = (ast.FunctionDef, ast.AsyncFunctionDef)
TYPES = (str, bytes, int, float, complex, bool, list, tuple, dict, set, frozenset, type, type(None), range, slice, object,
         property, BaseException, OSError, UnicodeDecodeError, StopIteration, ImportError, KeyError, SyntaxError)


def line(m, n):
    return '%s:%d' % (m.path[m.path.find('crysgsu'):], getattr(n, 'lineno', 0))


def scopes(tree):
    """(scope node, chain of enclosing scopes)"""
    out = [(tree, ())]
    todo = [(tree, ())]
    while todo:
        n, ch = todo.pop()
        for x in own(n):
            if isinstance(x, DEFS + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                out.append((x, ch + (n,)))
                todo.append((x, ch + (n,)))
    return out


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(scope):
    """Nodes evaluated in the scope itself (nested scopes are yielded but not entered)."""
    if isinstance(scope, DEFS + (ast.Lambda,)):
        body = scope.body if isinstance(scope.body, list) else [scope.body]
    elif isinstance(scope, COMPS):
        body = [scope.key, scope.value] if isinstance(scope, ast.DictComp) else [scope.elt]
        for j, g in enumerate(scope.generators):
            body += [g.target] + g.ifs + ([g.iter] if j else [])
    elif isinstance(scope, ast.ClassDef):
        body = scope.body
    else:
        body = scope.body
    todo = list(reversed(body))
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, DEFS):
            a = x.args
            todo += x.decorator_list + a.defaults + [d for d in a.kw_defaults if d]
            todo += [y.annotation for y in a.args + a.kwonlyargs + a.posonlyargs if y.annotation] + ([x.returns] if x.returns else [])
        elif isinstance(x, ast.Lambda):
            todo += x.args.defaults + [d for d in x.args.kw_defaults if d]
        elif isinstance(x, ast.ClassDef):
            todo += x.decorator_list + x.bases + [k.value for k in x.keywords]
        elif isinstance(x, COMPS):
            todo.append(x.generators[0].iter)
        else:
            todo += list(reversed(list(ast.iter_child_nodes(x))))


def args_of(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def binds(scope):
    """Names bound in the scope, with '*' for a star import."""
    r = set(args_of(scope)) if isinstance(scope, DEFS + (ast.Lambda,)) else set()
    glob = set()
    for x in own(scope):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            r.add(x.id)
        elif isinstance(x, DEFS + (ast.ClassDef,)):
            r.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                r.add((al.asname or al.name).split('.')[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            r.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            r.add(x.name)
        elif isinstance(x, ast.MatchMapping) and x.rest:
            r.add(x.rest)
        elif isinstance(x, COMPS):
            # walrus targets
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    r.add(y.target.id)
    return r - glob, glob


def modules(engine):
    return [m for m in engine.prog.modules.values() if m.name.split('.')[0] not in SKIPPED and m.path.endswith('.py')]


def top(engine, m):
    """Names a module defines (including globals that functions set)."""
    c = engine.__dict__.setdefault('_tops', {})
    if m.name not in c:
        r, _ = binds(m.tree)
        for s, ch in scopes(m.tree):
            if isinstance(s, DEFS):
                r = r | {n for n in binds(s)[1]}
        c[m.name] = r
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                m2 = engine.prog.modules.get(n.module or '')
                c[m.name] = r = (r - {'*'}) | (top(engine, m2) if m2 else {'*'})
    return c[m.name]


class Names:
    name = 'every name has a binding in scope'

    def run(self, engine, root):
        bad, n, nm = [], 0, 0
        for m in modules(engine):
            t = top(engine, m)
            nm += 1
            if '*' in t:
                continue
            for s, ch in scopes(m.tree):
                chain = [x for x in ch if not isinstance(x, ast.ClassDef)] + [s]
                known = set(t)
                for x in chain:
                    known |= binds(x)[0] if x is not m.tree else set()
                if any('*' in binds(x)[0] for x in chain if x is not m.tree):
                    continue
                guarded = guards(own(s), 'NameError')
                for x in own(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        n += 1
                        if x.id not in known and not hasattr(builtins, x.id) and x.id not in ('__file__', '__class__', '__path__') \
                                and x not in guarded:
                            bad.append((m.name + ':' + x.id, '%s: the name %s has no binding' % (line(m, x), x.id)))
        return result(bad, {'modules': nm, 'names': n})


def guards(nodes, *errors):
    """Nodes under a handler of the given errors."""
    r = set()
    for x in nodes:
        if isinstance(x, ast.Try) and any(isinstance(y, ast.Name) and y.id in errors
                                          for h in x.handlers if h.type is not None for y in ast.walk(h.type)):
            for b in x.body:
                r |= set(ast.walk(b))
    return r


def result(bad, extra):
    if bad:
        return 'violation', sorted(set(bad)), extra
    return 'ok', ', '.join('%d %s' % (v, k) for k, v in sorted(extra.items())), extra


_stub = {}


def stub_names(name):
    """Names in the installed stub or source of a library module, None when there is none.  The files are parsed."""
    if name in _stub:
        return _stub[name]
    r = None
    for d in STUBS:
        p = os.path.join(d, *name.split('.'))
        fs = [f for f in (p + '.pyi', os.path.join(p, '__init__.pyi'), p + '.py', os.path.join(p, '__init__.py')) if os.path.exists(f)]
        for f in fs:
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    t = ast.parse(open(f, encoding='utf-8').read())
            except (SyntaxError, OSError):
                continue
            b, _ = binds(t)
            for n in ast.walk(t):
                if isinstance(n, (ast.Assign, ast.AugAssign)) and '__all__' in ast.dump(n):
                    b |= {c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                if isinstance(n, ast.FunctionDef) and n.name == '__getattr__' and n in t.body and f.endswith('.py') and len(fs) == 1:
                    b.add('*')
            r = (r or set()) | b
        if r is not None and os.path.isdir(p):
            r |= {os.path.splitext(f)[0].split('.')[0] for f in os.listdir(p)}
    _stub[name] = r
    return r


def members(engine, name):
    """Names of a module, None when they are not known."""
    m = engine.prog.modules.get(name)
    if m is not None:
        if m.name.split('.')[0] in SKIPPED:
            return None
        r = set(top(engine, m)) | {'__name__', '__file__', '__doc__'}
        for k in engine.prog.modules:
            if k.startswith(name + '.'):
                r.add(k[len(name) + 1:].split('.')[0])
        return None if '*' in r else r
    if name in STDLIB:
        try:
            return set(dir(importlib.import_module(name)))
        except ImportError:
            return None
    r = stub_names(name)
    return None if r is None or '*' in r else r


def aliases(engine, m):
    """Name -> module it stands for, in the whole file; names bound in any other way are left out."""
    al, other = {}, {}
    for s, ch in scopes(m.tree):
        for x in own(s):
            if isinstance(x, ast.Import):
                for a in x.names:
                    al.setdefault(a.asname or a.name.split('.')[0], set()).add(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    full = (x.module or '') + '.' + a.name
                    if full in engine.prog.modules or full in ('os.path', 'numpy.linalg') or full in ('mpi4py.MPI',):
                        al.setdefault(a.asname or a.name, set()).add(full)
                    else:
                        other[a.asname or a.name] = 1
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                other[x.id] = 1
            elif isinstance(x, DEFS + (ast.ClassDef,)):
                other[x.name] = 1
        if isinstance(s, DEFS + (ast.Lambda,)):
            for a in args_of(s):
                other[a] = 1
    return {k: next(iter(v)) for k, v in al.items() if len(v) == 1 and k not in other}


def dotted(n):
    w = []
    while isinstance(n, ast.Attribute):
        w.append(n.attr)
        n = n.value
    return [n.id] + w[::-1] if isinstance(n, ast.Name) else None


class Members:
    name = 'every imported name and module member exists'

    def run(self, engine, root):
        bad, n = [], 0
        for m in modules(engine):
            al = aliases(engine, m)
            tries = guards(ast.walk(m.tree), 'ImportError', 'ModuleNotFoundError', 'AttributeError', 'Exception')
            for x in ast.walk(m.tree):
                if x in tries:
                    continue
                if isinstance(x, ast.ImportFrom) and x.module and not x.level:
                    ms = members(engine, x.module)
                    for a in x.names:
                        n += 1
                        if ms is not None and a.name != '*' and a.name not in ms and x.module + '.' + a.name not in engine.prog.modules:
                            bad.append((m.name + ':' + a.name, '%s: %s has no %s' % (line(m, x), x.module, a.name)))
                elif isinstance(x, ast.Import):
                    for a in x.names:
                        n += 1
                        w = a.name.split('.')
                        if w[0] in engine.prog.modules and a.name not in engine.prog.modules and w[0] not in SKIPPED:
                            bad.append((m.name + ':' + a.name, '%s: no module %s' % (line(m, x), a.name)))
                elif isinstance(x, ast.Attribute):
                    d = dotted(x.value)
                    if not d or d[0] not in al:
                        continue
                    name = '.'.join([al[d[0]]] + d[1:])
                    if len(d) > 1 and name not in engine.prog.modules and name not in STDLIB and not name.startswith('numpy.'):
                        continue
                    if name == 'mpi4py.MPI' or name.startswith('numpy.') and stub_names(name) is None:
                        ms = stub_names(name)
                    else:
                        ms = members(engine, name)
                    n += 1
                    if ms is not None and x.attr not in ms:
                        bad.append((m.name + ':' + name + '.' + x.attr, '%s: %s has no %s' % (line(m, x), name, x.attr)))
        return result(bad, {'references': n})


def classes(engine):
    """name -> [(module, ClassDef)]"""
    out = {}
    for m in engine.prog.modules.values():
        for x in m.tree.body:
            if isinstance(x, ast.ClassDef):
                out.setdefault(x.name, []).append((m, x))
    return out


def family(cs, c):
    """The class with its bases and derived classes; None when a base is not of the project."""
    todo, seen = [c], {c}
    while todo:
        x = todo.pop()
        for b in x.bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if n == 'object':
                continue
            if n not in cs:
                return None
            for _, y in cs[n]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    for l in cs.values():
        for _, y in l:
            for b in y.bases:
                n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                if n == c.name:
                    seen.add(y)
    return seen


def stored(tree, skip_self=False, only_self=False):
    r = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
            s = isinstance(x.value, ast.Name) and x.value.id == 'self'
            if not (s and skip_self) and not (not s and only_self):
                r.add(x.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
            if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                r.add(str(x.args[1].value))
            else:
                r.add('*')
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'add_argument':
            for a in x.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    r.add(a.value.lstrip('-').replace('-', '_'))
            for k in x.keywords:
                if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                    r.add(k.value.value)
        elif isinstance(x, ast.Call) and any(k.arg for k in x.keywords) and isinstance(x.func, (ast.Name, ast.Attribute)) and \
                (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in ('Namespace', 'SimpleNamespace', 'namedtuple'):
            r |= {k.arg for k in x.keywords if k.arg}
    return r


def class_names(c):
    r = set()
    for x in c.body:
        if isinstance(x, DEFS + (ast.ClassDef,)):
            r.add(x.name)
        elif isinstance(x, ast.Assign):
            for t in x.targets:
                r |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}
        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
            r.add(x.target.id)
    return r


def library_attrs():
    """Attributes of the objects libraries hand out (from the stubs and the standard types)."""
    if 'attrs' in _stub:
        return _stub['attrs']
    r = set()
    for t in TYPES:
        r |= set(dir(t))
    import argparse
    import array
    import collections
    import functools
    import io
    import itertools
    import json
    import pathlib
    import random
    import re
    import multiprocessing.pool
    more = []
    for x in sorted(STDLIB | {'logging', 'datetime', 'subprocess', 'textwrap', 'csv', 'types', 'threading', 'queue', 'inspect',
                              'concurrent.futures', 'dataclasses', 'collections.abc', 'tempfile', 'traceback', 'numbers', 'time'}):
        try:
            more.append(importlib.import_module(x))
        except ImportError:
            pass
    for mod in more + [multiprocessing.pool]:
        for v in list(vars(mod).values()):
            if isinstance(v, type):
                r |= set(dir(v))
    r |= set(dir(re.compile(''))) | set(dir(re.match('', ''))) | {'stdout', 'stderr', 'st_size', 'st_mtime', 'st_mode'}
    r |= set(vars(argparse.ArgumentParser())) | {'prog', 'description', 'args', 'errno', 'strerror', 'filename', 'msg', 'value'}
    found = False
    for d in STUBS:
        for lib in ('numpy', 'mpi4py', 'scipy'):
            for dp, dn, fn in os.walk(os.path.join(d, lib)):
                dn[:] = [x for x in dn if x not in ('tests', '__pycache__', '_pytesttester')]
                if lib == 'scipy' and os.path.basename(dp) not in ('scipy', 'spatial', 'interpolate', 'optimize', 'linalg'):
                    continue
                if lib == 'numpy' and os.path.basename(dp) not in ('numpy', 'linalg', '_core', 'random', 'lib', 'ma', 'polynomial'):
                    continue
                for f in fn:
                    if f.endswith('.pyi') or lib == 'scipy' and f.endswith('.py'):
                        found = True
                        try:
                            import warnings
                            with warnings.catch_warnings():
                                warnings.simplefilter('ignore')
                                t = ast.parse(open(os.path.join(dp, f), encoding='utf-8').read())
                        except (SyntaxError, OSError, UnicodeDecodeError):
                            continue
                        for n in ast.walk(t):
                            if isinstance(n, ast.ClassDef):
                                r |= class_names(n)
                        r |= stored(t)
    _stub['attrs'] = r if found else None
    return _stub['attrs']


class Attributes:
    name = 'every attribute is defined by some class it can belong to'

    def run(self, engine, root):
        cs = classes(engine)
        every, foreign = set(), set()
        for m in engine.prog.modules.values():
            every |= stored(m.tree)
            foreign |= stored(m.tree, skip_self=True)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ClassDef):
                    every |= class_names(x)
        lib = library_attrs()
        bad, n, k = [], 0, 0
        for m in modules(engine):
            al = aliases(engine, m)
            inself = set()
            guarded = guards(ast.walk(m.tree), 'AttributeError')
            for c in [x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef)]:
                fam = family(cs, c)
                if fam is None or c.decorator_list or c.keywords:
                    continue
                known = (set(dir(object)) - {'__getattribute__'}) | {'__dict__', '__annotations__'}
                for y in fam:
                    known |= class_names(y) | stored(y, only_self=True)
                if '*' in known or '__getattr__' in known or '__getattribute__' in known:
                    continue
                # object instances get further fields from outside
                known |= foreign
                for f in [y for y in c.body if isinstance(y, DEFS)]:
                    if not f.args.args or any('static' in ast.dump(d) for d in f.decorator_list):
                        continue
                    me = f.args.args[0].arg
                    if any(isinstance(z, ast.Name) and z.id == me and not isinstance(z.ctx, ast.Load) for z in ast.walk(f)):
                        continue
                    for z in ast.walk(f):
                        if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == me:
                            inself.add(z)
                            k += 1
                            if isinstance(z.ctx, ast.Load) and z.attr not in known and z not in guarded:
                                bad.append(('%s:%s.%s' % (m.name, c.name, z.attr),
                                            '%s: no %s object has the attribute %s' % (line(m, z), c.name, z.attr)))
            if lib is None or '*' in every:
                continue
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x not in inself and x not in guarded:
                    d = dotted(x)
                    if d and (d[0] in al or x.attr in ('__name__', '__doc__', '__module__')):
                        continue
                    n += 1
                    if d and d[0] in cs and len(d) == 2 and len(cs[d[0]]) == 1:
                        c = cs[d[0]][0][1]
                        fam = family(cs, c)
                        if fam is not None and not any(d[1] in class_names(y) for y in fam) and not hasattr(type, d[1]) and d[1] not in every:
                            bad.append(('%s:%s' % (m.name, '.'.join(d)), '%s: the class %s has no %s' % (line(m, x), d[0], d[1])))
                            continue
                    if x.attr not in every and x.attr not in lib:
                        bad.append(('%s:.%s' % (m.name, x.attr), '%s: no class defines the attribute %s' % (line(m, x), x.attr)))
        return result(bad, {'attributes of self': k, 'other attributes': n})


def accepts(f, call, bound):
    """None or what is wrong with the arguments."""
    a = f.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    npos = len(a.posonlyargs)
    if bound:
        if not ps and not a.vararg:
            return 'takes no arguments'
        ps = ps[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if len(call.args) > len(ps) and not a.vararg:
        return 'takes %d arguments, %d are given' % (len(ps), len(call.args))
    given = set(ps[:len(call.args)])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if k.arg not in ps and k.arg not in kwonly and not a.kwarg:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    need = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
    need = list(need) + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for p in need:
        if p not in given:
            return 'misses the argument %s' % p
    return None


def kind(f):
    for d in f.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?'
        if n in ('staticmethod', 'classmethod', 'property', 'setter', 'getter'):
            return n
        return '?'
    return ''


BUILTIN = {'append': (1, 1), 'extend': (1, 1), 'insert': (2, 2), 'keys': (0, 0), 'values': (0, 0), 'items': (0, 0),
           'remove': (1, 1), 'startswith': (1, 3), 'endswith': (1, 3), 'readlines': (0, 1), 'write': (1, 1)}


def formats(text, call):
    """What is missing for the places of a format string."""
    import string
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    kw = {k.arg for k in call.keywords}
    auto = 0
    try:
        for _, f, spec, _ in string.Formatter().parse(text):
            for g in [f] + ([y for _, y, _, _ in string.Formatter().parse(spec)] if spec else []):
                if g is None:
                    continue
                k = g.split('.')[0].split('[')[0]
                if k == '':
                    k, auto = str(auto), auto + 1
                if k.isdigit():
                    if int(k) >= len(call.args):
                        return 'has no argument %s' % k
                elif k not in kw:
                    return 'has no argument %s' % k
    except ValueError:
        return 'is no format'
    return None


class Calls:
    name = 'every call fits a definition it can reach'

    def run(self, engine, root):
        cs = classes(engine)
        methods = {}
        allstored = set()
        for m in engine.prog.modules.values():
            allstored |= stored(m.tree)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ClassDef):
                    for f in x.body:
                        if isinstance(f, DEFS):
                            methods.setdefault(f.name, []).append(f)
        lib = library_attrs() or set()
        bad, n = [], 0

        def find(c, name, seen=()):
            for f in c.body:
                if isinstance(f, DEFS) and f.name == name:
                    return f
                if name in class_names(ast.ClassDef(name='', bases=[], keywords=[], body=[f], decorator_list=[])):
                    return '?'
            for b in c.bases:
                bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                if bn == 'object':
                    continue
                if bn not in cs or len(cs[bn]) != 1 or bn in seen:
                    return '?'
                r = find(cs[bn][0][1], name, seen + (bn,))
                if r is not None:
                    return r
            return None

        def definition(m, name):
            """The one function or class behind a module level name."""
            ds = []
            for x in own(m.tree):
                if isinstance(x, DEFS + (ast.ClassDef,)) and x.name == name:
                    ds.append((m, x))
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
                    return None
                elif isinstance(x, ast.ImportFrom) and x.module:
                    for a in x.names:
                        if (a.asname or a.name) == name:
                            m2 = engine.prog.modules.get(x.module)
                            if m2 is None or m2 is m or m2.name in SKIPPED:
                                return None
                            d = definition(m2, a.name)
                            if d is None:
                                return None
                            ds.append(d)
                elif isinstance(x, ast.Import) and any((a.asname or a.name.split('.')[0]) == name for a in x.names):
                    return None
            return ds[0] if len(ds) == 1 else None

        def check(m, call, what, d, bound=False):
            nonlocal n
            if isinstance(d, ast.ClassDef):
                if d.decorator_list or family(cs, d) is None:
                    return
                f = find(d, '__init__')
                if f == '?' or find(d, '__new__') is not None:
                    return
                if f is None:
                    n += 1
                    if call.args or call.keywords:
                        bad.append((m.name + ':' + what, '%s: %s takes no arguments' % (line(m, call), what)))
                    return
                d, bound = f, True
            elif d.decorator_list and kind(d) not in ('staticmethod', 'classmethod'):
                return
            n += 1
            r = accepts(d, call, bound)
            if r:
                bad.append((m.name + ':' + what, '%s: the call of %s %s' % (line(m, call), what, r)))

        for m in modules(engine):
            al = aliases(engine, m)
            selfs = {}
            for c in [x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef)]:
                for f in [y for y in c.body if isinstance(y, DEFS)]:
                    if f.args.args and kind(f) != 'staticmethod':
                        for z in ast.walk(f):
                            selfs[z] = (c, f.args.args[0].arg)
            for s, ch in scopes(m.tree):
                local = set()
                for x in ch[1:] + (s,):
                    if x is not m.tree and not isinstance(x, ast.ClassDef):
                        local |= binds(x)[0]
                for x in own(s):
                    if not isinstance(x, ast.Call):
                        continue
                    f = x.func
                    if isinstance(f, ast.Name):
                        if f.id in local:
                            # a nested function defined once
                            ds = [y for sc in ch + (s,) if sc is not m.tree for y in own(sc)
                                  if isinstance(y, DEFS) and y.name == f.id]
                            stores = [y for sc in ch + (s,) if sc is not m.tree for y in own(sc)
                                      if isinstance(y, ast.Name) and y.id == f.id and isinstance(y.ctx, ast.Store)]
                            if len(ds) == 1 and not stores and not any(f.id in args_of(sc) for sc in ch + (s,) if isinstance(sc, DEFS + (ast.Lambda,))):
                                check(m, x, f.id, ds[0])
                            continue
                        d = definition(m, f.id)
                        if d:
                            check(m, x, f.id, d[1])
                    elif isinstance(f, ast.Attribute):
                        if isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and f.attr == 'format':
                            n += 1
                            r = formats(f.value.value, x)
                            if r:
                                bad.append((m.name + ':format', '%s: %r %s' % (line(m, x), f.value.value[:40], r)))
                            continue
                        w = dotted(f)
                        if f.attr in BUILTIN and not (w and w[0] in al) and f.attr not in methods and f.attr not in allstored and \
                                not any(isinstance(y, ast.Starred) for y in x.args) and not any(k.arg is None for k in x.keywords):
                            n += 1
                            lo, hi = BUILTIN[f.attr]
                            if not lo <= len(x.args) + len(x.keywords) <= hi:
                                bad.append((m.name + ':.' + f.attr, '%s: %s takes %d arguments, %d are given' % (
                                    line(m, x), f.attr, lo, len(x.args) + len(x.keywords))))
                            continue
                        if w and w[0] in al and w[0] not in local:
                            mod = '.'.join([al[w[0]]] + w[1:-1])
                            m2 = engine.prog.modules.get(mod)
                            if m2 is not None:
                                d = definition(m2, w[-1])
                                if d:
                                    check(m, x, '.'.join(w), d[1])
                                continue
                            m2 = engine.prog.modules.get('.'.join([al[w[0]]] + w[1:-2])) if len(w) > 2 else None
                            d = definition(m2, w[-2]) if m2 else None
                            if d and isinstance(d[1], ast.ClassDef):
                                self.of_class(check, find, m, x, d[1], w[-1], '.'.join(w))
                            continue
                        if w and len(w) == 2 and w[0] not in local:
                            d = definition(m, w[0])
                            if d and isinstance(d[1], ast.ClassDef):
                                self.of_class(check, find, m, x, d[1], w[1], '.'.join(w))
                                continue
                        c = selfs.get(x)
                        if w and len(w) == 2 and c and w[0] == c[1]:
                            g = find(c[0], w[1])
                            if isinstance(g, DEFS) and w[1] not in allstored:
                                fam = family(cs, c[0]) or ()
                                if sum(1 for y in fam for z in y.body if isinstance(z, DEFS) and z.name == w[1]) == 1 and kind(g) in ('', 'staticmethod', 'classmethod'):
                                    check(m, x, w[1], g, kind(g) != 'staticmethod')
                                    continue
                        # any object: at least one definition has to fit
                        if f.attr in methods and f.attr not in lib and f.attr not in allstored and \
                                not (w and (w[0] in al)):
                            fs = methods[f.attr]
                            if all(kind(g) in ('', 'staticmethod', 'classmethod') for g in fs):
                                n += 1
                                rs = [accepts(g, x, kind(g) != 'staticmethod') for g in fs]
                                if w and len(w) == 2 and w[0] in cs:
                                    rs += [accepts(g, x, False) for g in fs]
                                if all(rs):
                                    bad.append((m.name + ':.' + f.attr, '%s: the call of %s %s' % (line(m, x), f.attr, rs[0])))
        return result(bad, {'calls': n})

    @staticmethod
    def of_class(check, find, m, x, c, name, what):
        g = find(c, name)
        if isinstance(g, DEFS):
            check(m, x, what, g, kind(g) == 'classmethod')


class Locals:
    name = 'no local variable is read where nothing has assigned it'

    def run(self, engine, root):
        self.bad, self.n = [], 0
        nf = 0
        for m in modules(engine):
            for s, ch in scopes(m.tree):
                if isinstance(s, DEFS):
                    loc, glob = binds(s)
                    self.m, self.f, self.loc = m, s, loc - {'*'}
                    nf += 1
                    self.block(s.body, set(args_of(s)))
        return result(self.bad, {'functions': nf, 'reads of locals': self.n})

    # May analysis: env is the set of names that some path has bound; None after a jump.

    def reads(self, n, env):
        todo = [n]
        order = []
        while todo:
            x = todo.pop()
            if isinstance(x, DEFS + (ast.Lambda,)):
                order += [d for d in x.args.defaults]
                continue
            if isinstance(x, ast.ClassDef):
                continue
            order.append(x)
            if isinstance(x, COMPS):
                own_names = set()
                for g in x.generators:
                    own_names |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                self.reads(x.generators[0].iter, env)
                if isinstance(x, ast.GeneratorExp):
                    continue
                sub = env | own_names
                for g in x.generators:
                    for c in g.ifs:
                        self.reads(c, sub)
                for g in x.generators[1:]:
                    self.reads(g.iter, sub)
                for e in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                    self.reads(e, sub)
                continue
            if isinstance(x, ast.NamedExpr):
                env.add(x.target.id)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.loc:
                self.n += 1
                if x.id not in env:
                    if not any(isinstance(y, ast.NamedExpr) and y.target.id == x.id for y in ast.walk(n)):
                        self.bad.append(('%s:%s.%s' % (self.m.name, self.f.name, x.id),
                                         '%s: %s is read before anything assigns it' % (line(self.m, x), x.id)))
            todo += list(ast.iter_child_nodes(x))

    def bind(self, t, env):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env.add(x.id)
        # subscripts and attributes of the target are read
        for x in ast.walk(t):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                self.reads(x, env)

    def stored(self, body):
        r = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    r.add(x.id)
                elif isinstance(x, DEFS + (ast.ClassDef,)):
                    r.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    r |= {(a.asname or a.name).split('.')[0] for a in x.names}
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    r.add(x.name)
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    r.add(x.name)
        return r

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, DEFS + (ast.ClassDef,)):
            env = set(env)
            for d in s.decorator_list:
                self.reads(d, env)
            env.add(s.name)
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return env | self.stored([s])
        if isinstance(s, ast.Assign):
            env = set(env)
            self.reads(s.value, env)
            for t in s.targets:
                self.bind(t, env)
            return env
        if isinstance(s, ast.AnnAssign):
            env = set(env)
            if s.value is not None:
                self.reads(s.value, env)
                self.bind(s.target, env)
            return env
        if isinstance(s, ast.AugAssign):
            env = set(env)
            self.reads(s.value, env)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.loc:
                    self.n += 1
                    if s.target.id not in env:
                        self.bad.append(('%s:%s.%s' % (self.m.name, self.f.name, s.target.id),
                                         '%s: %s is read before anything assigns it' % (line(self.m, s), s.target.id)))
                env.add(s.target.id)
            else:
                self.reads(s.target, env)
            return env
        if isinstance(s, ast.If):
            env = set(env)
            self.reads(s.test, env)
            a, b = self.block(s.body, set(env)), self.block(s.orelse, set(env))
            if a is None or b is None:
                return a if b is None else b
            return a | b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            env = set(env)
            self.reads(s.iter, env)
            inner = env | self.stored(s.body)
            self.bind(s.target, inner)
            self.block(s.body, set(inner))
            out = inner
            r = self.block(s.orelse, set(out))
            return out if r is None else r | out
        if isinstance(s, ast.While):
            env = set(env)
            first = set(env)
            self.reads(s.test, first)
            inner = env | self.stored(s.body) | first
            self.block(s.body, set(inner))
            r = self.block(s.orelse, set(inner))
            if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
                return None
            return inner if r is None else r | inner
        if isinstance(s, (ast.With, ast.AsyncWith)):
            env = set(env)
            for i in s.items:
                self.reads(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, env)
            sup = env | self.stored(s.body)
            r = self.block(s.body, env)
            return sup if r is None else r
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            mid = set(env) | self.stored(s.body)
            outs = []
            a = self.block(s.body, set(env))
            if a is not None:
                a = self.block(s.orelse, a)
            if a is not None:
                outs.append(a)
            for h in s.handlers:
                e = set(mid)
                if h.name:
                    e.add(h.name)
                r = self.block(h.body, e)
                if r is not None:
                    outs.append(r)
            allv = set(mid)
            for o in outs:
                allv |= o
            for h in s.handlers:
                allv |= self.stored(h.body)
            r = self.block(s.finalbody, set(allv))
            if not outs or r is None:
                return None
            res = set()
            for o in outs:
                res |= o
            return res | self.stored(s.finalbody)
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.reads(s.value, set(env))
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.reads(x, set(env))
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, (ast.Expr, ast.Assert)):
            env = set(env)
            for x in ast.iter_child_nodes(s):
                self.reads(x, env)
            return env
        if isinstance(s, ast.Delete):
            env = set(env)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.discard(t.id)
                else:
                    self.reads(t, env)
            return env
        if isinstance(s, ast.Match):
            env = set(env)
            self.reads(s.subject, env)
            outs = [set(env)]
            for c in s.cases:
                e = set(env) | self.stored([c.pattern])
                if c.guard is not None:
                    self.reads(c.guard, e)
                r = self.block(c.body, e)
                if r is not None:
                    outs.append(r)
            return set().union(*outs)
        return set(env)


RULES = [Names(), Members(), Attributes(), Calls(), Locals()]


class Assigned:
    """A variable that only one branch of a plain condition assigns must not be read right after it.

    Only straight-line reads count: behind another condition, a loop or a jump the paths may exclude each other."""
    name = 'no variable of one branch is read after the branches have met'

    def run(self, engine, root):
        bad, n, nf = [], 0, 0
        for m in modules(engine):
            for s, ch in scopes(m.tree):
                if not isinstance(s, DEFS):
                    continue
                nf += 1
                for b in blocks(s):
                    for k, st in enumerate(b):
                        if not isinstance(st, ast.If) or has_jump(st) or st.orelse and len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
                            continue
                        x, y = sure(st.body), sure(st.orelse)
                        names = (x ^ y) - (plain(st.body) & plain(st.orelse))
                        names -= assigned_before(s, st)
                        for v in sorted(names):
                            n += 1
                            for t in b[k + 1:]:
                                r = straight(t, v)
                                if r == 'read':
                                    bad.append(('%s:%s.%s' % (m.name, s.name, v),
                                                '%s: %s is read, but only one branch at line %d assigns it' % (line(m, t), v, st.lineno)))
                                if r:
                                    break
        return result(bad, {'functions': nf, 'one-branch variables': n})


def blocks(f):
    """Statement lists of the function itself."""
    todo = [f.body]
    while todo:
        b = todo.pop()
        yield b
        for s in b:
            if isinstance(s, DEFS + (ast.ClassDef,)):
                continue
            for n in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, n, None), list):
                    todo.append(getattr(s, n))
            for h in getattr(s, 'handlers', ()) or ():
                todo.append(h.body)
            for c in getattr(s, 'cases', ()) or ():
                todo.append(c.body)


def has_jump(n):
    return any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield)) or
               isinstance(x, ast.Call) and (dotted(x.func) or ['?'])[-1] in ('exit', '_exit', 'quit', 'abort') for x in ast.walk(n))


def plain(body):
    """Names that some statement in the block binds."""
    return Locals().stored(body)


def sure(body):
    """Names bound by the simple assignments of the block itself."""
    r = set()
    for s in body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []):
                    if isinstance(x, ast.Name):
                        r.add(x.id)
    return r


def assigned_before(f, st):
    """Names with any other binding in the function: arguments, outer names, bindings outside the condition."""
    r = set(args_of(f)) | binds(f)[1]
    inside = set(ast.walk(st))
    for x in own(f):
        if x in inside:
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            r.add(x.id)
        elif isinstance(x, DEFS + (ast.ClassDef,)):
            r.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            r |= {(a.asname or a.name).split('.')[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            r.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            r.add(x.name)
        elif isinstance(x, COMPS):
            r |= {y.target.id for y in ast.walk(x) if isinstance(y, ast.NamedExpr)}
    return r


def straight(t, v):
    """'read' when the statement surely reads the name, 'stop' when nothing can be said behind it."""
    if isinstance(t, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return)):
        if t.value is not None and surely(t.value, v):
            return 'read'
        if isinstance(t, ast.Return):
            return 'stop'
        return 'stop' if has_jump(t) else None
    if isinstance(t, (ast.If, ast.While)):
        if surely(t.test, v):
            return 'read'
        return 'stop' if has_jump(t) else None
    if isinstance(t, ast.For):
        if surely(t.iter, v):
            return 'read'
        return 'stop' if has_jump(t) else None
    if isinstance(t, (ast.Pass, ast.Import, ast.ImportFrom)):
        return None
    return 'stop'


def surely(e, v):
    """The evaluation of the expression always reads the name."""
    if isinstance(e, ast.Name):
        return e.id == v and isinstance(e.ctx, ast.Load)
    if isinstance(e, ast.BoolOp):
        return surely(e.values[0], v)
    if isinstance(e, ast.IfExp):
        return surely(e.test, v)
    if isinstance(e, (ast.Lambda,)):
        return False
    if isinstance(e, COMPS):
        return surely(e.generators[0].iter, v)
    return any(surely(x, v) for x in ast.iter_child_nodes(e))


RULES = RULES + [Assigned()]


# ---- attributes of objects whose class is known from the declared field types

from . import decl      # noqa: E402


def signatures(engine):
    """(module, qualified function name) -> {parameter: type} from the annotations of the references"""
    from .engine import parse_type
    r = {}
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py'):
            continue
        for x in ast.parse(open(os.path.join(d, f), encoding='utf-8').read()).body:
            if isinstance(x, ast.FunctionDef):
                for c in x.decorator_list:
                    if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and ':' in str(c.args[0].value):
                        m, q = c.args[0].value.split(':')
                        for a in x.args.args:
                            if isinstance(a.annotation, ast.Constant) and isinstance(a.annotation.value, str):
                                r.setdefault((m, q), {})[a.arg] = parse_type(a.annotation.value)
    return r


class Typed:
    """Classes of local expressions, from constructors, annotations and the declared types of the fields."""

    def __init__(self, engine, m, al):
        self.engine, self.m, self.al = engine, m, al
        if '_sigs' not in engine.__dict__:
            engine._sigs = signatures(engine)

    def cls_named(self, n):
        """O(class) of a class expression"""
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return None
        d = dotted(n)
        if not d:
            return None
        prog = self.engine.prog
        if len(d) == 1:
            return self.of_module(self.m, d[0], 0)
        if d[0] in self.al:
            m2 = prog.modules.get('.'.join([self.al[d[0]]] + d[1:-1]))
            if m2 is not None:
                return self.of_module(m2, d[-1], 0)
        return None

    def of_module(self, m, name, depth):
        if depth > 5:
            return None
        for x in m.tree.body:
            if isinstance(x, ast.ClassDef) and x.name == name:
                return ('obj', self.engine.prog.tag(m, name))
            if isinstance(x, ast.ImportFrom) and x.module:
                for a in x.names:
                    if (a.asname or a.name) == name:
                        m2 = self.engine.prog.modules.get(x.module)
                        return self.of_module(m2, a.name, depth + 1) if m2 else None
        return None

    def elem(self, t):
        if t and t[0] in ('list', 'set'):
            return t[1]
        if t and t[0] == 'flist':
            return t[2]
        return None

    def ex(self, n, env):
        t = self.ex1(n, env)
        while isinstance(t, tuple) and t[0] == 'opt':
            t = t[1]
        return t if isinstance(t, tuple) else None

    def ex1(self, n, env):
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Attribute):
            b = self.ex(n.value, env)
            return decl.FIELDS.get(b[1], {}).get(n.attr) if b and b[0] == 'obj' else None
        if isinstance(n, ast.Subscript):
            b = self.ex(n.value, env)
            if isinstance(n.slice, ast.Slice):
                return ('list', self.elem(b)) if self.elem(b) else None
            if b and b[0] == 'tuple' and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and 0 <= n.slice.value < len(b) - 1:
                return b[1 + n.slice.value]
            return self.elem(b)
        if isinstance(n, ast.IfExp):
            a, b = self.ex(n.body, env), self.ex(n.orelse, env)
            return a if a == b else None
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            e = self.ex(n.elt, self.comp_env(n, env))
            return ('list', e) if e else None
        if isinstance(n, (ast.List, ast.Tuple)):
            ts = [self.ex(x, env) for x in n.elts]
            if isinstance(n, ast.Tuple):
                return ('tuple',) + tuple(ts)
            return ('list', ts[0]) if ts and ts[0] and all(t == ts[0] for t in ts) else None
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('list', 'sorted', 'reversed', 'tuple', 'deepcopy') and n.args:
                t = self.ex(n.args[0], env)
                return t if f.id == 'deepcopy' else (('list', self.elem(t)) if self.elem(t) else None)
            if isinstance(f, ast.Name) and f.id == 'filter' and len(n.args) == 2:
                t = self.elem(self.ex(n.args[1], env))
                return ('list', t) if t else None
            if isinstance(f, ast.Name) and f.id == 'enumerate' and n.args:
                t = self.elem(self.ex(n.args[0], env))
                return ('list', ('tuple', 'int', t)) if t else None
            if isinstance(f, ast.Name) and f.id in env:
                return None
            c = self.cls_named(f)
            if c:
                return c
            if isinstance(f, ast.Attribute):
                b = self.ex(f.value, env)
                if b and b[0] == 'obj':
                    return decl.CALLS.get('%s.%s' % (b[1], f.attr))
                b = self.cls_named(f.value)
                if b:
                    return decl.CALLS.get('%s.%s' % (b[1], f.attr))
        return None

    def comp_env(self, n, env):
        env = dict(env)
        for g in n.generators:
            self.bind(g.target, self.elem(self.ex(g.iter, env)), lambda k, t: env.__setitem__(k, t))
        return env

    def bind(self, t, ty, put):
        while isinstance(ty, tuple) and ty[0] == 'opt':
            ty = ty[1]
        if isinstance(t, ast.Name):
            put(t.id, ty)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for j, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, None, put)
                elif ty and ty[0] == 'tuple' and j < len(ty) - 1:
                    self.bind(x, ty[1 + j], put)
                else:
                    self.bind(x, self.elem(ty) if isinstance(ty, tuple) and ty[0] != 'tuple' else None, put)

    def env(self, scope, outer, cls):
        """Types of the names of a function: those all of whose bindings have the same class."""
        env = dict(outer)
        args = set()
        if isinstance(scope, DEFS + (ast.Lambda,)):
            for a in scope.args.posonlyargs + scope.args.args + scope.args.kwonlyargs:
                env[a.arg] = self.cls_named(a.annotation) if a.annotation is not None else None
                args.add(a.arg)
            if isinstance(scope, DEFS):
                for k, t in self.engine._sigs.get((self.m.name, (cls.name + '.' if cls else '') + scope.name), {}).items():
                    while isinstance(t, tuple) and t[0] == 'opt':
                        t = t[1]
                    if k in args and isinstance(t, tuple):
                        env[k] = t
            for a in (scope.args.vararg, scope.args.kwarg):
                if a:
                    env[a.arg] = None
            if cls and isinstance(scope, DEFS) and scope.args.args and kind(scope) not in ('staticmethod', 'classmethod'):
                env[scope.args.args[0].arg] = ('obj', self.engine.prog.tag(self.m, cls.name))
        bs = []
        for x in own(scope):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    bs.append((t, 'val', x.value))
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                bs.append((x.target, 'unknown', None))
            elif isinstance(x, (ast.For, ast.AsyncFor)):
                bs.append((x.target, 'iter', x.iter))
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                bs.append((x.optional_vars, 'unknown', None))
            elif isinstance(x, ast.NamedExpr):
                bs.append((x.target, 'unknown', None))
        names = binds(scope)[0] - args
        for k in names:
            env[k] = None
        done = {}
        for _ in range(6):
            new, seen = {}, set()

            def put(k, t):
                if k in seen and new.get(k) != t:
                    new[k] = 'mixed'
                elif k not in seen:
                    new[k] = t
                seen.add(k)
            for t, how, v in bs:
                if how == 'val':
                    if isinstance(v, ast.Constant) and v.value is None and isinstance(t, ast.Name):
                        continue
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
                        for a, b in zip(t.elts, v.elts):
                            self.bind(a, self.ex(b, env), put)
                    else:
                        self.bind(t, self.ex(v, env), put)
                elif how == 'iter':
                    self.bind(t, self.elem(self.ex(v, env)), put)
                else:
                    self.bind(t, None, put)
            for k, t in new.items():
                if k in args:
                    t = t if t == env.get(k) else None
                env[k] = t if isinstance(t, tuple) else None
            if env == done:
                break
            done = dict(env)
        return env

    def walk(self, visit):
        def go(scope, outer, cls, inclass):
            env = self.env(scope, outer, cls) if not isinstance(scope, COMPS + (ast.ClassDef,)) else \
                self.comp_env(scope, outer) if isinstance(scope, COMPS) else dict(outer)
            for x in own(scope):
                if isinstance(x, ast.Attribute):
                    visit(x, self.ex(x.value, env))
                if isinstance(x, ast.ClassDef):
                    go(x, {}, None, x)
                elif isinstance(x, DEFS):
                    go(x, env if not isinstance(scope, (ast.Module, ast.ClassDef)) else {}, scope if isinstance(scope, ast.ClassDef) else None, None)
                elif isinstance(x, (ast.Lambda,) + COMPS):
                    go(x, env, None, None)
        go(self.m.tree, {}, None, None)


class OfClass:
    name = 'every attribute belongs to the class of its object'

    def run(self, engine, root):
        cs = classes(engine)
        owner = {}
        for l in cs.values():
            for m, c in l:
                owner[engine.prog.tag(m, c.name)] = c
        uses, foreign, anon = [], {}, set()
        for m in engine.prog.modules.values():
            if m.name in SKIPPED or m not in modules(engine):
                continue
            guarded = guards(ast.walk(m.tree), 'AttributeError')

            def visit(x, t):
                if isinstance(x.ctx, ast.Store):
                    if t and t[0] == 'obj':
                        foreign.setdefault(t[1], set()).add(x.attr)
                    else:
                        anon.add(x.attr)
                elif t and t[0] == 'obj' and x not in guarded:
                    uses.append((m, x, t[1]))
            Typed(engine, m, aliases(engine, m)).walk(visit)
            anon |= {n for n in stored(m.tree) if n == '*'}
        t = engine.prog.modules.get('test')
        bad = []
        for m, x, c in uses:
            if c not in owner:
                continue
            fam = family(cs, owner[c])
            if fam is None or '*' in anon:
                continue
            known = set(dir(object)) | {'__dict__'} | anon
            for y in fam:
                known |= class_names(y) | stored(y, only_self=True)
                for k, o in owner.items():
                    if o is y:
                        known |= foreign.get(k, set())
            if x.attr not in known:
                bad.append(('%s:%s.%s' % (m.name, c, x.attr), '%s: %s objects have no attribute %s' % (line(m, x), c, x.attr)))
        return result(bad, {'attributes of objects of known classes': len(uses)})


RULES.append(OfClass())
