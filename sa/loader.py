"""
Program loader: the modules of /repo/crysgsu as syntax trees, with names resolved to definitions.

Nothing is imported or executed: the files are parsed.
"""

import ast
import builtins
import os

from . import cxx


class Module:
    def __init__(self, name, path, tree, is_pkg=False):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.env = None         # set by the interpreter

    def __repr__(self):
        return 'Module(%s)' % self.name


class Fn:
    """Function, method, lambda."""

    def __init__(self, node, module, cls=None, kind='fn', qual=None, frame=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind            # fn, method, static, class, prop, setter, lambda
        self.qual = qual or getattr(node, 'name', '<lambda>')
        self.frame = frame          # (frame id, environment) for closures

    def loc(self):
        return '%s:%d' % (self.module.path, self.node.lineno)

    def __repr__(self):
        return 'Fn(%s.%s)' % (self.module.name, self.qual)


class Cls:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.bases = []
        self.attrs = {}             # name -> Fn | ('expr', ast)
        self.setters = {}
        self.values = {}

    def find(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            r = b.find(name)
            if r is not None:
                return r
        return None

    def find_setter(self, name):
        if name in self.setters:
            return self.setters[name]
        for b in self.bases:
            r = b.find_setter(name)
            if r is not None:
                return r
        return None

    def mro_names(self):
        r = [self.name]
        for b in self.bases:
            r += b.mro_names()
        return r

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Ext:
    """External module, function, class (dotted name)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


SKIP = ('test.py',)


class Program:
    def __init__(self, root='/repo/crysgsu'):
        self.root = root
        self.modules = {}
        self.errors = []
        self.bound = {}
        self.index = None
        self.mention = {}
        self._scan()

    def _scan(self):
        for d in ('', 'geom', 'gsu', 'phys', 'convert'):
            p = os.path.join(self.root, d)
            if not os.path.isdir(p):
                continue
            for f in sorted(os.listdir(p)):
                if not f.endswith('.py') or (d == '' and f in SKIP):
                    continue
                path = os.path.join(p, f)
                if f == '__init__.py':
                    name = d
                elif d in ('', 'convert'):
                    name = f[:-3]
                else:
                    name = d + '.' + f[:-3]
                self.add(name, path, is_pkg=(f == '__init__.py'))
        for pk in ('geom', 'gsu', 'phys'):
            if pk not in self.modules and os.path.isdir(os.path.join(self.root, pk)):
                self.modules[pk] = Module(pk, os.path.join(self.root, pk), ast.parse(''), True)

    def add(self, name, path, is_pkg=False):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
        except SyntaxError as e:
            self.errors.append((path, str(e)))
            return None
        m = Module(name, path, tree, is_pkg)
        self.modules[name] = m
        return m

    def add_cxx(self, name):
        path = os.path.join(self.root, 'cpp', 'src', name.split('.')[1] + '.cpp')
        tree = cxx.load(path) if os.path.exists(path) else None
        if tree is not None:
            self.modules[name] = Module(name, path, tree)
            self.index = None

    def mentions(self, fn):
        """Attribute names in the function and in all functions it may call (by name)."""
        if self.index is None:
            self.index = {}
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef):
                        self.index.setdefault(n.name, []).extend(x for x in n.body if isinstance(x, ast.FunctionDef)
                                                                 and x.name == '__init__')
                    elif isinstance(n, ast.FunctionDef):
                        self.index.setdefault(n.name, []).append(n)
        k = fn.node
        if k not in self.mention:
            seen, todo, names = {id(k)}, [k], set()
            while todo:
                for n in ast.walk(todo.pop()):
                    r = None
                    if isinstance(n, ast.Attribute):
                        names.add(n.attr)
                        r = n.attr
                    elif isinstance(n, ast.Name):
                        r = n.id
                    elif isinstance(n, ast.Subscript):
                        r = '__getitem__' if isinstance(n.ctx, ast.Load) else '__setitem__'
                    for x in self.index.get(r, ()):
                        if id(x) not in seen:
                            seen.add(id(x))
                            todo.append(x)
            self.mention[k] = names
        return self.mention[k]

    def tag(self, module, name):
        """Unique name of a class: classes of the packages have priority over those of the scripts."""
        owners = [m for m in self.modules.values()
                  if any(isinstance(s, ast.ClassDef) and s.name == name for s in m.tree.body)]
        owners.sort(key=lambda m: ('.' not in m.name, m.name))
        if not owners or owners[0] is module:
            return name
        return module.name + '.' + name

    def unbound(self, m, fn, name):
        """No statement of the module ever binds the name."""
        if name.startswith('$') or hasattr(builtins, name):
            return False
        if m not in self.bound:
            self.bound[m] = module_names(m.tree)
        b = set(self.bound[m])
        q = fn.qual.split('.')[-1] if fn is not None else None
        for f in function_chain(m.tree, ()):
            if q is None or any(x.name == q for x in f):
                for x in f:
                    b |= bound_names(x)
        return '*' not in b and name not in b and not (name.startswith('__') and name.endswith('__'))

    def rel(self, path):
        return os.path.relpath(path, os.path.dirname(self.root))


def function_chain(n, chain):
    """Chains of nested functions."""
    for x in ast.iter_child_nodes(n):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield chain + (x,)
            yield from function_chain(x, chain + (x,))
        else:
            yield from function_chain(x, chain)


def module_names(tree):
    """Names bound in the scope of the module."""
    r = set()

    def walk(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                r.add(x.name)
                for y in ast.walk(x):
                    if isinstance(y, ast.Global):
                        r.update(y.names)
            else:
                r.update(binds(x))
                walk(x)
    walk(tree)
    return r


def bound_names(tree):
    r = set()
    for x in ast.walk(tree):
        r |= binds(x)
    return r


def binds(x):
    r = set()
    for x in [x]:
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            r.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r.add(x.name)
        elif isinstance(x, ast.arg):
            r.add(x.arg)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            r |= {(a.asname or a.name).split('.')[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            r.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            r.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            r |= set(x.names)
    return r


def make_class(node, module, resolve_base, tag=None):
    c = Cls(tag or node.name, node, module)
    for b in node.bases:
        r = resolve_base(b)
        if isinstance(r, Cls):
            c.bases.append(r)
    for s in node.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kind = 'method'
            setter = False
            for d in s.decorator_list:
                if isinstance(d, ast.Name) and d.id == 'staticmethod':
                    kind = 'static'
                elif isinstance(d, ast.Name) and d.id == 'classmethod':
                    kind = 'class'
                elif isinstance(d, ast.Name) and d.id == 'property':
                    kind = 'prop'
                elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                    setter = True
                    kind = 'setter'
            f = Fn(s, module, c, kind, c.name + '.' + s.name)
            if setter:
                c.setters[s.name] = f
            else:
                c.attrs[s.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    c.attrs[t.id] = ('expr', s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            c.attrs[s.target.id] = ('expr', s.value)
    return c
