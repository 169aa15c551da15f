"""
Cutting a function at a loop.

The function is divided into the part around the loop, in which the loop is one unknown step on the loop variables and the
receiver, and one iteration of the loop as a function of its loop variables.  Two functions are equal if the parts
around are equal and, for every state at the head of the loop, the iterations are equal (induction over the iterations).
"""

import ast
import copy
import itertools

from .loader import bound_names

STOP = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)


class NoLoop(Exception):
    pass


def find_loop(stmts, kind, out):
    for s in stmts:
        if isinstance(s, kind):
            out.append((s, stmts))
            continue
        if isinstance(s, (ast.For, ast.While) + STOP):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            find_loop(getattr(s, f, []), kind, out)
        for h in getattr(s, 'handlers', []):
            find_loop(h.body, kind, out)


class Exposed:
    """Names that may be read before they are assigned."""

    def __init__(self):
        self.names = []

    def read(self, e, have):
        """Loads of an expression, except the variables of its own comprehensions and lambdas."""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in have and e.id not in self.names:
                self.names.append(e.id)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(have)
            for g in e.generators:
                self.read(g.iter, h)
                h |= bound_names(g.target)
                for c in g.ifs:
                    self.read(c, h)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.read(x, h)
            return
        if isinstance(e, ast.Lambda):
            self.read(e.body, set(have) | {a.arg for a in e.args.args})
            return
        for x in ast.iter_child_nodes(e):
            self.read(x, have)

    def target(self, t, have):
        if isinstance(t, ast.Name):
            have.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, have)
        elif isinstance(t, ast.Starred):
            self.target(t.value, have)
        else:
            self.read(t, have)
            for x in ast.iter_child_nodes(t):
                self.read(x, have)

    def block(self, stmts, have):
        """Names assigned on every way through; None if there is no way through."""
        for s in stmts:
            have = self.stmt(s, have)
            if have is None:
                return None
        return have

    def meet(self, a, b):
        return b if a is None else a if b is None else a & b

    def stmt(self, s, have):
        have = set(have)
        if isinstance(s, ast.If):
            self.read(s.test, have)
            return self.meet(self.block(s.body, have), self.block(s.orelse, have))
        if isinstance(s, ast.While):
            self.read(s.test, have)
            self.block(s.body, have)
            self.block(s.orelse, have)
            return have
        if isinstance(s, ast.For):
            self.read(s.iter, have)
            h = set(have)
            self.target(s.target, h)
            h = self.block(s.body, h)
            self.block(s.orelse, have)
            if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
                    and len(s.iter.args) == 1 and isinstance(s.iter.args[0], ast.Constant) and s.iter.args[0].value > 0 \
                    and h is not None and not any(isinstance(x, (ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
                return h
            return have
        if isinstance(s, ast.With):
            for i in s.items:
                self.read(i.context_expr, have)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, have)
            return self.block(s.body, have)
        if isinstance(s, ast.Try):
            b = self.block(s.body, have)
            for h in s.handlers:
                self.block(h.body, have)
            if b is not None:
                b = self.block(s.orelse, b)
            self.block(s.finalbody, have)
            return have if b is not None and s.handlers else b
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.read(x, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assign):
            self.read(s.value, have)
            for t in s.targets:
                self.target(t, have)
            return have
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), have)
            self.read(s.value, have)
            self.target(s.target, have)
            return have
        if isinstance(s, ast.AnnAssign):
            self.read(s.value, have)
            if s.value is not None:
                self.target(s.target, have)
            return have
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
            return have
        for x in ast.iter_child_nodes(s):
            self.read(x, have)
        return have


def by_items(s):
    """for i in range(len(x)) that uses i for x[i] only -> for item in x."""
    if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call)
            and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1
            and isinstance(s.iter.args[0], ast.Call) and isinstance(s.iter.args[0].func, ast.Name)
            and s.iter.args[0].func.id == 'len' and len(s.iter.args[0].args) == 1
            and isinstance(s.iter.args[0].args[0], ast.Name)):
        return
    i, x = s.target.id, s.iter.args[0].args[0].id

    def item(n):
        return isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
            and n.value.id == x and isinstance(n.slice, ast.Name) and n.slice.id == i
    uses = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id in (x, i)]
    if len(uses) != 2 * len([n for b in s.body for n in ast.walk(b) if item(n)]):
        return

    class R(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if item(n):
                return ast.copy_location(ast.Name('$of ' + x, ast.Load()), n)
            self.generic_visit(n)
            return n
    s.body = [R().visit(b) for b in s.body]
    s.target = ast.copy_location(ast.Name('$of ' + x, ast.Store()), s.target)
    s.iter = s.iter.args[0].args[0]


class Cut:
    def __init__(self, node, kind):
        node = copy.deepcopy(node)
        out = []
        find_loop(node.body, ast.While if kind == 'while' else ast.For, out)
        if len(out) != 1:
            raise NoLoop('%d loops' % len(out))
        self.node = node
        self.loop, self.block = out[0]
        by_items(self.loop)
        self.params = [a.arg for a in node.args.args]
        if self.loop.orelse or any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal,
                                                       ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
                                   for x in ast.walk(self.loop)):
            raise NoLoop('loop with return')
        local = set(self.params)
        for s in node.body:
            local |= bound_names(s)
        stored = set()
        for s in self.loop.body:
            stored |= bound_names(s)
        e = Exposed()
        have = set()
        if kind == 'while':
            e.read(self.loop.test, have)
        else:
            e.target(self.loop.target, have)
        e.block(self.loop.body, have)
        after = self.after()
        vs = [n for n in e.names if n in local] + [n for n in after if n in stored and n in local and n not in e.names]
        bare = [n for n in self.params if not any(n in bound_names(s) for s in node.body)]
        self.vars = [n for n in vs if n not in bare]
        self.fixed = bare
        self.kind = kind
        # variables without a value before the loop
        first = set(self.params) | {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                                    and not any(n is m for m in ast.walk(self.loop))}
        self.unset = [n for n in self.vars if n not in first]

    def unset_stmts(self, loop):
        return [at(loop, ast.Assign([ast.Name(n, ast.Store())], ast.Constant('no value'))) for n in self.unset]

    def after(self):
        """Names the rest of the function reads."""
        e = Exposed()

        def walk(stmts):
            for k, s in enumerate(stmts):
                if s is self.loop:
                    return True, e.block(stmts[k + 1:], set())
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, [])
                    if isinstance(b, list) and b and not isinstance(s, STOP):
                        x = walk(b)
                        if x is not None:
                            return True, (e.block(stmts[k + 1:], x[1]) if x[1] is not None else None)
            return None
        walk(self.node.body)
        return e.names

    def probe(self):
        """The function up to the loop, which returns the loop variables."""
        node = copy.deepcopy(self.node)
        out = []
        find_loop(node.body, type(self.loop), out)
        loop, block = out[0]
        k = block.index(loop)
        block[k:] = self.unset_stmts(loop) + [at(loop, ast.Return(tup(self.vars)))]
        return ast.fix_missing_locations(node)

    def outer(self, order):
        node = copy.deepcopy(self.node)
        out = []
        find_loop(node.body, type(self.loop), out)
        loop, block = out[0]
        names = self.fixed + order
        args = [ast.Name(n, ast.Load()) for n in names]
        if self.kind == 'for':
            args.append(loop.iter)
        call = ast.Call(ast.Name('CUT', ast.Load()), [ast.Constant(len(self.fixed))] + args, [])
        t = ast.Tuple([ast.Name(n, ast.Store()) for n in order] + [ast.Name('$cut', ast.Store())], ast.Store())
        k = block.index(loop)
        block[k:k + 1] = self.unset_stmts(loop) + [at(loop, ast.Assign([t], call))]
        return ast.fix_missing_locations(node)

    def body(self, order, inv=None):
        loop = copy.deepcopy(self.loop)
        end = [inv_check(inv)] if inv else []

        def leave(word, names):
            return ast.Return(ast.Tuple([ast.Constant(word), tup(names)], ast.Load()))

        def conv(stmts):
            r = []
            for s in stmts:
                if isinstance(s, (ast.Continue, ast.Break)):
                    r += copy.deepcopy(end) + [at(s, leave('next' if isinstance(s, ast.Continue) else 'break', order))]
                    continue
                if not isinstance(s, (ast.For, ast.While)):
                    for f in ('body', 'orelse', 'finalbody'):
                        b = getattr(s, f, None)
                        if isinstance(b, list) and b:
                            setattr(s, f, conv(b))
                    for h in getattr(s, 'handlers', []):
                        h.body = conv(h.body)
                r.append(s)
            return r
        pre, extra = [], []
        if inv:
            pre.append(ast.Expr(ast.Call(ast.Name('REQUIRE', ast.Load()), [ast.parse(inv, mode='eval').body], [])))
        if self.kind == 'while':
            pre.append(ast.If(ast.UnaryOp(ast.Not(), loop.test), [leave('stop', [])], []))
        else:
            extra = ['$item']
            pre.append(ast.Assign([loop.target], ast.Name('$item', ast.Load())))
        body = pre + conv(loop.body) + copy.deepcopy(end) + [leave('next', order)]
        f = ast.FunctionDef(self.node.name, ast.arguments([], [ast.arg(n) for n in self.fixed + order + extra], None, [], [], None, []),
                            body, [])
        f.lineno = loop.lineno
        f.col_offset = 0
        for s in ast.walk(f):
            if not hasattr(s, 'lineno') and isinstance(s, (ast.stmt, ast.expr, ast.arg)):
                s.lineno, s.col_offset = loop.lineno, 0
                s.end_lineno, s.end_col_offset = loop.lineno, 0
        return f


def inv_check(inv):
    return ast.If(ast.UnaryOp(ast.Not(), ast.parse(inv, mode='eval').body),
                  [ast.Raise(ast.Call(ast.Name('Exception', ast.Load()), [ast.Constant('invariant')], []), None)], [])


def at(old, new):
    ast.copy_location(new, old)
    return ast.fix_missing_locations(new)


def tup(names):
    return ast.Tuple([ast.Name(n, ast.Load()) for n in names], ast.Load())


class Kind:
    """Type and first value of a loop variable."""

    def __init__(self, t, first):
        self.type, self.first = t, first


def orders(spec_vars, spec_kinds, impl_vars, impl_kinds, limit=48):
    """Assignments of the implementation's variables to the variables of the reference."""
    out = []

    def go(k, used, cur):
        if len(out) > limit:
            return
        if k == len(spec_vars):
            out.append(list(cur))
            return
        p = spec_kinds[k]
        cs = [(q.first is not p.first, n != spec_vars[k], m) for m, (n, q) in enumerate(zip(impl_vars, impl_kinds))]
        for _, _, m in sorted(cs):
            n, q = impl_vars[m], impl_kinds[m]
            if n not in used and fits(p.type, q.type):
                go(k + 1, used | {n}, cur + [n])
    go(0, frozenset(), [])
    return out


def fits(a, b):
    return a == b or '?' in (a, b) or {a, b} <= {'int', 'num'}
