"""
Analysis of the reference functions against the functions of the repository.
"""

import ast
import signal
import os

from . import terms as tm
from .terms import raw, ite, AND, OR, NOT, TRUE, FALSE, NONE, const, typ, sym
from . import heap as hp
from . import decl as ty
from . import interp as I
from .interp import Interp, St, Out, merge_outs, Unsupported, tup
from .loader import Program, Module, Fn, Cls
from . import cut
from .compare import equalities, Comparer, Summary, Mismatch, Undecided


class Missing(Exception):
    """The anchor of a property is gone."""


def parse_type(s):
    """'num', 'int', 'Vect', '[Vect]', '[Vect:3]', 'Vect?', '{str:num}', '(num,num)'"""
    s = s.strip()
    if s.endswith('?'):
        return ('opt', parse_type(s[:-1]))
    if s in ('num', 'int', 'str', 'bool', 'nd', 'fun'):
        return s
    if s == 'file':
        return ('obj', 'file')
    if s in ('any', '?'):
        return '?'
    if s.startswith('['):
        b = s[1:-1]
        if ':' in b and not b.startswith(('[', '{', '(')):
            t, n = b.rsplit(':', 1)
            return ('flist', int(n), parse_type(t))
        return ('list', parse_type(b))
    if s.startswith('{'):
        k, v = split_top(s[1:-1], ':')
        return ('dict', parse_type(k), parse_type(v))
    if s.startswith('('):
        return ('tuple',) + tuple(parse_type(x) for x in split_top(s[1:-1], ','))
    return ('obj', s)


def split_top(s, sep):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '[({':
            d += 1
        if ch in '])}':
            d -= 1
        if ch == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


class Spec:
    def __init__(self, fn, target, props, opts):
        self.fn = fn
        self.target = target
        self.props = props
        self.opts = opts


def compact(f, ls):
    """One layer for each object of the initial heap."""
    keys = []
    for l in ls:
        if l.op not in ('hset', 'happ') or l.args[0] is not TRUE or l.args[1].op != 'new' or l.args[1].args[2] != ():
            return ls
        if l.args[1] not in keys:
            keys.append(l.args[1])
    return tuple(hp.hset(TRUE, k, hp.apply_layers(f, k, ls, k)) for k in keys)


class Engine:
    def __init__(self, root='/repo/crysgsu', specdir=None):
        self.prog = Program(root)
        self.it = Interp(self.prog)
        self.pending = None
        self.specs = []
        self.variants = []
        for m in list(self.prog.modules.values()):
            self.it.module_env(m)
        self.it.heap0 = {f: compact(f, ls) for f, ls in self.it.heap0.items()}
        self.specdir = specdir or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
        I.LAZY['NEW'] = lazy_new
        I.LAZY['REQUIRE'] = lazy_require
        I.LAZY['CUT'] = lazy_cut
        I.BUILTINS.update({'NEW', 'REQUIRE', 'CUT'})

    def load_specs(self, name):
        path = os.path.join(self.specdir, name + '.py')
        m = self.prog.add('spec_' + name, path)
        if m is None:
            raise RuntimeError('spec %s: %s' % (name, self.prog.errors))
        self.it.module_env(m)
        res = []
        names = {}

        def value(x):
            return names[x.id] if isinstance(x, ast.Name) else ast.literal_eval(x)
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id.isupper():
                names[s.targets[0].id] = ast.literal_eval(s.value)
            if not isinstance(s, ast.FunctionDef):
                continue
            for d in s.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'of':
                    a = [ast.literal_eval(x) for x in d.args]
                    k = {x.arg: value(x.value) for x in d.keywords}
                    (self.variants if k.get('variant') else res).append(Spec(Fn(s, m), a[0], a[1:], k))
        self.specs += res
        return res

    def find(self, target):
        mod, qual = target.split(':')
        if mod.startswith('cpp.') and mod not in self.prog.modules:
            self.prog.add_cxx(mod)
        m = self.prog.modules.get(mod)
        if m is None:
            raise Missing('module %s' % mod)
        env = self.it.module_env(m)
        if qual == '__main__':
            for b in m.tree.body:
                if I.is_main_part(b):
                    return Fn(main_function(b), m, None, 'fn', '__main__')
            raise Missing(target)
        if qual.startswith('='):
            if qual[1:] not in env:
                raise Missing(target)
            return Fn(ast.parse('def data():\n    return %s\n' % qual[1:]).body[0], m, None, 'fn', qual)
        ps = qual.split('.')
        v = env.get(ps[0])
        o = self.it.obj(v) if v is not None else None
        if o is None:
            raise Missing(target)
        for p in ps[1:]:
            if isinstance(o, Fn):
                o = self.nested(o, p) or self.it.obj(env.get(p))
                if o is None:
                    raise Missing(target)
                continue
            if not isinstance(o, Cls):
                raise Missing(target)
            if p.endswith('!'):
                o = o.find_setter(p[:-1])
            else:
                o = o.find(p)
            if o is None:
                raise Missing(target)
        if not isinstance(o, Fn):
            raise Missing(target)
        return o

    def nested(self, fn, name):
        """A function defined inside another function, which sees the other ones."""
        env = {}
        for s in ast.walk(fn.node):
            if isinstance(s, ast.FunctionDef) and s is not fn.node:
                env[s.name] = self.it.py(Fn(s, fn.module, None, 'fn', s.name, (-7, env)))
        return self.it.obj(env[name]) if name in env else None

    def where(self, target):
        try:
            fn = self.find(target)
        except Missing:
            return '?'
        return '%s:%d' % (fn.module.path, fn.node.lineno)

    def params(self, spec):
        a = spec.fn.node.args
        out = []
        for x in a.args:
            t = '?'
            if x.annotation is not None:
                if isinstance(x.annotation, ast.Constant):
                    t = parse_type(str(x.annotation.value))
                else:
                    t = parse_type(ast.unparse(x.annotation))
            out.append(sym('p:%d:%s' % (len(out), x.arg), t))
        return out

    def run(self, fn, args, st=None):
        hp.RUNNING[0] = True
        try:
            for k in range(40):
                try:
                    return self.run1(fn, args, st)
                except hp.Restart:
                    self.it.cur_loc = None
            raise Unsupported('aliasing')
        finally:
            hp.RUNNING[0] = False

    def run1(self, fn, args, st=None):
        it = self.it
        st = st or St({}, dict(it.heap0), 0)
        it.stack = [(fn.module, None)]
        it.frames = []
        it.loop_syms = []
        it.assumption = TRUE
        env = it.bind(fn, list(args), {}, st)
        it.fid += 1
        is_gen = I._is_generator(fn.node)
        s1 = St(env, dict(st.heap), it.fid)
        it.frames.append((0, {}))
        it.stack.append((fn.module, fn))
        acc = None
        if is_gen:
            acc = it.new_list(tm.items([]), s1)
            s1.env['$yield'] = acc
        outs = it.exec_block(fn.node.body, s1)
        it.stack.pop()
        outs = [Out('return', o.g, o.st, NONE) if o.kind == 'fall' else o for o in outs]
        raises = {}
        for o in outs:
            if o.kind == 'raise' and o.g is not FALSE:
                n = o.val.args[0] if o.val is not None and o.val.op == 'exc' else '?'
                raises[n] = OR(raises.get(n, FALSE), o.g)
        r = merge_outs(outs, ('return',))
        if r is None:
            return Summary(raises, FALSE, None, NONE)
        return Summary(raises, r[0], r[1], acc if is_gen else r[2])

    def check(self, spec):
        """(verdict, detail)  verdict: ok | violation | undecided"""
        self.pending = None
        r = self.check1(spec, True)
        for n in spec.opts.get('alt', ()):
            # another order of the same work
            if r[0] == 'ok':
                break
            s2 = [x for x in self.variants if x.fn.node.name == n]
            if s2:
                r2 = self.check1(s2[0], True)
                if r2[0] == 'ok':
                    r = r2
        if r[0] == 'violation' and any(spec.opts.get(k) for k in ('pure', 'effects', 'new')):
            # a change may move work across the border of a function that is taken as opaque
            self.pending = r
            left = signal.alarm(0)
            if left:
                signal.alarm(min(left, 150))
            r2 = self.check1(spec, False)
            self.pending = None
            if r2[0] == 'ok':
                return r2
        if r[0] == 'violation' or r[0] == 'undecided' and 'unknown length' in r[1]:
            # the grids are triangular: faces of three nodes and edges, edges of two nodes
            self.pending = r if r[0] == 'violation' else None
            left = signal.alarm(0)
            if left:
                signal.alarm(min(left, 60))
            saved = {k: ty.FIELDS[k[0]][k[1]] for k in TRIANGULAR}
            self.triangular = True
            for k, n in TRIANGULAR.items():
                ty.FIELDS[k[0]][k[1]] = ('flist', n, saved[k][1])
            try:
                r2 = self.check1(spec, True)
            finally:
                self.triangular = False
                for k, t in saved.items():
                    ty.FIELDS[k[0]][k[1]] = t
            self.pending = None
            if r2[0] == 'ok' or r2[0] == 'violation' and r[0] == 'undecided':
                return r2
        return r

    triangular = False

    def check1(self, spec, opaque):
        saved = {}
        for k, t in spec.opts.get('fields', {}).items():
            c, f = k.split('.')
            saved[c, f] = ty.FIELDS[c][f]
            ty.FIELDS[c][f] = parse_type(t)
        try:
            return self.check2(spec, opaque)
        finally:
            for (c, f), t in saved.items():
                ty.FIELDS[c][f] = t

    def check2(self, spec, opaque):
        fn = self.find(spec.target)
        args = self.params(spec)
        if 'cut' in spec.opts:
            return self.check_cut(spec, fn, args, opaque)
        return self.pair(spec, spec.fn, fn, args, opaque)

    def check_cut(self, spec, fn, args, opaque):
        """The part around the loop and one iteration, compared separately."""
        o = spec.opts['cut']
        try:
            a, b = (cut.Cut(f.node, o.get('kind', 'while')) for f in (spec.fn, fn))
        except cut.NoLoop as e:
            return 'undecided', 'no loop to cut: %s' % e, None
        vs = list(o['vars'])
        if set(vs) != set(a.vars):
            return 'undecided', 'specification: loop variables are %s' % a.vars, None
        if len(a.vars) != len(b.vars) or [a.params.index(n) for n in a.fixed] != [b.params.index(n) for n in b.fixed]:
            return 'undecided', 'loop variables %s instead of %s' % (b.vars, a.vars), None
        types = [parse_type(o['vars'][n]) for n in vs]
        try:
            kb = self.kinds(fn, b, args)
            ka = dict(zip(a.vars, self.kinds(spec.fn, a, args)))
        except (Unsupported, tm.Budget, hp.Opaque, RecursionError) as e:
            return 'undecided', 'state at the loop: %s' % e, None
        first, n = None, 0
        for order in cut.orders(vs, [ka[x] for x in vs], b.vars, kb):
            self.it.cut_types = types
            r = self.pair(spec, Fn(a.outer(vs), spec.fn.module, spec.fn.cls, spec.fn.kind, spec.fn.qual),
                          Fn(b.outer(order), fn.module, fn.cls, fn.kind, fn.qual, fn.frame), args, opaque)
            n = max(n, 1)
            if r[0] != 'ok':
                if first is None or first[0] == 'violation' and n < 2:
                    first = r
                continue
            par = [x for x, m in zip(args, a.params) if m in a.fixed]
            par += [sym('p:%d:%s' % (len(args) + k, vs[k]), t) for k, t in enumerate(types)]
            if o.get('kind') == 'for':
                par.append(sym('p:item', parse_type(o['item'])))
            r2 = self.pair(spec, Fn(a.body(vs, o.get('inv')), spec.fn.module, spec.fn.cls, 'fn', spec.fn.qual),
                           Fn(b.body(order), fn.module, fn.cls, 'fn', fn.qual, fn.frame), par, opaque)
            if r2[0] == 'ok':
                return 'ok', '%s and one iteration: %s' % (r[1], r2[1]), r2[2]
            if n < 2 or r2[0] == 'undecided':
                first, n = (r2[0], 'in one iteration: ' + r2[1], None), 2
        return first or ('undecided', 'loop variables of other kinds', None)

    def decisive(self, c, same):
        """A component with a difference between closed forms."""
        hp.RUNNING[0] = True
        try:
            for go in c.components():
                e = decisive_mismatch(go, same)
                if e is not None:
                    return e
        finally:
            hp.RUNNING[0] = False
        return None

    def kinds(self, fn, c, args):
        r = self.run(Fn(c.probe(), fn.module, fn.cls, fn.kind, fn.qual, fn.frame), args)
        if r.g is FALSE:
            raise Unsupported('loop is never reached')
        out = []
        for k in range(len(c.vars)):
            v = tm.at(r.val, const(k))
            t = typ(v)
            if v.op == 'new':
                t = v.args[0]
            elif isinstance(t, tuple):
                t = t[1] if t[0] == 'obj' else t[0]
            out.append(cut.Kind('list' if t in ('seq', 'flist') else t, self.it.read('$name', v, r.st) if t == 'file' else v))
        return out

    def pair(self, spec, sfn, fn, args, opaque):
        tm.LIMIT[0] = tm._count[0] + (1500000 if opaque else 500000) * (2 if 'cut' in spec.opts else 1)
        it = self.it
        it.pure = set(spec.opts.get('pure', ()))
        it.opaque = it.pure | set(spec.opts.get('effects', ())) | {c + '.__init__' for c in spec.opts.get('new', ())}
        if not opaque:
            it.pure, it.opaque = set(), set()
        it.fills = set(spec.opts.get('fills', ()))
        it.touch = dict(spec.opts.get('touch', {})) if opaque else {}
        it.loopmod = {}
        tm.FACTS.d.clear()
        tm.KNOWN.clear()
        hp.forget()
        try:
            try:
                a = self.run(sfn, args)
                req = it.assumption
            except (Unsupported, tm.Budget, hp.Opaque) as e:
                return 'undecided', 'specification: %s' % e, None
            if a.g is FALSE and not spec.opts.get('never'):
                return 'undecided', 'specification: never returns', None
            # the implementation may have further defaulted parameters
            names = fn.node.args.args
            n = len(names)
            if len(args) > n and not fn.node.args.vararg:
                return 'violation', 'the function takes %d parameters instead of %d' % (n, len(args)), None
            if spec.opts.get('nargs'):
                args = args[:spec.opts['nargs']]
            it.under = req
            try:
                b = self.run(fn, args)
            finally:
                it.under = TRUE
            if req is not TRUE:
                restrict(a, req)
                restrict(b, req)
            if self.triangular and (links(a) or links(b)):
                return 'undecided', 'the links of the grid change', None
            c = Comparer(it, a, b)
            c.reqs = literals(req)
            c.unordered = spec.opts.get('unordered')
            c.cases = 'cut' in spec.opts or spec.opts.get('cases', False)
            hp.RUNNING[0] = True
            try:
                c.run()
            except hp.Restart:
                raise Undecided('aliasing')
            finally:
                hp.RUNNING[0] = False
            for n, x, y in defaults(sfn.node.args, fn.node.args):
                return 'violation', 'default of %s: expected %s, found %s' % (n, x, y), None
            return 'ok', '%d components' % c.count, c
        except Mismatch as e:
            same = open_terms((a.val, tuple(a.raises.values()), tuple(a.st.heap.values()) if a.st is not None else ()))
            w = (open_forms((e.b,) + e.taken, same) - open_forms(e.a)) | weak_forms(e.a, e.b)
            if w:
                e2 = None if c.cases else self.decisive(c, same)
                if e2 is None:
                    return 'undecided', 'no closed form (%s): %s' % (', '.join(sorted(w)), e.where), None
                e = e2
            return 'violation', '%s: expected %s, found %s' % (e.where, tm.show(e.a) if isinstance(e.a, tm.T) else e.a,
                                                               tm.show(e.b) if isinstance(e.b, tm.T) else e.b), None
        except (Unsupported, tm.Budget, hp.Opaque, Undecided, RecursionError) as e:
            return 'undecided', '%s: %s' % (type(e).__name__, e), None
        finally:
            tm.FACTS.d.clear()


def decisive_mismatch(go, same):
    try:
        go()
    except Mismatch as e:
        if not open_forms((e.b,) + e.taken, same) - open_forms(e.a) and not weak_forms(e.a, e.b):
            return e
    except (Unsupported, tm.Budget, hp.Opaque, Undecided, RecursionError, hp.Restart):
        pass
    return None


def defaults(a, b):
    """Literal defaults stated by the reference which the function does not have."""
    def values(a):
        r = {}
        for i, d in enumerate(reversed(a.defaults)):
            try:
                r[len(a.args) - 1 - i] = ast.literal_eval(d)
            except ValueError:
                r[len(a.args) - 1 - i] = ...
        return r
    x, y = values(a), values(b)
    for i, v in x.items():
        if v is not ... and y.get(i, 'required') is not ... and (i not in y or y[i] != v):
            yield a.args[i].arg, repr(v), repr(y[i]) if i in y else 'no default'


def diff_terms(a, b):
    """The innermost pair of terms in which two terms differ (for messages)."""
    while isinstance(a, tm.T) and isinstance(b, tm.T) and a.op == b.op:
        x, y = tm.subterms(a), tm.subterms(b)
        x, y = list(x), list(y)
        if len(x) != len(y):
            break
        d = [(p, q) for p, q in zip(x, y) if p is not q]
        if len(d) != 1:
            break
        a, b = d[0]
    return a, b


def main_function(b):
    f = ast.parse('def __main__(): pass').body[0]
    f.body = b.body
    f.lineno = b.lineno
    return f


OPEN = {'foldv', 'carry', 'live', 'hread', 'hset', 'happ', 'acc', 'bottom'}


def open_terms(t):
    """The loop states without closed form inside a term."""
    out, seen = set(), set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
            return
        if not isinstance(x, tm.T) or x in seen:
            return
        seen.add(x)
        if x.op in OPEN:
            out.add(x)
        for y in tm.subterms(x):
            walk(y)
    walk(t)
    return out


def open_forms(t, same=()):
    """Their kinds, except of those the reference has as well."""
    memo = {}
    have = {signature(x, memo) for x in same}
    return {x.op for x in open_terms(t) if signature(x, memo) not in have}


# Forms with equal values that have no common normal form; they decide nothing where only one side has them.
TRIANGULAR = {('Edge', 'Nodes'): 2, ('Face', 'Nodes'): 3, ('Face', 'Edges'): 3}


def links(r):
    """Does the function change the lists of nodes and edges of faces and edges."""
    h = r.st.heap if r.st is not None else {}
    for f, n in (('$c', 0), ('Nodes', 1), ('Edges', 1)):
        for leaf, bs in hp.leaves(h.get(f, ())):
            if leaf.op == 'mark':
                continue
            for k in I._alts(leaf.args[1]):
                if n and k.op == 'new' and k.args[0] in ('Edge', 'Face'):
                    return True
                if not n and k.op == 'fld' and (hp.cls_of(k.args[1]), k.args[0]) in TRIANGULAR:
                    return True
    return False


def found_place(k):
    return k.op in ('index', 'first', 'last') or any(found_place(y) for y in tm.subterms(k))


def folded(x):
    while x.op == 'listof':
        x = x.args[0]
    return x.op == 'foldv' and isinstance(typ(x), tuple) and typ(x)[0] in ('seq', 'list')


WEAK = {'slice', 'filelines', 'updl', 'setorder', 'zip', 'divmod'}


def weak_forms(a, b):
    if isinstance(a, tm.T) and isinstance(b, tm.T) and a.op == b.op == 'carry' and a.args[1:] == b.args[1:]:
        # the same field of the same object at the start of different loops
        return {'carry'}
    x, y = diff_terms(a, b)
    if isinstance(x, tm.T) and isinstance(y, tm.T) and folded(x) != folded(y):
        # a list accumulated through the iterations of a loop against one in closed form
        return {'foldv'}

    def ops(t):
        out, seen = set(), set()

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, tm.T) or x in seen:
                return
            seen.add(x)
            if x.op == 'slice':
                # parts between computed borders, by what they are parts of
                if any(k.op not in ('num', 'none') for k in x.args[1:] if isinstance(k, tm.T)):
                    out.add(('slice', signature(x.args[0], {})))
            elif x.op in WEAK:
                out.add((x.op,))
            elif x.op == 'upd' and not found_place(x.args[1]):
                upds.add(x)
            elif x.op == 'upd':
                places.add(x)
            elif x.op == 'seq' and any(p[0] == 'loop' for p in x.args[0] if isinstance(p, tuple)):
                loops.add(x)
            for y in tm.subterms(x):
                walk(y)
        upds, loops, places = set(), set(), set()
        walk(t)
        return out, bool(upds), bool(loops), bool(places)
    (x, u1, l1, p1), (y, u2, l2, p2) = ops(a), ops(b)
    w = {o[0] for o in x ^ y}
    if p1 != p2:
        # one item at a place that was looked for is not every item
        w.discard('updl')
    if u1 and l2 and not u2 or u2 and l1 and not u1:
        # items set one by one against a list made in a loop
        w.add('upd')
    return w


def signature(x, memo):
    """A term without the numbers of its objects, iterations and loops."""
    if isinstance(x, tuple):
        return tuple(signature(y, memo) for y in x)
    if not isinstance(x, tm.T):
        return x
    r = memo.get(x)
    if r is None:
        if x.op == 'bv' or x.op == 'sym' and '#' in str(x.args[0]):
            r = '_'
        elif x.op == 'new':
            r = ('new', x.args[0])
        elif x.op in ('carry', 'acc', 'mark'):
            r = (x.op,) + tuple(signature(y, memo) for y in x.args[1:])
        elif x.op in tm.BINDERS:
            r = (x.op,) + tuple(signature(y, memo) for y in x.args[1:])
        else:
            r = (x.op,) + tuple(signature(y, memo) for y in x.args)
        # equal signatures become one number
        r = memo.setdefault(('sig', r), ('#', len(memo)))
        memo[x] = r
    return r


def restrict(s, req):
    path = literals(req)
    for x, r in equalities(path):
        m = {x: r}
        s.raises = {k: tm.subst(g, m) for k, g in s.raises.items()}
        s.g = tm.subst(s.g, m)
        if s.val is not None:
            s.val = tm.subst(s.val, m)
        if s.st is not None:
            s.st.heap = {f: hp.subst_layers(ls, m) for f, ls in s.st.heap.items()}
    s.raises = {k: tm.simplify_under(req, g) for k, g in s.raises.items()}
    s.g = tm.simplify_under(req, s.g)
    if s.val is not None:
        s.val = tm.simplify_under(req, s.val)
    s.req = req


def lazy_new(it, e, st):
    c = e.args[0].value
    o = it.new(c)
    for k in e.keywords:
        it.write(k.arg, o, it.ev(k.value, st), st)
    return o


def literals(req):
    path, g = [], req
    while g.op == 'ite':
        a, x, y = g.args
        if y is FALSE:
            path.append((a, True))
            g = x
        elif x is FALSE:
            path.append((a, False))
            g = y
        else:
            break
    return path


def lazy_cut(it, e, st):
    n = e.args[0].value
    vals = [it.ev(x, st) for x in e.args[1:]]
    deep = [it.deep(v, st) for v in vals]
    it.event('loop', deep, st)
    out = []
    for k, t in enumerate(it.cut_types):
        v = vals[n + k]
        out.append(v if t == ('obj', 'file') else tm.op('call', 'loop %d' % k, tup(deep), t))
    for v in vals[:n]:
        c = I.cls_of(v)
        if c in ty.FIELDS:
            post = tm.op('call', 'loop fills', tup(deep + [v]), ('obj', c))
            for f, t in sorted(ty.FIELDS[c].items()):
                it.write(f, v, raw('fld', f, post, t), st)
    return tup(out + [NONE])


def lazy_require(it, e, st):
    it.assumption = AND(it.assumption, it.truth(it.ev(e.args[0], st), st))
    for a, v in literals(it.assumption):
        if a.op == 'eq':
            tm.FACTS.d[a] = v
    return NONE
