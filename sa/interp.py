"""
Value-flow analysis of functions: a gated-SSA style abstract interpretation of the syntax tree.

A function is summarised by terms: the returned value, the raised conditions, the updates of the
heap, the written files.  Both branches of every test are followed and joined by guarded values,
loops are summarised by closed forms or canonical folds - no path is enumerated and nothing is run.
"""

import ast

from . import terms as tm
from .terms import (T, raw, const, ite, AND, OR, NOT, TRUE, FALSE, NONE, lift, typ, subst, sym, fresh, op)
from . import decl as ty
from . import heap as hp
from . import immut
from . import desugar
from .heap import cls_of, refeq
from .loader import Program, Module, Fn, Cls, Ext, make_class, bound_names


class Unsupported(Exception):
    pass


UNDEF = raw('undef')
INF = raw('inf')
EXTKEY = raw('extlog')

UNROLL = 8


class St:
    __slots__ = ('env', 'heap', 'pend', 'fid')

    def __init__(self, env, heap, fid):
        self.env = env
        self.heap = heap
        self.pend = []
        self.fid = fid

    def copy(self):
        s = St(dict(self.env), dict(self.heap), self.fid)
        s.pend = list(self.pend)
        return s


class Out:
    __slots__ = ('kind', 'g', 'st', 'val')

    def __init__(self, kind, g, st, val=None):
        self.kind = kind
        self.g = g
        self.st = st
        self.val = val


def merge_st(g, a, b):
    if g is TRUE or a is b:
        return a
    if g is FALSE:
        return b
    env = {}
    for k in list(a.env) + [k for k in b.env if k not in a.env]:
        x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
        if x is y:
            env[k] = x
        elif x is UNDEF:
            env[k] = y
        elif y is UNDEF:
            env[k] = x
        else:
            env[k] = ite(g, x, y)
    s = St(env, hp.merge_heaps(g, a.heap, b.heap), a.fid)
    return s


def merge_outs(outs, kinds):
    """Merge the outcomes of these kinds: (guard, state, value) or None."""
    sel = [o for o in outs if o.kind in kinds and o.g is not FALSE]
    if not sel:
        return None
    last = sel[-1]
    g, st, v = last.g, last.st, last.val
    for o in reversed(sel[:-1]):
        st = merge_st(o.g, o.st, st)
        if o.val is not None and v is not None:
            v = ite(o.g, o.val, v)
        g = OR(o.g, g)
    if v is not None:
        v = tm.simplify_under(g, v)
    return g, st, v


def is_main_part(s):
    return isinstance(s, ast.If) and '__main__' in ast.unparse(s.test)


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.reg = {}               # py key -> object
        self.clo = 0
        self.alloc = 0
        self.boxloc = {}
        self.tries = 0              # active handlers: without any, the state at a failure is of no interest
        self.fid = 0
        self.keyerr = 0             # dictionary reads inside a handler for missing keys
        self.frames = []            # (fid, env)
        self.stack = []             # active functions
        self.loop_syms = []
        self.loopmod = {}
        self.lid = 0
        self.opaque = set()         # qualified names of functions that are not followed
        self.pure = set()           # those among them that only compute a value
        self.classes = {}
        self.heap0 = {}
        self.loading = set()
        self.assume_asserts = False
        self.track = {}             # layer -> location
        self.cur_loc = None
        self.spec_module = None
        self.clo_type = None
        self.fills = set()
        self.touch = {}
        self.under = TRUE

    # ------------------------------------------------------------------------------------------
    # registry of program objects

    def py(self, obj):
        if isinstance(obj, Module):
            k = 'mod:' + obj.name
        elif isinstance(obj, Cls):
            k = 'cls:' + obj.name
        elif isinstance(obj, Ext):
            k = 'ext:' + obj.name
        elif isinstance(obj, Fn):
            if obj.frame is None:
                k = 'fn:%s.%s@%d' % (obj.module.name, obj.qual, obj.node.lineno)
            else:
                k = 'clo:%d' % id(obj)
        else:
            raise Unsupported('object %r' % (obj,))
        self.reg[k] = obj
        return raw('py', k)

    def obj(self, t):
        if t.op == 'py':
            return self.reg.get(t.args[0])
        return None

    # ------------------------------------------------------------------------------------------
    # modules

    def module_env(self, m):
        if m.env is not None:
            return m.env
        m.env = {}
        if m.name in self.loading:
            return m.env
        self.loading.add(m.name)
        st = St(m.env, self.heap0, -1)
        self.exec_module(m, m.tree.body, st)
        self.heap0 = st.heap
        for b in m.tree.body:
            # variables of the script that are set by its main part
            if is_main_part(b):
                for n in sorted(assigned_names(b.body)):
                    if n not in m.env or n in shared_names(m):
                        m.env[n] = tm.sym('g:%s.%s' % (m.name, n), ty.GLOBALS.get(m.name, {}).get(n, '?'))
        return m.env

    def exec_module(self, m, body, st):
        for s in body:
            try:
                if isinstance(s, ast.FunctionDef):
                    st.env[s.name] = self.py(Fn(s, m))
                elif isinstance(s, ast.ClassDef):
                    c = make_class(s, m, lambda b: self._base(b, m, st), self.prog.tag(m, s.name))
                    self.classes[c.name] = c
                    st.env[s.name] = self.py(c)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    self.do_import(s, st, m)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    fr = (m, None)
                    self.stack.append(fr)
                    try:
                        outs = self.exec_stmt(s, st)
                        r = merge_outs(outs, ('fall',))
                        if r:
                            st.heap = r[1].heap
                            for k, v in r[1].env.items():
                                st.env[k] = v
                    finally:
                        self.stack.pop()
                elif isinstance(s, ast.If):
                    t = ast.unparse(s.test)
                    if is_main_part(s):
                        continue
                    self.exec_module(m, s.orelse if '__package__' in t else s.body, st)
                elif isinstance(s, ast.Try):
                    self.exec_module(m, s.body, st)
            except (Unsupported, tm.Budget, hp.Opaque) as e:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                st.env[n.id] = tm.unknown('module level %s: %s' % (n.id, e))

    def _base(self, b, m, st):
        try:
            fr = (m, None)
            self.stack.append(fr)
            try:
                return self.obj(self.ev(b, st))
            finally:
                self.stack.pop()
        except Unsupported:
            return None

    def do_import(self, s, st, m):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    st.env[a.asname] = self.import_module(a.name)
                else:
                    self.import_module(a.name)
                    st.env[a.name.split('.')[0]] = self.import_module(a.name.split('.')[0])
        else:
            mod = s.module or ''
            if s.level:
                base = m.name if m.is_pkg else m.name.rpartition('.')[0]
                mod = base + ('.' + mod if mod else '')
            for a in s.names:
                if a.name == '*':
                    if mod in self.prog.modules:
                        st.env.update({k: v for k, v in self.module_env(self.prog.modules[mod]).items() if not k.startswith('_')})
                    continue
                st.env[a.asname or a.name] = self.import_name(mod, a.name)

    def import_module(self, name):
        if name in self.prog.modules:
            m = self.prog.modules[name]
            self.module_env(m)
            return self.py(m)
        return self.py(Ext(EXT_ALIAS.get(name, name)))

    def import_name(self, mod, name):
        if mod in self.prog.modules:
            m = self.prog.modules[mod]
            env = self.module_env(m)
            if name in env:
                return env[name]
            if mod + '.' + name in self.prog.modules:
                return self.import_module(mod + '.' + name)
            # a circular import: find the definition in the tree
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef,)) and s.name == name:
                    return self.py(Fn(s, m))
                if isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if (a.asname or a.name) == name:
                            return self.import_name(s.module, a.name)
            return tm.unknown('name %s of module %s' % (name, mod))
        return self.py(Ext(mod + '.' + name))

    def cls(self, name):
        if name in self.classes:
            return self.classes[name]
        for m in list(self.prog.modules.values()):
            for s in m.tree.body:
                if isinstance(s, ast.ClassDef) and self.prog.tag(m, s.name) == name:
                    self.module_env(m)
                    return self.classes.get(name)
        return None

    # ------------------------------------------------------------------------------------------
    # heap access

    def new(self, cls):
        self.alloc += 1
        if self.cur_loc is not None:
            hp.SITE[self.alloc] = (id(self.cur_loc), cls)
        return raw('new', cls, self.alloc, tuple(self.loop_syms))

    def base(self, f, o):
        """Value of the field in the initial heap."""
        if f == '$c':
            if o.op == 'lval':
                return o.args[0]
            t = typ(o)
            if isinstance(t, tuple) and t[0] == 'opt':
                t = t[1]
            if o.op == 'new':
                return raw('cont', o)
            if isinstance(t, tuple) and t[0] == 'flist':
                c = raw('cont', o)
                return tm.items([raw('at', c, const(k)) for k in range(t[1])])
            return hp.content_of_value(o)
        if f == '$pos':
            return const(0)
        if f == '$ext':
            return tm.items([])
        c = cls_of(o)
        t = '?'
        if c is not None:
            t = self.field_type(c, f)
        return raw('fld', f, o, t)

    def field_type(self, c, f):
        k = ty.FIELDS.get(c, {})
        if f in k:
            return k[f]
        cl = self.cls(c)
        if cl is not None:
            for b in cl.bases:
                r = self.field_type(b.name, f)
                if r != '?':
                    return r
        return '?'

    def read(self, f, o, st):
        def one(x):
            if x.op == 'unknown':
                return x
            ls = st.heap.get(f, ())
            if f == '$c' and self.touch and x.op == 'fld' and x.args[0] in self.touch.values() and hp.is_old(x):
                # the lists of elements change in calls which are not followed
                n = hp.apply_layers('$touch ' + x.args[0], EXTKEY, st.heap.get('$touch ' + x.args[0], ()), const(0))
                if n is not const(0):
                    x = raw('fld', x.args[0] + ' after %s calls' % tm.show(n), x.args[1], x.args[2])
            return self.read_layers(f, x, ls)
        return lift(one, (o,))

    def read_layers(self, f, x, ls):
        if ls and x.op == 'at' and x.args[0].op == 'seq':
            r = self.read_items(f, x.args[0].args[0], ls)
            if r is not None:
                r = tm.at(tm.seq(r), x.args[1])
                if r.op not in ('carry', 'hread'):
                    return r
        b = self.base(f, x)
        if not ls:
            return b
        return hp.apply_layers(f, x, ls, b)

    def read_items(self, f, ps, ls):
        """The field of each object of a sequence of objects created in loops (None: not so)."""
        out = []
        for p in ps:
            if p[0] == 'item':
                if p[2].op != 'new':
                    return None
                v = self.read_layers(f, p[2], ls)
                if has_state(v):
                    return None
                out.append(('item', p[1], tm.simplify_under(p[1], v)))
            elif p[0] == 'loop':
                i, n, b = tm.open_loop(p)
                b = self.read_items(f, b, ls)
                if b is None:
                    return None
                q = tm.mk_loop_part(n, i, b)
                if q is not None:
                    out.append(q)
            else:
                return None
        return tuple(out)

    def write(self, f, o, v, st):
        hp.stored(v)
        hp.owned(f, o, v)
        if f == '$c':
            hp.note_elems(o, v)
        st.heap[f] = st.heap.get(f, ()) + (hp.hset(TRUE, o, v),)

    def append(self, o, s, st):
        """Extend the content of the sequence object with the sequence s."""
        hp.stored(s)
        hp.owned('$c', o, s)
        hp.note_elems(o, s)
        st.heap['$c'] = st.heap.get('$c', ()) + (hp.happ(TRUE, o, s),)

    def event(self, name, args, st):
        e = raw('event', name, tuple(args))
        st.heap['$ext'] = st.heap.get('$ext', ()) + (hp.happ(TRUE, EXTKEY, tm.items([e])),)

    def new_list(self, content, st, kind='list'):
        o = self.new(kind)
        self.write('$c', o, content, st)
        return o

    def content(self, v, st):
        """Sequence held by a value."""
        def one(x):
            if x.op in ('seq', 'tuple', 'str', 'unknown'):
                return x
            if x.op in ('cont', 'sorted', 'slice', 'rev', 'range', 'live', 'keys', 'values', 'set', 'listof'):
                return x
            t = typ(x)
            if x.op == 'lval':
                return x.args[0]
            if x.op == 'new' or (isinstance(t, tuple) and t[0] in ('list', 'flist', 'set', 'dict', 'opt')) or x.op in ('carry', 'hread', 'foldv'):
                if isinstance(t, tuple) and t[0] in ('seq', 'tuple'):
                    return x
                return self.read('$c', x, st)
            if isinstance(t, tuple) and t[0] in ('seq', 'tuple'):
                return x
            return self.read('$c', x, st) if t == '?' else x
        return lift(one, (v,))

    def leafwise(self, f, v, how):
        # leaves of a decision diagram, each once
        seen, todo, out = {v}, [v], []
        while todo:
            x = todo.pop()
            if x.op != 'ite':
                out.append(x)
                continue
            for y in x.args[1:]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return how(f(x) for x in out)

    def is_dict(self, v):
        t = typ(v)
        if v.op == 'ite':
            return self.leafwise(self.is_dict, v, any)
        return isinstance(t, tuple) and (t[0] == 'dict' or (t[0] == 'opt' and isinstance(t[1], tuple) and t[1][0] == 'dict'))

    def is_set(self, v):
        t = typ(v)
        if v.op == 'ite':
            return self.leafwise(self.is_set, v, any)
        return (isinstance(t, tuple) and t[0] == 'set') or v.op == 'set'

    def is_list(self, v):
        if v.op == 'ite':
            return self.leafwise(self.is_list, v, any)
        t = typ(v)
        return v.op in ('lval',) or (isinstance(t, tuple) and t[0] in ('list', 'flist'))

    def is_seqval(self, v):
        if v.op == 'ite':
            return self.leafwise(self.is_seqval, v, all)
        t = typ(v)
        return self.is_list(v) or v.op in ('seq', 'tuple', 'cont', 'sorted', 'slice', 'rev', 'live', 'keys', 'values') or \
            (isinstance(t, tuple) and t[0] in ('seq', 'tuple', 'set'))

    def is_str(self, v):
        if v.op == 'ite':
            return self.is_str(v.args[1]) or self.is_str(v.args[2])
        return v.op == 'str' or typ(v) == 'str'

    # ------------------------------------------------------------------------------------------
    # deep value: containers by content

    def deep(self, v, st, seen=()):
        def one(x):
            return self._deep1(x, st, seen)
        return lift(one, (v,))

    def _deep1(self, x, st, seen):
        if x in seen:
            return raw('backref', len(seen) - 1 - seen.index(x))
        if x.op == 'new' or x.op == 'lval':
            c = x.args[0] if x.op == 'new' else 'list'
            seen2 = seen + (x,)
            if c in ('list', 'set'):
                s = self._deep_seq(self.read('$c', x, st), st, seen2)
                if c == 'set':
                    s = tm.aggregate('set', s)
                return lift(lambda z: raw('listof', z), (s,)) if c == 'list' else s
            if c == 'dict':
                return lift(lambda z: raw('dictof', z), (self._deep_map(self.read('$c', x, st), st, seen2),))
            if c in ty.ENTITIES:
                return x
            fs = self.known_fields(x, st)
            return raw('struct', c, tuple((f, self.deep(self.read(f, x, st), st, seen2)) for f in fs))
        if x.op in ('seq', 'tuple'):
            return self._deep_seq(x, st, seen)
        if x.op == 'map':
            return self._deep_map(x, st, seen)
        if x.op == 'fld' and isinstance(x.args[2], tuple) and x.args[2][0] in ('list', 'flist', 'dict', 'set'):
            c = self.read('$c', x, st)
            if x.args[2][0] == 'dict':
                return raw('dictof', c)
            return raw('listof', c) if x.args[2][0] != 'set' else c
        if x.op == 'py' and self.clo_type is not None and isinstance(self.obj(x), Fn):
            return self.closure_value(x, st)
        return x

    def closure_value(self, x, st):
        """A function passed as an argument, by what it computes."""
        fn = self.obj(x)
        if len(fn.node.args.args) != 1:
            return x
        h0 = dict(st.heap)
        ct, self.clo_type = self.clo_type, None
        try:
            i = raw('sym', 'arg#%d' % self._next(), ct)
            s2 = st.copy()
            v = self.deep(self.call(x, [i], {}, s2), s2)
            if len(s2.pend) > len(st.pend):
                return x
            return tm.lam(i, v)
        except Unsupported:
            return x
        finally:
            self.clo_type = ct
            st.heap = h0

    def _deep_seq(self, s, st, seen):
        def one(x):
            if x.op in ('seq', 'tuple'):
                return raw(x.op, tm.norm_parts(self._deep_parts(x.args[0], st, seen)))
            return x
        return lift(one, (s,))

    def _deep_parts(self, ps, st, seen):
        out = []
        for p in ps:
            if p[0] == 'item':
                out.append(('item', p[1], self.deep(p[2], st, seen)))
            elif p[0] == 'sub':
                out.append(p)
            else:
                i, n, b = tm.open_loop(p)
                q = tm.mk_loop_part(n, i, self._deep_parts(b, st, seen))
                if q is not None:
                    out.append(q)
        return out

    def _deep_map(self, m, st, seen):
        def one(x):
            if x.op == 'map':
                return raw('map', x.args[0], tuple((k, self.deep(v, st, seen)) for k, v in x.args[1]))
            return x
        return lift(one, (m,))

    def known_fields(self, x, st):
        fs = set()
        for f, ls in st.heap.items():
            if f.startswith('$'):
                continue
            for leaf, _ in hp.leaves(ls):
                if leaf.op == 'hset':
                    k = leaf.args[1]
                    for kk in _alts(k):
                        if kk is x or (kk.op == 'new' and x.op == 'new' and kk.args[1] == x.args[1]):
                            fs.add(f)
        return sorted(fs)

    # ------------------------------------------------------------------------------------------
    # statements

    def exec_block(self, body, st):
        res = []
        cur, g = st, TRUE
        for s in body:
            outs = self.exec_stmt(s, cur)
            fall = None
            rest = []
            for o in outs:
                if o.kind == 'fall':
                    rest.append(o)
                elif o.g is not FALSE:
                    res.append(Out(o.kind, AND(g, o.g), o.st, o.val))
            r = merge_outs(rest, ('fall',))
            if r is None:
                return res
            fall, cur = r[0], r[1]
            g = AND(g, fall)
            if g is FALSE:
                return res
        res.append(Out('fall', g, cur))
        return res

    def finish(self, st, extra=None):
        """Outcomes of a simple statement: pending raises and the normal continuation."""
        outs = []
        g = TRUE
        if st.pend:
            for c, e in st.pend:
                cc = AND(g, c)
                if cc is not FALSE:
                    s2 = st.copy()
                    s2.pend = []
                    outs.append(Out('raise', cc, s2, e))
                g = AND(g, NOT(c))
            st.pend = []
        if g is not FALSE:
            if extra is None:
                outs.append(Out('fall', g, st))
            else:
                outs.append(Out(extra[0], g, st, extra[1]))
        return outs

    def exec_stmt(self, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(s).__name__, s.lineno))
        self.cur_loc = s
        return m(s, st)

    def x_Pass(self, s, st):
        return [Out('fall', TRUE, st)]

    x_Global = x_Pass
    x_Nonlocal = x_Pass

    def x_Import(self, s, st):
        self.do_import(s, st, self.stack[-1][0])
        return [Out('fall', TRUE, st)]

    x_ImportFrom = x_Import

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Out('fall', TRUE, st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.x_yield(s.value, st)
        if self.keyerr and isinstance(s.value, ast.Call) and any(isinstance(a, ast.Subscript) for a in s.value.args):
            # an argument fails before the call
            c, pre = s.value, []
            args = list(c.args)
            for i, a in enumerate(args):
                if isinstance(a, ast.Subscript):
                    n = '$arg%d' % i
                    t = ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], a), s)
                    pre.append(ast.fix_missing_locations(t))
                    args[i] = ast.copy_location(ast.Name(n, ast.Load()), a)
            c = ast.copy_location(ast.Call(c.func, args, c.keywords), c)
            return self.exec_block(pre + [ast.copy_location(ast.Expr(c), s)], st)
        self.ev(s.value, st)
        return self.finish(st)

    def x_yield(self, e, st):
        acc = st.env.get('$yield')
        if acc is None:
            raise Unsupported('yield')
        if isinstance(e, ast.Yield):
            v = self.ev(e.value, st) if e.value is not None else NONE
            self.append(acc, tm.items([v]), st)
        else:
            v = self.ev(e.value, st)
            self.append(acc, self.iter_seq(v, st), st)
        return self.finish(st)

    def x_FunctionDef(self, s, st):
        m = self.stack[-1][0]
        st.env[s.name] = self.py(Fn(s, m, None, 'fn', s.name, (st.fid, st.env)))
        return [Out('fall', TRUE, st)]

    def x_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        return self.finish(st, ('return', v))

    def x_Break(self, s, st):
        return [Out('break', TRUE, st)]

    def x_Continue(self, s, st):
        return [Out('continue', TRUE, st)]

    def x_Raise(self, s, st):
        e = const('reraise')
        if s.exc is not None:
            x = s.exc
            if isinstance(x, ast.Call):
                x = x.func
            o = None
            try:
                o = self.obj(self.ev(x, st))
            except Unsupported:
                pass
            name = o.name if isinstance(o, (Cls, Ext)) else ast.unparse(x)
            e = raw('exc', name.split('.')[-1])
        st.pend = list(st.pend)
        outs = self.finish(st, ('raise', e))
        return outs

    def x_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        st.pend.append((NOT(c), raw('exc', 'AssertionError')))
        return self.finish(st)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                if self.is_dict(o):
                    k = self.ev(t.slice, st)
                    self.map_pop(o, k, None, st)
                elif isinstance(t.slice, ast.Slice):
                    c = self.content(o, st)
                    a = self.ev(t.slice.lower, st) if t.slice.lower else NONE
                    b = self.ev(t.slice.upper, st) if t.slice.upper else NONE
                    if a in (NONE, const(0)) and b is NONE:
                        self.write('$c', o, tm.items([]), st)
                    else:
                        self.write('$c', o, op('delslice', c, a, b), st)
                else:
                    k = self.ev(t.slice, st)
                    self.write('$c', o, self.del_at(self.content(o, st), k), st)
            else:
                raise Unsupported('del')
        return self.finish(st)

    def x_Assign(self, s, st):
        fn = self.stack[-1][1] if self.stack else None
        if fn is not None and isinstance(fn.node, ast.FunctionDef):
            s2 = desugar.extension(fn.node, s)
            if s2 is not s and not immut.ok(self.prog, fn.node, s.targets[0].id):
                return self.exec_stmt(s2, st)
        v = self.ev(s.value, st)
        fn = self.stack[-1][1] if self.stack else None
        if (isinstance(s.value, ast.List) and not s.value.elts or desugar._self_sum(s)) and len(s.targets) == 1 \
                and isinstance(s.targets[0], ast.Name) and v.op == 'new' and self.is_list(v) and fn is not None \
                and not isinstance(fn.node, ast.Lambda) and immut.ok(self.prog, fn.node, s.targets[0].id):
            v = self.read("$c", v, st)
        pre = []
        if self.keyerr and st.pend:
            # the value fails before anything is stored
            pre = self.finish(st)
            ok = [o for o in pre if o.kind == 'fall']
            pre = [o for o in pre if o.kind != 'fall']
            if not ok:
                return pre
            st = ok[0].st
            for t in s.targets:
                self.assign(t, v, st)
            return pre + self._g(ok[0].g, self.finish(st))
        for t in s.targets:
            self.assign(t, v, st)
        return self.finish(st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return self.finish(st)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, st)
            v = self.aug(s.op, old, self.ev(s.value, st), st)
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            old = self.getattr(o, t.attr, st)
            v = self.aug(s.op, old, self.ev(s.value, st), st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice +=')
            k = self.ev(t.slice, st)
            old = self.getitem(o, k, st)
            v = self.aug(s.op, old, self.ev(s.value, st), st)
            self.setitem(o, k, v, st)
        else:
            raise Unsupported('augmented assignment')
        return self.finish(st)

    def aug(self, o, old, v, st):
        if isinstance(o, ast.Add) and self.is_list(old):
            self.append(old, self.iter_seq(v, st), st)
            return old
        return self.binop(o, old, v, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            g = self.stack[-1][1]
            st.env[t.id] = v
            if g is not None and g.qual == '__main__' and t.id in shared_names(g.module):
                self.write(t.id, raw('py', 'mod:' + g.module.name), v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                a, b = t.slice.lower, t.slice.upper
                if a is None and b is None:
                    self.write('$c', o, self.iter_seq(v, st), st)
                    return
                lo = self.ev(a, st) if a else NONE
                hi = self.ev(b, st) if b else NONE
                self.write('$c', o, op('setslice', self.content(o, st), lo, hi, self.iter_seq(v, st)), st)
                return
            k = self.ev(t.slice, st)
            self.setitem(o, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.op == 'call' and typ(v) == '?' and not any(isinstance(x, ast.Starred) for x in t.elts):
                # the result of a call that is not followed
                for j, e in enumerate(t.elts):
                    self.assign(e, self.getitem(v, const(j), st), st)
                return
            s = self.iter_seq(v, st)
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                for j in range(k):
                    self.assign(t.elts[j], tm.at(s, const(j)), st)
                after = n - k - 1
                hi = NONE if after == 0 else const(-after)
                self.assign(t.elts[k].value, self.new_list(tm.slice_(s, const(k), hi), st), st)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j], tm.at(s, const(j - after)), st)
                return
            for j, e in enumerate(t.elts):
                self.assign(e, self.at(s, const(j)), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def x_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        pre = []
        g0 = TRUE
        if st.pend:
            outs = self.finish(st)
            pre = [o for o in outs if o.kind != 'fall']
            f = [o for o in outs if o.kind == 'fall']
            if not f:
                return pre
            g0, st = f[0].g, f[0].st
        if c.op == 'unknown':
            raise Unsupported('unknown condition: ' + str(c.args[0]))
        if c is TRUE:
            return pre + self._g(g0, self.exec_block(s.body, st))
        if c is FALSE:
            return pre + self._g(g0, self.exec_block(s.orelse, st))
        u = self.under
        if u is not TRUE:
            # what the reference requires rules some ways out
            if AND(u, c) is FALSE:
                return pre + self._g(g0, self.exec_block(s.orelse, st))
            if AND(u, NOT(c)) is FALSE:
                return pre + self._g(g0, self.exec_block(s.body, st))
        a, b = st.copy(), st.copy()
        try:
            self.under = AND(u, c) if u is not TRUE else u
            oa = self._g(AND(g0, c), self.exec_block(s.body, a))
            self.under = AND(u, NOT(c)) if u is not TRUE else u
            ob = self._g(AND(g0, NOT(c)), self.exec_block(s.orelse, b))
        finally:
            self.under = u
        return pre + self.join(oa, ob)

    def _g(self, g, outs):
        if g is TRUE:
            return outs
        return [Out(o.kind, AND(g, o.g), o.st, o.val) for o in outs if AND(g, o.g) is not FALSE]

    def join(self, oa, ob):
        outs = []
        for k in ('return', 'break', 'xbreak', 'continue', 'fall'):
            r = merge_outs(oa + ob, (k,))
            if r is not None:
                outs.append(Out(k, r[0], r[1], r[2]))
        outs += [o for o in oa + ob if o.kind == 'raise']
        return outs

    def x_With(self, s, st):
        files = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            files.append(v)
        pre = []
        g0 = TRUE
        if st.pend:
            outs = self.finish(st)
            pre = [o for o in outs if o.kind != 'fall']
            f = [o for o in outs if o.kind == 'fall']
            if not f:
                return pre
            g0, st = f[0].g, f[0].st
        return pre + self._g(g0, self.exec_block(s.body, st))

    def x_Try(self, s, st):
        caught = any(h.type is None or 'KeyError' in ast.unparse(h.type) or 'LookupError' in ast.unparse(h.type)
                     for h in s.handlers)
        if caught:
            self.keyerr += 1
        self.tries += 1
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.tries -= 1
            if caught:
                self.keyerr -= 1
        res = [o for o in outs if o.kind not in ('raise', 'fall')]
        fall = [o for o in outs if o.kind == 'fall']
        for o in fall:
            res += self._g(o.g, self.exec_block(s.orelse, o.st)) if s.orelse else [o]
        for o in outs:
            if o.kind != 'raise':
                continue
            done = False
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = None
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(e).split('.')[-1] for e in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split('.')[-1]]
                nm = o.val.args[0] if o.val is not None and o.val.op == 'exc' else '?'
                if names is None or 'Exception' in names or 'BaseException' in names or nm in names:
                    s2 = o.st.copy()
                    if h.name:
                        s2.env[h.name] = o.val
                    res += self._g(o.g, self.exec_block(h.body, s2))
                    done = True
                    break
            if not done:
                res.append(o)
        # an external call of the body may raise what the handlers catch
        ext = [h for h in s.handlers]
        if ext and not any(o.kind == 'raise' for o in outs):
            c = tm.atom(raw('raises', ast.unparse(ast.Module(s.body, [])) if False else 'try'))
            s0 = st
            hs = []
            for h in s.handlers:
                s2 = st.copy()
                if h.name:
                    s2.env[h.name] = raw('exc', '?')
                hs += self._g(c, self.exec_block(h.body, s2))
            res = self.join(self._g(NOT(c), res), hs)
        if s.finalbody:
            out2 = []
            for o in res:
                for f in self.exec_block(s.finalbody, o.st):
                    if f.kind == 'fall':
                        out2.append(Out(o.kind, AND(o.g, f.g), f.st, o.val))
                    else:
                        out2.append(Out(f.kind, AND(o.g, f.g), f.st, f.val))
            res = out2
        return self.join(res, [])

    # ------------------------------------------------------------------------------------------
    # loops

    def x_For(self, s, st):
        fn = self.stack[-1][1] if self.stack else None
        if fn is not None and not isinstance(fn.node, ast.Lambda):
            s = desugar.loop(fn.node, s)
        g = desugar.growing(s)
        if g is not None:
            return self.exec_block(g, st)
        it = self.ev(s.iter, st)
        pre = self.finish(st)
        bad = [o for o in pre if o.kind != 'fall']
        ok = [o for o in pre if o.kind == 'fall']
        if not ok:
            return bad
        g0, st = ok[0].g, ok[0].st
        grouped = self.group_loop(s, it, st)
        if grouped is not None:
            return bad + self._g(g0, grouped)
        names = assigned_names([s.target]) | assigned_names(s.body)

        def body(x, val):
            self.assign(s.target, val, x)
            r = self.finish(x)
            outs = []
            for o in r:
                if o.kind == 'fall':
                    outs += self._g(o.g, self.exec_block(s.body, o.st))
                else:
                    outs.append(o)
            return outs
        live = None
        if it.op not in ('seq', 'tuple') and self.is_list(it):
            live = it
        outs = self.for_each(s, st, self.iter_seq(it, st), body, names, live)
        outs = self.after_loop(outs, s.orelse)
        return bad + self._g(g0, outs)

    # Grouping of a sequence by a key into a new dictionary of lists.

    def group_loop(self, s, it, st):
        if s.orelse or not isinstance(s.target, ast.Name):
            return None
        g = desugar.grouping(s.body)
        if g is None:
            return None
        d, pre, keys, elems = g
        dv = st.env.get(d)
        if dv is None or dv.op != 'new' or not self.is_dict(dv):
            return None
        m = self.read('$c', dv, st)
        if m is not EMPTY_MAP and not (m.op == 'map' and m.args[0] is EMPTY_MAP and not m.args[1]):
            return None
        sq = self.iter_seq(it, st)
        x = st.copy()
        i = raw('sym', 'elem#%d' % self._next(), hp.elem_type(typ(sq)) or '?')
        x.env[s.target.id] = i
        h0 = dict(x.heap)
        for n, e in pre:
            x.env[n] = self.ev(e, x)
        ks = {self.deep(self.ev(k, x), x) for k in keys}
        es = {self.ev(e, x) for e in elems}
        if len(ks) != 1 or len(es) != 1 or x.pend != st.pend or {f: l for f, l in x.heap.items() if f != '$c'} != \
                {f: l for f, l in h0.items() if f != '$c'}:
            return None
        k, e = ks.pop(), es.pop()
        if self._has_new_site(e):
            return None
        self.write('$c', dv, raw('groups', tm.as_seq(tm.seq(self._each(tm.parts(sq), i, tup([k, e])))),
                                   ('map', typ(k), ('list', typ(e)))), st)
        for n in assigned_names([s.target]) | assigned_names(s.body):
            st.env.pop(n, None)
        return self.finish(st)

    def _each(self, ps, x, t):
        """The parts with t in place of every element x."""
        out = []
        for p in ps:
            if p[0] == 'item':
                out.append(('item', p[1], tm.subst(t, {x: p[2]})))
                continue
            if p[0] == 'sub':
                j = fresh('i', 'int')
                q = tm.mk_loop_part(tm.length(p[1]), j, [('item', TRUE, tm.subst(t, {x: tm.at(p[1], j)}))])
            else:
                j, n, b = tm.open_loop(p)
                q = tm.mk_loop_part(n, j, self._each(b, x, t))
            if q is not None:
                out.append(q)
        return out

    def _has_new_site(self, t):
        return t.op == 'new' or any(self._has_new_site(z) for z in tm.subterms(t))

    def after_loop(self, outs, orelse):
        fall = [o for o in outs if o.kind == 'fall']
        xb = [Out('fall', o.g, o.st, None) for o in outs if o.kind == 'xbreak']
        rest = [o for o in outs if o.kind not in ('fall', 'xbreak')]
        if orelse:
            f2 = []
            for o in fall:
                f2 += self._g(o.g, self.exec_block(orelse, o.st))
            rest += [o for o in f2 if o.kind != 'fall']
            fall = [o for o in f2 if o.kind == 'fall']
        r = merge_outs(fall + xb, ('fall',))
        if r is not None:
            rest.append(Out('fall', r[0], r[1]))
        return rest

    def for_each(self, node, st, s, body, names, live=None):
        """Iterate over the sequence s; outcomes: fall, xbreak, return, raise."""
        def brk(outs):
            return [Out('xbreak' if o.kind == 'break' else o.kind, o.g, o.st, o.val) for o in outs]
        if s.op == 'unknown':
            raise Unsupported('iteration over unknown: %s' % (s.args[0],))
        if s.op == 'ite':
            a, x, y = s.args
            c = tm.atom(a)
            return self.join(self._g(c, self.for_each(node, st.copy(), x, body, names, live)),
                             self._g(NOT(c), self.for_each(node, st.copy(), y, body, names, live)))
        if typ(s) == 'str' and s.op != 'str':
            s = raw('seq', (('sub', s),))
        if s.op == 'str':
            if all(isinstance(p, str) for p in s.args[0]):
                s = tm.items([const(ch) for ch in ''.join(s.args[0])])
            else:
                s = raw('seq', (('sub', s),))
        return self.seq_parts(node, st, tm.parts(s), body, names, brk, live)

    def seq_parts(self, node, st, ps, body, names, brk, live):
        res = []
        cur, g = st, TRUE
        for p in ps:
            outs = self.one_part(node, cur, p, body, names, brk, live)
            for o in outs:
                if o.kind not in ('fall', 'continue') and o.g is not FALSE:
                    res.append(Out(o.kind, AND(g, o.g), o.st, o.val))
            r = merge_outs(outs, ('fall', 'continue'))
            if r is None:
                return res
            g = AND(g, r[0])
            cur = r[1]
            if g is FALSE:
                return res
        res.append(Out('fall', g, cur))
        return res

    def one_part(self, node, st, p, body, names, brk, live):
        if p[0] == 'item':
            if p[1] is TRUE:
                return self.join(brk(body(st, p[2])), [])
            a = self._g(p[1], brk(body(st.copy(), p[2])))
            return self.join(a, [Out('fall', NOT(p[1]), st)])
        if p[0] == 'sub':
            n = tm.length(p[1])
            if n.op == 'ite':
                pass

            def b1(x, i):
                e = tm.at(p[1], i)
                return brk(body(x, self.see(e)))
            return self.run_loop((id(node), 'sub'), st, n, b1, names, live=(live, p[1]))
        _, h, n, inner = p

        def b2(x, i):
            ps2 = tm.subst_parts(inner, {tm.bv(h): i})
            return self.seq_parts(node, x, ps2, body, names, brk, None)
        return self.run_loop((id(node), 'loop', len(inner)), st, n, b2, names)

    def see(self, e):
        return e

    def x_While(self, s, st):
        names = assigned_names(s.body) | assigned_names([s.test])

        def b(x, i):
            c = self.truth(self.ev(s.test, x), x)
            outs = []
            g = TRUE
            for o in self.finish(x):
                if o.kind != 'fall':
                    outs.append(o)
                else:
                    g, x = o.g, o.st
            if c is FALSE:
                return outs + [Out('xbreak', g, x)]
            y = x.copy()
            if c is not TRUE:
                outs.append(Out('wend', AND(g, NOT(c)), x))
            o2 = self.exec_block(s.body, y)
            o2 = [Out('xbreak' if o.kind == 'break' else o.kind, o.g, o.st, o.val) for o in o2]
            return outs + self._g(AND(g, c), self.join(o2, []))
        outs = self.run_loop((id(s),), st, INF, b, names)
        outs = [Out('fall' if o.kind == 'wend' else o.kind, o.g, o.st, o.val) for o in outs]
        f = [o for o in outs if o.kind != 'fall'] + [Out('fall', o.g, o.st) for o in outs if o.kind == 'fall']
        return self.after_loop(f, s.orelse)

    # The loop summary.

    def run_loop(self, key, st, n, body, names, live=None):
        if n.op == 'ite':
            a, x, y = n.args
            c = tm.atom(a)
            return self.join(self._g(c, self.run_loop(key, st.copy(), x, body, names, live)),
                             self._g(NOT(c), self.run_loop(key, st.copy(), y, body, names, live)))
        if n.op == 'num' and n.args[0] <= UNROLL:
            return self.unrolled(st, max(0, int(n.args[0])), body)
        fields = self.loopmod.setdefault(key, set())
        names = sorted(names)
        phityp = {}
        pts = {}
        keys = None
        for attempt in range(16):
            self.lid += 1
            lid = self.lid
            hp.CARRIED[lid] = (keys, [])
            i = fresh('i', 'int')
            hp.LOOP_INDEX[lid] = i
            tm.within(i, n)
            x = st.copy()
            phis = {}
            for v in names:
                if v in st.env and st.env[v] is not UNDEF:
                    t = phityp.get(v)
                    if t is None:
                        t = typ(st.env[v])
                        if t == 'seq':
                            t = ('seq', '?')
                    ph = raw('sym', 'phi#%d:%s' % (lid, v), t)
                    phis[v] = ph
                    x.env[v] = ph
                    if v not in pts:
                        pts[v] = hp.refs(st.env[v])
                    hp.PTS[ph] = pts[v]
                else:
                    x.env.pop(v, None)
            for f in fields:
                x.heap[f] = st.heap.get(f, ()) + (raw('mark', lid, f),)
            start = dict(x.heap)
            self.loop_syms.append(i)
            try:
                outs = body(x, i)
            finally:
                self.loop_syms.pop()
            mod = set()
            for o in outs:
                for f, ls in o.st.heap.items():
                    if ls != start.get(f, ()):
                        mod.add(f)
            if not mod <= fields:
                fields |= mod
                keys = None
                continue
            nr = merge_outs(outs, ('fall', 'continue'))
            retry = False
            if nr is not None:
                for v, ph in phis.items():
                    r = hp.refs(nr[1].env.get(v, ph))
                    if not (r[0] <= pts[v][0] and r[1] <= pts[v][1]):
                        pts[v] = (pts[v][0] | r[0], pts[v][1] or r[1])
                        retry = True
                    t0, t1 = typ(ph), typ(nr[1].env.get(v, ph))
                    if t1 == 'seq':
                        t1 = ('seq', '?')
                    if t0 != t1 and t0 != '?':
                        if {t0, t1} <= {'int', 'num', 'bool'}:
                            nt = 'num' if 'num' in (t0, t1) else 'int'
                        elif t0 == 'none':
                            nt = ('opt', t1) if isinstance(t1, tuple) and t1[0] == 'obj' else '?'
                        elif isinstance(t0, tuple) and isinstance(t1, tuple) and t0[0] == t1[0]:
                            nt = t0
                        elif isinstance(t0, tuple) and t0[0] == 'opt' and (t1 == t0[1] or t1 == 'none'):
                            nt = t0
                        elif t1 == '?':
                            nt = t0 if isinstance(t0, tuple) else '?'
                        else:
                            nt = '?'
                        if nt != t0:
                            phityp[v] = nt
                            retry = True
            if retry:
                continue
            seen = hp.CARRIED.pop(lid)[1]
            if seen and keys is not False:
                # containers the loop reads and does not write keep their content
                j = fresh('i', 'int')
                ks = []
                for o in outs:
                    ls = o.st.heap.get('$c', ())
                    at = max(k for k, l in enumerate(ls) if l.op == 'mark' and l.args[0] == lid)
                    ks += [tm.subst(leaf.args[1], {i: j}) for leaf, _ in hp.leaves(ls[at + 1:]) if leaf.op != 'mark']
                free = [all(hp.refeq(k, o) is FALSE for k in ks) for o in seen]
                if keys is None and any(free):
                    keys = ks
                    continue
                if keys is not None and not all(free):
                    keys = False
                    continue
            break
        else:
            raise Unsupported('loop does not stabilise')
        if nr is not None:
            boxes = [v for v, ph in phis.items() if self.is_box(st.env[v]) and self.is_box(nr[1].env.get(v), ph)
                     and nr[1].env.get(v) is not ph]
            if boxes:
                return self.boxed_loop(key, st, n, body, names, live, boxes)
        return LoopSolver(self, st, n, i, lid, phis, fields, outs, nr, names, live).result()

    # Loop variables that hold a vector created in each iteration, to which nothing else refers: their components are
    # the loop variables.

    def is_box(self, t, ph=None):
        if t is ph and ph is not None:
            return True
        if t is None:
            return False
        if t.op == 'ite':
            return self.is_box(t.args[1], ph) and self.is_box(t.args[2], ph)
        return t.op == 'new' and t.args[0] == 'Vect' and hp.SITE.get(t.args[1]) not in hp.STORED | {None}

    def boxed_loop(self, key, st, n, body, names, live, boxes):
        old = self.cur_loc
        try:
            def comps(x):
                for v in boxes:
                    if v not in x.env:
                        continue
                    o = x.env.pop(v)
                    c = self.content(self.read('Coords', o, x), x)
                    for k in range(3):
                        x.env['%s$%d' % (v, k)] = tm.at(c, const(k))

            def loc(v):
                return self.boxloc.setdefault((key, v), ast.Pass())

            def fill(o, v, x):
                self.cur_loc = loc(v)
                cs = self.new_list(tm.items([x.env.pop('%s$%d' % (v, k)) for k in range(3)]), x)
                self.write('Coords', o, cs, x)
                x.env[v] = o

            def b(x, i):
                for v in boxes:
                    self.cur_loc = loc(v)
                    fill(self.new('Vect'), v, x)
                self.cur_loc = old
                outs = body(x, i)
                for o in outs:
                    if o.kind in ('fall', 'continue', 'xbreak', 'wend'):
                        o.st = o.st.copy()
                        comps(o.st)
                return outs
            st = st.copy()
            comps(st)
            ns = (set(names) - set(boxes)) | {'%s$%d' % (v, k) for v in boxes for k in range(3)}
            outs = self.run_loop(key + ('box',), st, n, b, ns, live)
            new = {}
            for o in outs:
                if o.kind in ('fall', 'continue', 'xbreak', 'wend') and o.g is not FALSE:
                    o.st = o.st.copy()
                    for v in boxes:
                        if v not in new:
                            self.cur_loc = loc(v)
                            new[v] = self.new('Vect')
                        if v + '$0' in o.st.env:
                            fill(new[v], v, o.st)
            return outs
        finally:
            self.cur_loc = old

    def unrolled(self, st, k, body):
        res = []
        cur, g = st, TRUE
        for j in range(k):
            outs = self.join(body(cur, const(j)), [])
            outs2 = []
            for o in outs:
                if o.kind in ('fall', 'continue'):
                    outs2.append(o)
                elif o.g is not FALSE:
                    res.append(Out(o.kind, AND(g, o.g), o.st, o.val))
            r = merge_outs(outs2, ('fall', 'continue'))
            if r is None:
                return res
            g = AND(g, r[0])
            cur = r[1]
            if g is FALSE:
                return res
        res.append(Out('fall', g, cur))
        return res

    # ------------------------------------------------------------------------------------------
    # conditions and operators

    def truth(self, v, st):
        def one(x):
            if x.op == 'unknown':
                return x
            if self.is_dict(x):
                m = self.read('$c', x, st)
                return NOT(tm.eq(self.map_len(m), const(0)))
            if self.is_seqval(x) or self.is_set(x):
                return NOT(tm.eq(tm.length(self.content(x, st)), const(0)))
            if x.op in ('py', 'bound', 'event'):
                return TRUE
            if x.op == 'line':
                return tm.atom(raw('truth', x))
            if x.op == 'call' and x.args[0] in ('re.search', 're.match', 're.fullmatch'):
                return NOT(tm.isnone(x))
            return tm.truth(x)
        return lift(one, (v,))

    def map_len(self, m):
        if m.op == 'map' and m.args[0] is EMPTY_MAP and all(tm.is_value(k) for k, v in m.args[1]):
            return const(len(m.args[1]))
        return raw('len', m)

    def eqv(self, a, b, st):
        return lift(lambda x, y: self._eq1(x, y, st), (a, b))

    def _eq1(self, x, y, st):
        if x is y and not (cls_of(x) in ('Vect',)):
            return TRUE
        if x.op == 'unknown':
            return x
        if y.op == 'unknown':
            return y
        cx, cy = cls_of(x), cls_of(y)
        if x is NONE or y is NONE:
            return tm.isnone(y if x is NONE else x)
        if cx is not None:
            c = self.cls(cx)
            m = c.find('__eq__') if c else None
            if isinstance(m, Fn) and cx == cy:
                return self.truth(self.call_fn(m, [x, y], {}, st), st)
            return refeq(x, y)
        if cy is not None:
            return refeq(x, y)
        if self.is_dict(x) or self.is_dict(y):
            return tm.eq(self.deep(x, st), self.deep(y, st))
        if self.is_seqval(x) and self.is_seqval(y):
            return self.seq_eq(self.content(x, st), self.content(y, st), st)
        return tm.eq(x, y)

    def seq_eq(self, a, b, st):
        def f(x, y):
            px, py = tm.parts(x), tm.parts(y)
            lx = all(p[0] == 'item' and p[1] is TRUE for p in px)
            ly = all(p[0] == 'item' and p[1] is TRUE for p in py)
            if lx and ly:
                if len(px) != len(py):
                    return FALSE
                return AND(*[self.eqv(p[2], q[2], st) for p, q in zip(px, py)])
            if lx and not px:
                return tm.eq(tm.length(y), const(0))
            if ly and not py:
                return tm.eq(tm.length(x), const(0))
            return tm.eq(x, y)
        return lift(f, (a, b))

    def contains(self, x, coll, st):
        """x in coll"""
        if self.is_dict(coll):
            return self.map_has(self.read('$c', coll, st), x, st)
        if self.is_str(coll) and not self.is_seqval(coll):
            def f(a, b):
                if a.op == 'str' and b.op == 'str' and all(isinstance(p, str) for p in a.args[0] + b.args[0]):
                    return TRUE if ''.join(a.args[0]) in ''.join(b.args[0]) else FALSE
                return tm.atom(raw('in', a, b))
            return lift(f, (x, coll))
        if self.untyped_key(coll, x):
            return tm.atom(raw('in', x, coll))
        c = self.content(coll, st)

        def g(cc):
            if cc.op == 'keys':
                return self.map_has(cc.args[0], x, st)
            if cc.op in ('seq', 'tuple', 'set', 'cont', 'sorted', 'rev', 'slice', 'live', 'carry', 'hread', 'foldv') or True:
                if cc.op == 'str':
                    return tm.atom(raw('in', x, cc))
                return tm.exists_in(tm.parts(cc) if cc.op != 'set' else cc.args[0], lambda e: self.eqv(e, x, st))
        return lift(g, (c,))

    def untyped_key(self, coll, x):
        """A string key of data of unknown type (a parsed file): the data is a dictionary."""
        return x.op == 'str' and typ(coll) == '?' and coll.op in ('call', 'at', 'mget', 'sym', 'bv')

    def binop(self, o, a, b, st):
        def f(x, y):
            return self._binop(o, x, y, st)
        if a.op == 'ite' or b.op == 'ite':
            # object operands of one class are not split
            if cls_of(a) or self.is_list(a):
                return self._binop(o, a, b, st)
            return lift(f, (a, b))
        return f(a, b)

    OPS = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
           ast.Div: ('__truediv__', '__rtruediv__'), ast.FloorDiv: ('__floordiv__', '__rfloordiv__'),
           ast.Mod: ('__mod__', '__rmod__'), ast.Pow: ('__pow__', '__rpow__'), ast.MatMult: ('__matmul__', '__rmatmul__'),
           ast.BitOr: ('__or__', '__ror__'), ast.BitAnd: ('__and__', '__rand__'), ast.BitXor: ('__xor__', '__rxor__'),
           ast.LShift: ('__lshift__', ''), ast.RShift: ('__rshift__', '')}

    def _binop(self, o, x, y, st):
        if x.op == 'unknown':
            return x
        if y.op == 'unknown':
            return y
        k = type(o)
        cx, cy = cls_of(x), cls_of(y)
        if cx is not None:
            c = self.cls(cx)
            m = c.find(self.OPS[k][0]) if c else None
            if isinstance(m, Fn):
                return self.call_fn(m, [x, y], {}, st)
        if cy is not None:
            c = self.cls(cy)
            m = c.find(self.OPS[k][1]) if c else None
            if isinstance(m, Fn):
                return self.call_fn(m, [y, x], {}, st)
        nd = typ(x) == 'nd' or typ(y) == 'nd'
        if k is ast.Add:
            if self.is_str(x) or self.is_str(y):
                return tm.str_concat(x, y)
            if not nd and (self.is_seqval(x) or self.is_seqval(y)):
                s = tm.concat(self.content(x, st), self.content(y, st))
                if x.op == 'tuple' and y.op == 'tuple' and s.op == 'seq':
                    return raw('tuple', s.args[0])
                return self.new_list(s, st)
            return tm.add(x, y)
        if k is ast.Sub:
            if self.is_set(x) or self.is_set(y):
                return op('setdiff', self.deep(x, st), self.deep(y, st))
            return tm.sub(x, y)
        if k is ast.Mult:
            if self.is_str(x) or self.is_str(y):
                s, n = (x, y) if self.is_str(x) else (y, x)
                if n.op == 'num' and s.op == 'str' and n.args[0] <= 64:
                    return tm.str_concat(*([s] * int(n.args[0]))) if n.args[0] > 0 else const('')
                return tm.join(const(''), tm.seq([tm.mk_loop_part(n, fresh('i'), [('item', TRUE, s)])]))
            if not nd and (self.is_seqval(x) or self.is_seqval(y)):
                s, n = (x, y) if self.is_seqval(x) else (y, x)
                c = self.content(s, st)
                i = fresh('i', 'int')
                if n.op == 'num' and n.args[0] <= UNROLL:
                    return self.new_list(tm.concat(*([c] * int(n.args[0]))) if n.args[0] > 0 else tm.items([]), st)
                p = tm.mk_loop_part(n, i, tm.parts(c))
                return self.new_list(tm.seq([p] if p else []), st)
            return tm.mul(x, y)
        if k is ast.Div:
            return tm.div(x, y)
        if k is ast.FloorDiv:
            return tm.floordiv(x, y)
        if k is ast.Mod:
            if self.is_str(x):
                return self.percent(x, y, st)
            return tm.mod(x, y)
        if k is ast.Pow:
            return tm.power(x, y)
        if k is ast.BitAnd and typ(x) == 'bool' and typ(y) == 'bool':
            return AND(self.truth(x, st), self.truth(y, st))
        if k is ast.BitOr and typ(x) == 'bool' and typ(y) == 'bool':
            return OR(self.truth(x, st), self.truth(y, st))
        return op('bin' + k.__name__, self.deep(x, st), self.deep(y, st))

    def percent(self, f, a, st):
        if not all(isinstance(p, str) for p in f.args[0]):
            return op('percent', f, a)
        s = ''.join(f.args[0])
        vals = [p[2] for p in a.args[0]] if a.op == 'tuple' else [a]
        out = []
        import re
        pos = 0
        k = 0
        for m in re.finditer(r'%(%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', s):
            out.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                out.append(const('%'))
                continue
            spec = m.group(1)
            v = vals[k] if k < len(vals) else tm.unknown('percent format')
            k += 1
            if spec == 's':
                out.append(self.to_str(v, st))
            elif spec in ('d', 'i'):
                out.append(tm.fmt('d', v))
            else:
                out.append(tm.fmt(spec, v))
        out.append(const(s[pos:]))
        return tm.str_concat(*out)

    def to_str(self, v, st, spec=''):
        def one(x):
            c = cls_of(x)
            if c is not None and spec == '':
                cl = self.cls(c)
                m = cl.find('__str__') if cl else None
                if isinstance(m, Fn):
                    return self.call_fn(m, [x], {}, st)
            if self.is_list(x) or self.is_dict(x) or x.op == 'new' or x.op == 'tuple':
                x = self.deep(x, st)
            return tm.fmt(spec, x)
        return lift(one, (v,))

    # ------------------------------------------------------------------------------------------
    # dictionaries

    def map_find(self, m, k, st):
        """[(condition, value)], base - entries newest first"""
        return m

    def map_get(self, m, k, dflt, st):
        def f(mm, kk):
            if mm.op == 'unknown':
                return mm
            if mm.op != 'map':
                if dflt is None:
                    return raw('mget', mm, kk)
                return ite(self.map_has(mm, kk, st), raw('mget', mm, kk), dflt)
            base, ents = mm.args
            if base is EMPTY_MAP:
                r = dflt if dflt is not None else raw('keyerror')
            else:
                r = self.map_get(base, kk, dflt, st)
            for ek, v in ents:
                r = ite(self.eqv(ek, kk, st), v, r)
            if r.op == 'ite' and dflt is None:
                r = _drop_leaf(r, 'keyerror')
            return r
        return lift(f, (m, k))

    def map_has(self, m, k, st):
        def f(mm, kk):
            if mm.op == 'unknown':
                return mm
            if mm.op != 'map':
                if kk.op == 'at' and kk.args[0].op == 'keys' and kk.args[0].args[0] is mm:
                    return TRUE
                return tm.atom(raw('in', kk, mm))
            r = FALSE if mm.args[0] is EMPTY_MAP else self.map_has(mm.args[0], kk, st)
            for ek, v in mm.args[1]:
                r = OR(r, self.eqv(ek, kk, st))
            return r
        return lift(f, (m, k))

    def map_put(self, o, k, v, st):
        m = self.read('$c', o, st)

        def f(mm, kk):
            if mm.op == 'unknown':
                return mm
            if mm.op != 'map':
                return raw('map', mm, ((kk, v),))
            ents = list(mm.args[1])
            for j, (ek, ev) in enumerate(ents):
                c = self.eqv(ek, kk, st)
                if c is TRUE:
                    ents[j] = (ek, v)
                    return raw('map', mm.args[0], tuple(ents))
                if c is not FALSE:
                    return raw('map', mm.args[0], tuple(ents) + ((kk, v),))
            return raw('map', mm.args[0], tuple(ents) + ((kk, v),))
        self.write('$c', o, lift(f, (m, k)), st)

    def map_pop(self, o, k, dflt, st):
        m = self.read('$c', o, st)
        v = self.map_get(m, k, dflt, st)

        def f(mm, kk):
            if mm.op == 'map' and all(tm.is_value(e[0]) for e in mm.args[1]) and tm.is_value(kk):
                ents = tuple(e for e in mm.args[1] if e[0] is not kk)
                if mm.args[0] is EMPTY_MAP or len(ents) != len(mm.args[1]):
                    b = mm.args[0] if mm.args[0] is EMPTY_MAP else raw('mdel', mm.args[0], kk)
                    return raw('map', b, ents)
            return raw('mdel', mm, kk)
        self.write('$c', o, lift(f, (m, k)), st)
        return v

    def map_keys(self, m, st):
        def f(mm):
            if mm.op == 'map':
                base, ents = mm.args
                if base is EMPTY_MAP and all(tm.is_value(k) for k, v in ents):
                    return tm.items([k for k, v in ents])
            if mm.op == 'dictof':
                return raw('keys', mm)
            return raw('keys', mm)
        return lift(f, (m,))

    def map_values(self, m, st):
        def f(mm):
            if mm.op == 'map':
                base, ents = mm.args
                if base is EMPTY_MAP and all(tm.is_value(k) for k, v in ents):
                    return tm.items([v for k, v in ents])
            return raw('values', mm)
        return lift(f, (m,))

    def map_items(self, m, st):
        def f(mm):
            if mm.op == 'map' and mm.args[0] is EMPTY_MAP and all(tm.is_value(k) for k, v in mm.args[1]):
                return tm.items([tup([k, v]) for k, v in mm.args[1]])
            ks = raw('keys', mm)
            i = fresh('i', 'int')
            k = tm.at(ks, i)
            return tm.seq([tm.mk_loop_part(tm.length(ks), i, [('item', TRUE, tup([k, raw('mget', mm, k)]))])])
        return lift(f, (m,))

    # ------------------------------------------------------------------------------------------
    # attributes and items

    def getattr(self, o, name, st):
        if o.op == 'ite' and cls_of(o) is None:
            return lift(lambda x: self.getattr1(x, name, st), (o,))
        return self.getattr1(o, name, st)

    def getattr1(self, o, name, st):
        if o.op == 'unknown':
            return o
        p = self.obj(o)
        if isinstance(p, Module):
            env = self.module_env(p)
            if name in env:
                return env[name]
            sub = p.name + '.' + name
            if sub in self.prog.modules:
                return self.import_module(sub)
            if p.is_pkg or True:
                v = self.import_name(p.name, name)
                return v
        if isinstance(p, Ext):
            full = p.name + '.' + name
            full = EXT_ALIAS.get(full, full)
            if full in EXT_CONST:
                return EXT_CONST[full]()
            return self.py(Ext(full))
        if isinstance(p, Cls):
            m = p.find(name)
            if isinstance(m, Fn):
                return self.py(m)
            if m is not None:
                return self.class_value(p, name, st)
            if name == '__name__':
                return const(p.name)
            # set at run time
            return self.read(name, o, st)
        if name in ND_ATTR and typ(o) == 'nd':
            return lift(ND_ATTR[name], (o,))
        if o.op == 'cmdline':
            return self.cmd_attr(o, name)
        c = cls_of(o)
        if c is not None:
            cl = self.cls(c)
            m = cl.find(name) if cl else None
            if isinstance(m, Fn):
                if m.kind == 'prop':
                    return self.call_fn(m, [o], {}, st)
                if m.kind == 'static':
                    return self.py(m)
                return raw('bound', self.py(m), o)
            if name == '__class__' and cl is not None:
                return self.py(cl)
            v = self.read(name, o, st)
            if m is not None and v.op == 'fld' and v.args[0] == name and v.args[1] is o:
                return self.class_value(cl, name, st)
            if v.op == 'ite' and o.op == 'new':
                pass
            return v
        return self.read(name, o, st) if not (self.is_str(o) or self.is_list(o) or self.is_dict(o) or self.is_seqval(o)) \
            else raw('method', name, o)

    def class_value(self, cl, name, st):
        a = cl.find(name)
        key = (cl.name, name)
        ls = st.heap.get(name, ())
        ct = self.py(cl)
        for leaf, _ in hp.leaves(ls):
            if leaf.args and leaf.args[1] is ct:
                return self.read(name, ct, st)
        s0 = St({}, st.heap, -2)
        self.stack.append((cl.module, None))
        try:
            if name not in cl.values:
                v = self.ev(a[1], s0)
                cl.values[name] = v
                if v.op == 'new':
                    # shared object: its content belongs to the initial heap
                    self.heap0 = dict(self.heap0)
                    for f, l2 in s0.heap.items():
                        pass
            return cl.values[name]
        finally:
            self.stack.pop()

    def setattr(self, o, name, v, st):
        c = cls_of(o)
        if c is not None:
            cl = self.cls(c)
            m = cl.find_setter(name) if cl else None
            if m is not None:
                self.call_fn(m, [o, v], {}, st)
                return
        self.write(name, o, v, st)

    def getitem(self, o, k, st):
        c = cls_of(o)
        if c is not None:
            cl = self.cls(c)
            m = cl.find('__getitem__') if cl else None
            if isinstance(m, Fn):
                return self.call_fn(m, [o, k], {}, st)
        if self.is_dict(o):
            m = self.read('$c', o, st)
            if self.keyerr:
                c = NOT(self.map_has(m, k, st))
                if c is not FALSE:
                    st.pend.append((c, raw('exc', 'KeyError')))
            return self.map_get(m, k, None, st)
        if o.op == 'ite' and not self.is_list(o):
            return lift(lambda x, y: self.getitem(x, y, st), (o, k))
        if self.keyerr and self.untyped_key(o, k):
            st.pend.append((NOT(tm.atom(raw('in', k, o))), raw('exc', 'KeyError')))
        if typ(o) == 'nd' or (typ(o) == '?' and not self.is_seqval(o)):
            if o.op == 'at' and o.args[0].op == 'seq' and k.op == 'num':
                v = tm.at(o, k)
                if v.op != 'at' or v.args[0] is not o:
                    return v
            if o.op in ('new',) or not self.known_fields_c(o, st):
                k = self.deep(k, st)
                if o.op == 'nparray' and k.op == 'num':
                    return tm.at(o, k)
                return tm.op('at', self.ndv(o, st), k)
        return self.at(self.content(o, st), k)

    def known_fields_c(self, o, st):
        return any(True for leaf, _ in hp.leaves(st.heap.get('$c', ())) if leaf.op in ('hset', 'happ') and leaf.args[1] is o)

    def ndv(self, o, st):
        return o

    def at(self, s, k):
        return tm.at(s, k)

    def setitem(self, o, k, v, st):
        c = cls_of(o)
        if c is not None:
            cl = self.cls(c)
            m = cl.find('__setitem__') if cl else None
            if isinstance(m, Fn):
                self.call_fn(m, [o, k, v], {}, st)
                return
        if self.is_dict(o):
            self.map_put(o, k, v, st)
            return
        s = self.content(o, st)

        def f(x, j):
            if x.op == 'unknown':
                return x
            if x.op in ('seq', 'tuple') and j.op == 'num' and all(p[0] == 'item' and p[1] is TRUE for p in x.args[0]):
                n = len(x.args[0])
                jj = int(j.args[0])
                if jj < 0:
                    jj += n
                if 0 <= jj < n:
                    ps = list(x.args[0])
                    ps[jj] = ('item', TRUE, v)
                    return raw('seq', tuple(ps))
            if x.op == 'upd' and x.args[1] is j:
                return raw('upd', x.args[0], j, v)
            return raw('upd', tm.as_seq(x), j, v)
        self.write('$c', o, lift(f, (s, k)), st)

    def del_at(self, s, k):
        def f(x, j):
            if x.op in ('seq',) and j.op == 'num' and all(p[0] == 'item' and p[1] is TRUE for p in x.args[0]):
                ps = list(x.args[0])
                jj = int(j.args[0])
                if -len(ps) <= jj < len(ps):
                    del ps[jj]
                    return raw('seq', tuple(ps))
            if j is const(-1) and x.op == 'seq' and x.args[0] and x.args[0][-1][0] == 'item' and x.args[0][-1][1] is TRUE:
                return raw('seq', x.args[0][:-1])
            if j is const(0):
                return tm.slice_(x, const(1), NONE)
            if j is const(-1):
                return tm.slice_(x, NONE, const(-1))
            return raw('delat', tm.as_seq(x), j)
        return lift(f, (s, k))

    # ------------------------------------------------------------------------------------------
    # expressions

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %d)' % (type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def load_name(self, name, st):
        if name in st.env:
            v = st.env[name]
            return v
        fr = self.stack[-1]
        fn = fr[1]
        # closures
        f = fn
        while isinstance(f, Fn) and f.frame is not None:
            fid, env = f.frame[0], f.frame[1]
            for k in range(len(self.frames) - 1, -1, -1):
                if self.frames[k][0] == fid:
                    env = self.frames[k][1]
                    break
            if name in env:
                return env[name]
            f = f.frame[2] if len(f.frame) > 2 else None
        m0, f0 = self.stack[0] if self.stack else (None, None)
        if f0 is not None and f0.qual == '__main__' and m0 is fr[0] and self.frames and name in self.frames[0][1] \
                and name in shared_names(m0):
            return self.frames[0][1][name]
        env = self.module_env(fr[0])
        if name in env:
            return env[name]
        if name in BUILTIN_CLASSES:
            return self.py(Ext(name))
        if name in BUILTINS:
            return self.py(Ext(name))
        for s in fr[0].tree.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return self.py(Fn(s, fr[0]))
        if self.prog.unbound(fr[0], fn, name):
            st.pend.append((TRUE, raw('exc', 'NameError')))
            return raw('bottom')
        raise Unsupported('name %s is not defined' % name)

    def e_Name(self, e, st):
        return self.load_name(e.id, st)

    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            a = self.ev(e.slice.lower, st) if e.slice.lower else NONE
            b = self.ev(e.slice.upper, st) if e.slice.upper else NONE
            step = self.ev(e.slice.step, st) if e.slice.step else NONE
            if self.is_str(o):
                return self.str_slice(o, a, b) if step is NONE else op('sslice', o, a, b, step)
            if typ(o) == 'nd' or (typ(o) == '?' and o.op != 'new' and not self.is_seqval(o)):
                return op('slice', o, a, b) if step is NONE else op('slice3', o, a, b, step)
            c = self.content(o, st)
            if step is not NONE:
                if step is const(-1) and a is NONE and b is NONE:
                    return self.new_list(tm.reverse(c), st)
                return self.new_list(op('slice3', c, a, b, step), st)
            r = tm.slice_(c, a, b)
            if o.op == 'tuple':
                return raw('tuple', r.args[0]) if r.op == 'seq' else r
            return self.new_list(r, st)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            ks = []
            for x in e.slice.elts:
                if isinstance(x, ast.Slice):
                    ks.append(raw('sl', self.ev(x.lower, st) if x.lower else NONE, self.ev(x.upper, st) if x.upper else NONE))
                else:
                    ks.append(self.ev(x, st))
            return op('at', o, tup(ks))
        k = self.ev(e.slice, st)
        return self.getitem(o, k, st)

    def str_slice(self, s, a, b):
        return lift(lambda x, lo, hi: self._str_slice(x, lo, hi), (s, a, b))

    def _str_slice(self, x, lo, hi):
        if x.op == 'str' and lo.op in ('num', 'none') and hi.op in ('num', 'none'):
            a = 0 if lo is NONE else int(lo.args[0])
            b = None if hi is NONE else int(hi.args[0])
            ps = x.args[0]
            if all(isinstance(p, str) for p in ps):
                return const(''.join(ps)[a:b])
            if a >= 0 and ps and isinstance(ps[0], str) and len(ps[0]) >= a and (b is None or (b < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -b)):
                q = list(ps)
                q[0] = q[0][a:]
                if b is not None:
                    q[-1] = q[-1][:b]
                return tm.string(q)
        if lo is const(0):
            lo = NONE
        return raw('slice', x, const(0) if lo is NONE else lo, hi)

    def e_Tuple(self, e, st):
        return tup(self.elts(e.elts, st))

    def elts(self, es, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.iter_seq(self.ev(x.value, st), st)
                ps = tm.parts(s)
                if not all(p[0] == 'item' and p[1] is TRUE for p in ps):
                    raise Unsupported('starred element of unknown length')
                out += [p[2] for p in ps]
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        ps = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ps.extend(tm.parts(self.iter_seq(self.ev(x.value, st), st)))
            else:
                ps.append(('item', TRUE, self.ev(x, st)))
        return self.new_list(tm.seq(ps), st)

    def e_Set(self, e, st):
        return self.new_list(tm.items(self.elts(e.elts, st)), st, 'set')

    def e_Dict(self, e, st):
        o = self.new_list(raw('map', EMPTY_MAP, ()), st, 'dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            self.map_put(o, self.ev(k, st), self.ev(v, st), st)
        return o

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            c = cls_of(v)
            if c is not None:
                m = self.cls(c).find('__neg__')
                if isinstance(m, Fn):
                    return self.call_fn(m, [v], {}, st)
            return lift(lambda x: const(-float(x.args[1])) if x.op == 'const' and x.args[0] == 'float' else tm.neg(x), (v,))
        if isinstance(e.op, ast.UAdd):
            return v
        return op('invert', v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st)

    def e_BoolOp(self, e, st):
        return self.boolop(isinstance(e.op, ast.And), e.values, st)

    def boolop(self, is_and, vals, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        c = self.truth(v, st)
        if c is (FALSE if is_and else TRUE):
            return v
        if c is (TRUE if is_and else FALSE):
            return self.boolop(is_and, vals[1:], st)
        s2 = st.copy()
        npend = len(s2.pend)
        w = self.boolop(is_and, vals[1:], s2)
        g = c if is_and else NOT(c)
        self.join_into(st, g, s2, npend)
        if is_and:
            return self.cond_value(c, w, v, FALSE)
        return self.cond_value(c, v, w, TRUE)

    def cond_value(self, c, x, y, bv):
        return ite(c, x, y)

    def join_into(self, st, g, s2, npend):
        """The state s2 replaces st under g."""
        h = hp.merge_heaps(g, s2.heap, st.heap)
        st.heap = h
        for k, v in s2.env.items():
            old = st.env.get(k)
            if old is not v:
                st.env[k] = v if old is None else ite(g, v, old)
        for c, e in s2.pend[npend:]:
            st.pend.append((AND(g, c), e))

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st)
        if c.op == 'unknown':
            raise Unsupported('unknown condition: ' + str(c.args[0]))
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        a, b = st.copy(), st.copy()
        n = len(st.pend)
        x = self.ev(e.body, a)
        y = self.ev(e.orelse, b)
        st.heap = hp.merge_heaps(c, a.heap, b.heap)
        for cc, ex in a.pend[n:]:
            st.pend.append((AND(c, cc), ex))
        for cc, ex in b.pend[n:]:
            st.pend.append((AND(NOT(c), cc), ex))
        return ite(c, x, y)

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        r = TRUE
        for o, x in zip(e.ops, e.comparators):
            v = self.ev(x, st)
            r = AND(r, self.compare(o, l, v, st))
            l = v
        return r

    def compare(self, o, a, b, st):
        k = type(o)
        if k is ast.Is or k is ast.IsNot:
            r = self.is_same(a, b, st)
            return r if k is ast.Is else NOT(r)
        if k is ast.Eq:
            return self.eqv(a, b, st)
        if k is ast.NotEq:
            return NOT(self.eqv(a, b, st))
        if k is ast.In:
            return self.contains(a, b, st)
        if k is ast.NotIn:
            return NOT(self.contains(a, b, st))
        ca = cls_of(a)
        if ca is not None:
            c = self.cls(ca)
            nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[k]
            m = c.find(nm) if c else None
            if isinstance(m, Fn):
                return self.truth(self.call_fn(m, [a, b], {}, st), st)
            if k is ast.Gt and c and isinstance(c.find('__lt__'), Fn):
                return self.truth(self.call_fn(c.find('__lt__'), [b, a], {}, st), st)
        if typ(a) == 'nd' or typ(b) == 'nd':
            if k in (ast.Gt, ast.GtE):
                a, b, k = b, a, ast.Lt if k is ast.Gt else ast.LtE
            return op('ndlt' if k is ast.Lt else 'ndle', a, b)
        if self.is_seqval(a) or self.is_seqval(b):
            a, b = self.deep(a, st), self.deep(b, st)
        if k is ast.Lt:
            return tm.lt(a, b)
        if k is ast.LtE:
            return tm.le(a, b)
        if k is ast.Gt:
            return tm.lt(b, a)
        return tm.le(b, a)

    def is_same(self, a, b, st):
        def f(x, y):
            if x is y:
                return TRUE
            if x is NONE or y is NONE:
                return tm.isnone(y if x is NONE else x)
            if tm.is_inf(x) or tm.is_inf(y):
                return tm.eq(x, y)
            if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                return tm.eq(x, y)
            return refeq(x, y)
        return lift(f, (a, b))

    def e_JoinedStr(self, e, st):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    if sp.op == 'str' and all(isinstance(p, str) for p in sp.args[0]):
                        spec = ''.join(sp.args[0])
                    else:
                        out.append(op('fmtdyn', sp, x))
                        continue
                out.append(self.fmt(spec, x, st))
        return tm.str_concat(*out) if out else const('')

    def fmt(self, spec, x, st):
        if spec == '':
            return self.to_str(x, st)
        return tm.fmt(spec, x)

    def e_Lambda(self, e, st):
        m = self.stack[-1][0]
        f = Fn(e, m, None, 'lambda', '<lambda>', (st.fid, dict(st.env), self.stack[-1][1]))
        return self.py(f)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    # comprehensions are loops that append to a new list

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        o = self.comp(e, st, 'list')
        return o

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def e_DictComp(self, e, st):
        o = self.comp(e, st, 'dictc')
        return o

    def comp(self, e, st, kind):
        acc = self.new_list(tm.items([]), st, 'list' if kind == 'dictc' else kind)
        saved = dict(st.env)

        def emit(x):
            if kind == 'dictc':
                v = tup([self.ev(e.key, x), self.ev(e.value, x)])
            else:
                v = self.ev(e.elt, x)
            self.append(acc, tm.items([v]), x)
            return self.finish(x)

        def gen(k, x):
            if k == len(e.generators):
                return emit(x)
            g = e.generators[k]
            s = self.iter_seq(self.ev(g.iter, x), x)
            names = assigned_names([g.target])

            def body(y, val):
                self.assign(g.target, val, y)
                c = TRUE
                for t in g.ifs:
                    c = AND(c, self.truth(self.ev(t, y), y))
                if c is FALSE:
                    return self.finish(y)
                if c is TRUE:
                    return gen(k + 1, y)
                if c.op == 'unknown':
                    raise Unsupported('unknown filter')
                z = y.copy()
                a = self._g(c, gen(k + 1, z))
                return self.join(a, self._g(NOT(c), self.finish(y)))
            for k2 in names:
                x.env.pop(k2, None)
            for g2 in e.generators[k + 1:]:
                names |= assigned_names([g2.target])
            return self.for_each((e, k), x, s, body, names)
        outs = gen(0, st)
        r = merge_outs(outs, ('fall',))
        for o in outs:
            if o.kind == 'raise' and o.g is not FALSE:
                st.pend.append((o.g, o.val))
        if r is None:
            return raw('bottom')
        st.heap = r[1].heap
        st.env.clear()
        st.env.update(saved)
        if kind == 'dictc':
            s = self.content(acc, st)
            o = self.new_list(self.map_of_pairs(s, st), st, 'dict')
            return o
        return acc

    def map_of_pairs(self, s, st):
        ps = tm.parts(s)
        if all(p[0] == 'item' and p[1] is TRUE for p in ps):
            o = self.new_list(raw('map', EMPTY_MAP, ()), st, 'dict')
            for p in ps:
                self.map_put(o, self.at(self.content(p[2], st), const(0)), self.at(self.content(p[2], st), const(1)), st)
            return self.read('$c', o, st)
        return lift(lambda x: raw('mapof', x), (self._deep_seq(s, st, ()),))

    # ------------------------------------------------------------------------------------------
    # iteration protocol

    def iter_seq(self, v, st):
        """The sequence of the values an iteration over v yields."""
        def one(x):
            if x.op == 'unknown':
                return x
            if x.op == 'bottom':
                return tm.items([])
            if self.is_dict(x):
                return self.map_keys(self.read('$c', x, st), st)
            if self.is_set(x):
                return tm.op('setorder', tm.aggregate('set', self.content(x, st))) if x.op != 'set' else raw('setorder', x)
            if x.op == 'set':
                return raw('setorder', x)
            c = cls_of(x)
            if c == 'file' or (isinstance(typ(x), tuple) and typ(x)[0] == 'file'):
                return raw('filelines', self.read('$name', x, st), self.read('$pos', x, st))
            if c is not None:
                cl = self.cls(c)
                m = cl.find('__iter__') if cl else None
                if isinstance(m, Fn):
                    return self.iter_seq(self.call_fn(m, [x], {}, st), st)
                m = cl.find('__getitem__') if cl else None
                if c == 'Vect' and isinstance(m, Fn):
                    return self.content(self.read('Coords', x, st), st)
            return self.content(x, st)
        return lift(one, (v,))

    # ------------------------------------------------------------------------------------------
    # calls

    def e_Call(self, e, st):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) \
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            fn = self.stack[-1][1]
            c = fn.cls
            self_ = st.env[fn.node.args.args[0].arg]
            for b in c.bases:
                m = b.find(e.func.attr)
                if isinstance(m, Fn):
                    a, k = self.args(e, st)
                    return self.call_fn(m, [self_] + a, k, st)
            return NONE
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, st)
            return self.call_method(o, e.func.attr, e, st)
        f = self.ev(e.func, st)
        if f.op == 'py' and f.args[0].startswith('ext:') and f.args[0][4:] in LAZY:
            return LAZY[f.args[0][4:]](self, e, st)
        a, k = self.args(e, st)
        return self.call(f, a, k, st)

    def args(self, e, st):
        a = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                s = self.iter_seq(self.ev(x.value, st), st)
                ps = tm.parts(s)
                if all(p[0] == 'item' and p[1] is TRUE for p in ps):
                    a += [p[2] for p in ps]
                else:
                    a.append(raw('star', s))
            else:
                a.append(self.ev(x, st))
        k = {}
        for x in e.keywords:
            if x.arg is None:
                raise Unsupported('** arguments')
            k[x.arg] = self.ev(x.value, st)
        return a, k

    def call_method(self, o, name, e, st):
        if o.op == 'ite' and cls_of(o) is None and not (self.is_str(o) or self.is_list(o) or self.is_dict(o) or self.is_set(o)):
            if any(x.op != 'none' and not tm.is_value(x) for x in _alts(o)):
                pass
        c = cls_of(o)
        if c is not None:
            cl = self.cls(c)
            m = cl.find(name) if cl else None
            if isinstance(m, Fn):
                a, k = self.args(e, st)
                if m.kind == 'static':
                    return self.call_fn(m, a, k, st)
                if m.kind == 'prop':
                    return self.call(self.call_fn(m, [o], {}, st), a, k, st)
                return self.call_fn(m, [o] + a, k, st)
            if cl is not None and m is None:
                v = self.getattr(o, name, st)
                a, k = self.args(e, st)
                if v.op in ('py', 'bound', 'ite'):
                    return self.call(v, a, k, st)
                return self.call(v, a, k, st)
        p = self.obj(o)
        if p is not None:
            f = self.getattr(o, name, st)
            if f.op == 'py' and f.args[0].startswith('ext:') and f.args[0][4:] in LAZY:
                return LAZY[f.args[0][4:]](self, e, st)
            a, k = self.args(e, st)
            return self.call(f, a, k, st)
        a, k = self.args(e, st)
        return self.method(o, name, a, k, st)

    def call(self, f, a, k, st):
        if f.op == 'unknown':
            return f
        if f.op == 'ite':
            c = tm.atom(f.args[0])
            s1, s2 = st.copy(), st.copy()
            n = len(st.pend)
            x = self.call(f.args[1], a, k, s1)
            y = self.call(f.args[2], a, k, s2)
            st.heap = hp.merge_heaps(c, s1.heap, s2.heap)
            st.pend += [(AND(c, g), e) for g, e in s1.pend[n:]] + [(AND(NOT(c), g), e) for g, e in s2.pend[n:]]
            return ite(c, x, y)
        if f.op == 'bound':
            fn = self.obj(f.args[0])
            if fn.kind == 'class':
                return self.call_fn(fn, [self.py(fn.cls)] + a, k, st)
            return self.call_fn(fn, [f.args[1]] + a, k, st)
        if f.op == 'method':
            return self.method(f.args[1], f.args[0], a, k, st)
        p = self.obj(f)
        if isinstance(p, Fn):
            if p.kind == 'class':
                return self.call_fn(p, [self.py(p.cls)] + a, k, st)
            return self.call_fn(p, a, k, st)
        if isinstance(p, Cls):
            return self.construct(p, a, k, st)
        if isinstance(p, Ext):
            return self.ext_call(p.name, a, k, st)
        c = cls_of(f)
        if c is not None:
            cl = self.cls(c)
            m = cl.find('__call__') if cl else None
            if isinstance(m, Fn):
                return self.call_fn(m, [f] + a, k, st)
        # a function parameter or an unknown callable
        return op('apply', f, tup([self.deep(x, st) for x in a] + [tup([const(n), self.deep(v, st)]) for n, v in sorted(k.items())]))

    def construct(self, cl, a, k, st):
        if 'Exception' in [ast.unparse(b) for b in cl.node.bases]:
            return raw('exc', cl.name)
        o = self.new(cl.name)
        m = cl.find('__init__')
        if isinstance(m, Fn):
            self.call_fn(m, [o] + a, k, st)
        return o

    def call_fn(self, fn, a, k, st):
        node = fn.node
        if any(x.op == 'star' for x in a):
            if not node.args.vararg:
                raise Unsupported('call with * of unknown length')
        name = fn.module.name + ':' + fn.qual
        if fn.qual in self.opaque or sum(1 for m, f in self.stack if f is not None and f.node is node) >= 1:
            return self.opaque_call(fn, a, k, st)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        env = self.bind(fn, a, k, st)
        self.fid += 1
        sub = St(env, st.heap, self.fid)
        is_gen = not isinstance(node, ast.Lambda) and _is_generator(node)
        self.frames.append((st.fid, st.env))
        self.stack.append((fn.module, fn))
        loc = self.cur_loc
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, sub)
                st.heap = sub.heap
                st.pend += sub.pend
                return v
            if is_gen:
                sub.heap = dict(sub.heap)
                sub.env['$yield'] = self.new_list(tm.items([]), sub)
                acc = sub.env['$yield']
            outs = self.exec_block(node.body, St(env, dict(sub.heap), self.fid))
        finally:
            self.stack.pop()
            self.frames.pop()
            self.cur_loc = loc
        outs = [Out('return', o.g, o.st, NONE) if o.kind == 'fall' else o for o in outs]
        r = merge_outs(outs, ('return',))
        for o in outs:
            if o.kind == 'raise' and o.g is not FALSE:
                st.pend.append((o.g, o.val))
        if r is None:
            # never returns
            return raw('bottom')
        st.heap = r[1].heap
        if is_gen:
            return acc
        return r[2]

    def opaque_call(self, fn, a, k, st):
        m = fn.qual
        old, self.clo_type = self.clo_type, ty.CLOSURES.get(m)
        na = self.bind_tuple(fn, a, k, st)
        self.clo_type = old
        t = ty.CALLS.get(m, '?')
        w = self.written(fn, st)
        if w:
            # what the function sees depends on the writes before the call
            na = na + [const('after writes: ' + ', '.join(w))]
        v = op('call', m, tup(na), t)
        if m not in self.pure:
            self.event('call ' + m, na, st)
        if m in self.touch:
            f = '$touch ' + self.touch[m]
            n = hp.apply_layers(f, EXTKEY, st.heap.get(f, ()), const(0))
            st.heap[f] = st.heap.get(f, ()) + (hp.hset(TRUE, EXTKEY, tm.add(n, const(1))),)
        if m in self.fills and a and cls_of(a[0]) in ty.FIELDS:
            # the receiver gets an unknown content
            post = op('call', m + ' fills', tup(na), ('obj', cls_of(a[0])))
            for f, t in sorted(ty.FIELDS[cls_of(a[0])].items()):
                self.write(f, a[0], raw('fld', f, post, t), st)
        return v

    def written(self, fn, st):
        """Fields which were written before the call and which the function mentions (dataflow at the call; in a loop
        also whether they were written in the same iteration)."""
        names = self.prog.mentions(fn)
        out = set()
        for f, ls in st.heap.items():
            if f != '$c' and f not in names or f[0] == '$' and f != '$c':
                continue
            for w in layer_fields(f, ls):
                if w[0] in names:
                    out.add(w[0] + w[1])
        return sorted(out)

    def bind_tuple(self, fn, a, k, st):
        names = [x.arg for x in fn.node.args.args]
        out = [self.deep(x, st) for x in a]
        d = {n: v for n, v in k.items()}
        for n in names[len(a):]:
            if n in d:
                out.append(self.deep(d.pop(n), st))
            else:
                idx = names.index(n) - (len(names) - len(fn.node.args.defaults))
                if idx >= 0:
                    out.append(self.deep(self.default(fn, idx, st), st))
                else:
                    out.append(UNDEF)
        return out

    def default(self, fn, idx, st):
        s0 = St({}, st.heap, -3)
        self.stack.append((fn.module, None))
        try:
            v = self.ev(fn.node.args.defaults[idx], s0)
            st.heap = s0.heap
            return v
        finally:
            self.stack.pop()

    def bind(self, fn, a, k, st):
        ar = fn.node.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        env = {}
        if len(a) > len(names) and not ar.vararg:
            raise Unsupported('%s: too many arguments' % fn.qual)
        for n, v in zip(names, a):
            env[n] = v
        if ar.vararg:
            rest = a[len(names):]
            if any(x.op == 'star' for x in rest):
                env[ar.vararg.arg] = tm.concat(*[x.args[0] if x.op == 'star' else tm.items([x]) for x in rest])
            else:
                env[ar.vararg.arg] = tup(rest)
        k = dict(k)
        for n in names[len(a):]:
            if n in k:
                env[n] = k.pop(n)
            else:
                idx = names.index(n) - (len(names) - len(ar.defaults))
                if idx < 0:
                    raise Unsupported('%s: missing argument %s' % (fn.qual, n))
                env[n] = self.default(fn, idx, st)
        for x, d in zip(ar.kwonlyargs, ar.kw_defaults):
            if x.arg in k:
                env[x.arg] = k.pop(x.arg)
            elif d is not None:
                s0 = St({}, st.heap, -3)
                self.stack.append((fn.module, None))
                try:
                    env[x.arg] = self.ev(d, s0)
                    st.heap = s0.heap
                finally:
                    self.stack.pop()
            else:
                raise Unsupported('%s: missing argument %s' % (fn.qual, x.arg))
        if k:
            raise Unsupported('%s: unexpected arguments %s' % (fn.qual, sorted(k)))
        # typed parameters that are unknown
        return env

    # key functions

    def lam(self, f, st, elem='?', n=1):
        """Function value as a binder term (pure)."""
        if f is NONE:
            return None
        i = raw('sym', 'arg#%d' % self._next(), elem)
        s2 = st.copy()
        v = self.call(f, [i], {}, s2)
        v = self.deep(v, s2)
        return tm.lam(i, v)

    def _next(self):
        self.alloc += 1
        return self.alloc


LAYERS = {}


def layer_fields(f, ls):
    """(name, suffix) of the fields of entities that the layers write; the suffix tells writes of the current iteration
    of a loop from those of other iterations."""
    k = (f, tuple(id(l) for l in ls))
    if k in LAYERS:
        return LAYERS[k][1]
    out = set()
    last = max([n for n, l in enumerate(ls) if l.op == 'mark'], default=-1)
    for n, l in enumerate(ls):
        if l.op == 'mark':
            if n == last and f != '$c':
                out.add((f, ' (loop)'))
            continue
        for leaf, _ in hp.leaves((l,)):
            if leaf.op == 'mark':
                continue
            o = leaf.args[1]
            name = f
            if f == '$c':
                while o.op in ('at', 'cont', 'mget', 'carry', 'hread') and o.op != 'fld':
                    o = o.args[0] if o.op in ('at', 'cont', 'mget') else None
                    if o is None:
                        break
                if o is None or o.op != 'fld':
                    continue
                name, o = o.args[0], o.args[1]
            if o.op == 'new' or o.op == 'py' or o.op == 'sym' and o.args[0].startswith('mod:'):
                continue
            out.add((name, '' if n < last or last < 0 else ' (iteration)'))
    LAYERS[k] = (ls, out)
    return out


EMPTY_MAP = raw('emptymap')


def tup(vals):
    return raw('tuple', tuple(('item', TRUE, v) for v in vals))


def _alts(t):
    if t.op == 'ite':
        return _alts(t.args[1]) + _alts(t.args[2])
    return [t]


def _drop_leaf(t, name):
    if t.op != 'ite':
        return t
    x, y = _drop_leaf(t.args[1], name), _drop_leaf(t.args[2], name)
    if x.op == name:
        return y
    if y.op == name:
        return x
    return ite(tm.atom(t.args[0]), x, y)


def mget(m, k):
    def f(mm, kk):
        if mm.op != 'map':
            return raw('mget', mm, kk)
        base, ents = mm.args
        r = raw('keyerror') if base is EMPTY_MAP else mget(base, kk)
        for ek, v in ents:
            r = ite(tm.eq(ek, kk), v, r)
        return _drop_leaf(r, 'keyerror')
    return lift(f, (m, k))


tm.REBUILD['mget'] = mget


def _is_generator(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


_shared = {}


def shared_names(m):
    """Variables assigned in the main part of a script which its functions read."""
    if m.name not in _shared or _shared[m.name][0] is not m:
        main = set()
        for b in m.tree.body:
            if is_main_part(b):
                main |= assigned_names(b.body)
        used = set()
        for b in m.tree.body:
            for f in ast.walk(b):
                if isinstance(f, ast.FunctionDef) and not is_main_part(b):
                    own = bound_names(f)
                    used |= {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                             and n.id not in own}
        _shared[m.name] = (m, main & used)
    return _shared[m.name][1]


def assigned_names(nodes):
    r = set()
    st = list(nodes)
    while st:
        x = st.pop()
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, (ast.Store, ast.Del)):
                r.add(x.id)
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            r.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(x, ast.Import):
            for a in x.names:
                r.add((a.asname or a.name).split('.')[0])
        st.extend(ast.iter_child_nodes(x))
    return r


EXT_ALIAS = {'numpy': 'np'}
ND_ATTR = {}
EXT_CONST = {}
LAZY = {}
BUILTINS = set()
BUILTIN_CLASSES = {'Exception', 'ValueError', 'RuntimeError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError',
                   'NotImplementedError', 'StopIteration', 'ImportError', 'OSError', 'IOError', 'FileNotFoundError',
                   'ZeroDivisionError', 'BaseException', 'AttributeError', 'OverflowError', 'ArithmeticError',
                   'EOFError', 'SystemExit', 'UserWarning', 'Warning'}

from .loops import LoopSolver      # noqa: E402
from . import builtins_ as _b      # noqa: E402,F401


STATES = ('carry', 'hread', 'live', 'mark', 'foldv', 'acc')


def has_state(v, seen=None):
    """Does the value contain the state of a loop that is not finished?"""
    seen = set() if seen is None else seen
    if v in seen:
        return False
    seen.add(v)
    return v.op in STATES or any(has_state(y, seen) for y in tm.subterms(v))
