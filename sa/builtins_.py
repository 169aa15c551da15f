"""
Models of the built-in functions, of the methods of built-in types and of the used library functions.
"""

import re

from . import terms as tm
from .terms import raw, ite, AND, OR, NOT, TRUE, FALSE, NONE, const, typ, lift, op, fresh
from . import heap as hp
from .heap import cls_of, refeq
from . import interp as I
from .interp import Interp, Unsupported, tup, Out, merge_outs, EMPTY_MAP
from . import decl as ty

I.BUILTINS |= {'len', 'range', 'enumerate', 'zip', 'map', 'filter', 'sorted', 'reversed', 'min', 'max', 'sum', 'any',
               'all', 'abs', 'round', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'isinstance',
               'type', 'id', 'print', 'open', 'hasattr', 'getattr', 'setattr', 'iter', 'next', 'divmod', 'pow', 'exit',
               'frozenset', 'object', 'repr', 'hash', 'ord', 'chr', 'quit', 'callable', 'super', 'NotImplemented', 'format',
               'staticmethod', 'classmethod', 'property', 'vars', 'dir', 'input', 'bytes', 'bytearray', 'complex', 'slice'}


def _fconst(v):
    return lambda: const(v)


I.EXT_CONST.update({
    'math.inf': _fconst(float('inf')), 'np.inf': _fconst(float('inf')),
    'math.pi': lambda: raw('call', 'math.pi', tup([]), 'num'), 'np.pi': lambda: raw('call', 'math.pi', tup([]), 'num'),
    'sys.maxsize': lambda: raw('call', 'sys.maxsize', tup([]), 'int'),
    'sys.argv': lambda: raw('sym', 'sys.argv', ('seq', 'str')), 'os.sep': _fconst('/'),
})


def items_of(s):
    """Literal elements of the sequence or None."""
    ps = tm.parts(s)
    if all(p[0] == 'item' and p[1] is TRUE for p in ps):
        return [p[2] for p in ps]
    return None


def indexed(s):
    """Sequence as (length, element function)."""
    ps = tm.parts(s)
    if len(ps) == 1 and ps[0][0] == 'loop' and len(ps[0][3]) == 1 and ps[0][3][0][0] == 'item' and ps[0][3][0][1] is TRUE:
        p = ps[0]
        return p[2], lambda i: tm.subst(p[3][0][2], {tm.bv(p[1]): i})
    return tm.length(s), lambda i: tm.at(s, i)


def b_len(it, a, k, st):
    def f(x):
        if x.op == 'unknown':
            return x
        if it.is_dict(x):
            return it.map_len(it.read('$c', x, st))
        if it.is_str(x) and not it.is_seqval(x):
            return tm.length(x)
        c = cls_of(x)
        if c is not None:
            cl = it.cls(c)
            m = cl.find('__len__') if cl else None
            if m is not None:
                return it.call_fn(m, [x], {}, st)
        if it.is_set(x):
            s = it.content(x, st)
            v = items_of(s)
            if v is not None and len(v) <= 1:
                return const(len(v))
            return tm.op('len', tm.aggregate('set', s))
        if typ(x) == 'nd':
            return raw('len', x)
        return tm.length(it.content(x, st))
    return lift(f, (a[0],))


def b_range(it, a, k, st):
    lo, hi, step = const(0), None, const(1)
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]

    def f(lo, hi, step):
        for x in (lo, hi, step):
            if x.op == 'unknown':
                return x
        if step is const(1):
            n = tm.sub(hi, lo)
            i = fresh('i', 'int')
            if n.op == 'num':
                if n.args[0] > 32:
                    p = tm.mk_loop_part(n, i, [('item', TRUE, tm.add(lo, i))])
                    return tm.seq([p])
                return tm.items([tm.add(lo, const(j)) for j in range(max(0, int(n.args[0])))])
            p = tm.mk_loop_part(n, i, [('item', TRUE, tm.add(lo, i))])
            return tm.seq([p])
        if step is const(-1):
            n = tm.sub(lo, hi)
            i = fresh('i', 'int')
            if n.op == 'num' and n.args[0] <= 32:
                return tm.items([tm.sub(lo, const(j)) for j in range(max(0, int(n.args[0])))])
            return tm.seq([tm.mk_loop_part(n, i, [('item', TRUE, tm.sub(lo, i))])])
        if all(x.op == 'num' for x in (lo, hi, step)) and step.args[0] != 0:
            r = range(int(lo.args[0]), int(hi.args[0]), int(step.args[0]))
            if len(r) <= 32:
                return tm.items([const(j) for j in r])
        if step.op == 'num' and step.args[0] > 0:
            n = tm.floordiv(tm.add(tm.sub(hi, lo), tm.sub(step, const(1))), step)
            i = fresh('i', 'int')
            return tm.seq([tm.mk_loop_part(n, i, [('item', TRUE, tm.add(lo, tm.mul(step, i)))])])
        return raw('range', lo, hi, step)
    return lift(f, (lo, hi, step))


def numbered(ps, start):
    """Selected elements with their numbers; None if all elements are selected."""
    out, n0 = [], start
    if not any(p[0] == 'loop' and p[3][0][1] is not TRUE for p in ps):
        return None
    for p in ps:
        if p[0] == 'item':
            out.append(('item', p[1], tup([n0, p[2]])))
            n0 = tm.add(n0, ite(p[1], const(1), const(0)))
        elif p[0] == 'loop' and len(p[3]) == 1 and p[3][0][0] == 'item':
            _, h, n, ((_, g, x),) = p
            i, j = fresh('i', 'int'), fresh('i', 'int')
            k = tm.length(tm.seq([tm.mk_loop_part(i, j, [('item', tm.subst(g, {tm.bv(h): j}), const(0))])]))
            m = {tm.bv(h): i}
            out.append(tm.mk_loop_part(n, i, [('item', tm.subst(g, m), tup([tm.add(n0, k), tm.subst(x, m)]))]))
            n0 = tm.add(n0, tm.length(raw('seq', (p,))))
        else:
            return None
    return tm.seq(out)


def b_enumerate(it, a, k, st):
    start = k.get('start', a[1] if len(a) > 1 else const(0))
    s = it.iter_seq(a[0], st)

    def f(s):
        if s.op == 'unknown':
            return s
        v = items_of(s)
        if v is not None:
            return tm.items([tup([tm.add(start, const(j)), x]) for j, x in enumerate(v)])
        ps = tm.parts(s)
        r = numbered(ps, start)
        if r is not None:
            return r
        n, e = indexed(s)
        i = fresh('i', 'int')
        return tm.seq([tm.mk_loop_part(n, i, [('item', TRUE, tup([tm.add(start, i), e(i)]))])])
    return lift(f, (s,))


def b_zip(it, a, k, st):
    ss = tuple(it.iter_seq(x, st) for x in a)

    def f(*ss):
        for s in ss:
            if s.op == 'unknown':
                return s
        vs = [items_of(s) for s in ss]
        if all(v is not None for v in vs):
            return tm.items([tup(list(z)) for z in zip(*vs)])
        ix = [indexed(s) for s in ss]
        lits = [len(v) for v in vs if v is not None]
        n = ix[0][0]
        for m, _ in ix[1:]:
            if m is not n:
                n = tm.minimum(n, m)
        i = fresh('i', 'int')
        if lits:
            # short literal: the others are taken to be long enough when they have a known number of elements
            pass

        def mk(nn):
            return tm.seq([x for x in [tm.mk_loop_part(nn, i, [('item', TRUE, tup([e(i) for _, e in ix]))])] if x])
        return lift(mk, (n,))
    return lift(f, ss)


def loop_append(it, st, s, fn):
    """New list with fn(element, state) -> (guard, value) appended for every element."""
    acc = it.new_list(tm.items([]), st)

    def body(x, val):
        g, v = fn(val, x)
        if g is TRUE:
            it.append(acc, tm.items([v]), x)
            return it.finish(x)
        y = x.copy()
        it.append(acc, tm.items([v]), y)
        return it.join(it._g(g, it.finish(y)), it._g(NOT(g), it.finish(x)))
    finish_loop(it, st, it.for_each(KEY, st, s, body, set()))
    return acc


class _Key:
    pass


KEY = _Key()
KEY2 = _Key()


def finish_loop(it, st, outs):
    r = merge_outs(outs, ('fall', 'xbreak'))
    for o in outs:
        if o.kind == 'raise' and o.g is not FALSE:
            st.pend.append((o.g, o.val))
    if r is not None:
        st.heap = r[1].heap
        e = dict(r[1].env)
        st.env.clear()
        st.env.update(e)
    return r


def accumulate(it, st, s, init, fn):
    """reduce"""
    st.env['$acc'] = init

    def body(x, val):
        x.env['$acc'] = fn(x.env['$acc'], val, x)
        return it.finish(x)
    finish_loop(it, st, it.for_each(KEY, st, s, body, {'$acc'}))
    return st.env.pop('$acc', init)


def b_map(it, a, k, st):
    f = a[0]
    if len(a) == 2:
        return loop_append(it, st, it.iter_seq(a[1], st), lambda v, x: (TRUE, it.call(f, [v], {}, x)))
    z = b_zip(it, a[1:], {}, st)
    return loop_append(it, st, z, lambda v, x: (TRUE, it.call(f, [p[2] for p in v.args[0]], {}, x)))


def b_filter(it, a, k, st):
    f = a[0]

    def fn(v, x):
        c = it.truth(v if f is NONE else it.call(f, [v], {}, x), x)
        return c, v
    return loop_append(it, st, it.iter_seq(a[1], st), fn)


def elem_of(it, s):
    ps = tm.parts(s)
    for p in ps:
        if p[0] == 'item':
            return typ(p[2])
        if p[0] == 'sub':
            return hp.elem_type(typ(p[1]))
        i, n, b = tm.open_loop(p)
        return elem_of(it, raw('seq', b))
    return '?'


def b_sorted(it, a, k, st):
    s = it.iter_seq(a[0], st)
    key = k.get('key', NONE)
    rev = it.truth(k.get('reverse', FALSE), st)
    return it.new_list(tm.sort(s, it.lam(key, st, elem_of(it, s)), rev), st)


def b_reversed(it, a, k, st):
    return tm.reverse(it.iter_seq(a[0], st))


def minmax(name):
    def f(it, a, k, st):
        key = k.get('key', NONE)
        if len(a) == 1:
            s = it.iter_seq(a[0], st)
        else:
            s = tm.items(a)
        if key is not NONE:
            l = it.lam(key, st, elem_of(it, s))
            v = items_of(s)
            if v is not None and v:
                r = v[0]
                for x in v[1:]:
                    kx, kr = tm.apply_lam(l, x), tm.apply_lam(l, r)
                    r = ite(tm.lt(kx, kr) if name == 'min' else tm.lt(kr, kx), x, r)
                return r
            return lift(lambda s: raw('arg' + name, tm.as_seq(s), l, const(0), elem_of(it, s)), (s,))
        if 'default' in k:
            return ite(tm.eq(tm.length(s), const(0)), k['default'], tm.aggregate(name, s))
        return tm.aggregate(name, deep_items(it, s, st))
    return f


tm.TYPED_OPS['argmin'] = tm.TYPED_OPS['argmax'] = lambda t: t.args[3]


def np_minmax(name):
    f = minmax(name)

    def g(it, a, k, st):
        if len(a) == 1 and not k:
            et = elem_of(it, it.iter_seq(a[0], st))
            if et in ('num', 'int'):
                return f(it, a, k, st)
        return call_term('np.' + name, a, k, it, st)
    return g


def call_term(name, a, k, it, st):
    a = [it.deep(x, st) for x in a]
    return raw('call', name, tup(a + [tup([const(n), it.deep(v, st)]) for n, v in sorted(k.items())]), '?')


def deep_items(it, s, st):
    return s


def b_sum(it, a, k, st):
    s = it.iter_seq(a[0], st)
    start = a[1] if len(a) > 1 else k.get('start', const(0))
    et = elem_of(it, s)
    if (isinstance(et, tuple) and et[0] in ('obj', 'list', 'flist')) or cls_of(start) is not None or it.is_list(start):
        import ast
        v = items_of(s)
        if v is not None:
            r = start
            for x in v:
                r = it.binop(ast.Add(), r, x, st)
            return r
        if it.is_list(start):
            # concatenation of lists
            acc = it.new_list(it.content(start, st), st)

            def body(x, val):
                it.append(acc, it.content(val, x), x)
                return it.finish(x)
            finish_loop(it, st, it.for_each(KEY, st, s, body, set()))
            return acc
        return accumulate(it, st, s, start, lambda r, v, x: it.binop(ast.Add(), r, v, x))
    return lift(lambda s: tm.sum_seq(s, start), (s,))


def b_any(it, a, k, st):
    s = it.iter_seq(a[0], st)
    return lift(lambda s: s if s.op == 'unknown' else tm.exists_in(tm.parts(s), lambda v: it.truth(v, st)), (s,))


def b_all(it, a, k, st):
    s = it.iter_seq(a[0], st)
    return lift(lambda s: s if s.op == 'unknown' else NOT(tm.exists_in(tm.parts(s), lambda v: NOT(it.truth(v, st)))), (s,))


def b_abs(it, a, k, st):
    return tm.absolute(a[0])


def b_round(it, a, k, st):
    n = a[1] if len(a) > 1 else k.get('ndigits', NONE)

    def f(x, n):
        if n is NONE and (typ(x) == 'int'):
            return x
        return raw('round', x, n)
    return lift(f, (a[0], n))


tm.TYPED_OPS['round'] = lambda t: 'int' if t.args[1] is NONE else 'num'


def b_int(it, a, k, st):
    def f(x):
        if x.op == 'unknown':
            return x
        if x.op == 'num':
            return const(int(x.args[0]))
        if typ(x) == 'int':
            return x
        if typ(x) == 'bool':
            return ite(tm.truth(x), const(1), const(0))
        if x in (TRUE, FALSE):
            return const(1 if x is TRUE else 0)
        if x.op == 'str' and len(x.args[0]) == 1 and isinstance(x.args[0][0], str) and x.args[0][0].strip().lstrip('-').isdigit():
            return const(int(x.args[0][0]))
        return raw('int', x)
    return lift(f, (a[0],)) if a else const(0)


def b_float(it, a, k, st):
    def f(x):
        if x.op == 'unknown':
            return x
        if x in (TRUE, FALSE):
            return const(1 if x is TRUE else 0)
        if typ(x) in ('num', 'int'):
            return x
        if x.op == 'const':
            return x
        if x.op == 'str' and len(x.args[0]) == 1 and isinstance(x.args[0][0], str):
            try:
                return const(float(x.args[0][0]))
            except ValueError:
                pass
        return raw('float', x)
    return lift(f, (a[0],)) if a else const(0)


def b_str(it, a, k, st):
    return it.to_str(a[0], st) if a else const('')


def b_bool(it, a, k, st):
    return it.truth(a[0], st) if a else FALSE


def b_list(it, a, k, st):
    return it.new_list(it.iter_seq(a[0], st) if a else tm.items([]), st)


def b_tuple(it, a, k, st):
    if not a:
        return tup([])

    def f(s):
        v = items_of(s)
        if v is not None:
            return tup(v)
        if s.op == 'seq':
            return raw('tuple', s.args[0])
        return s
    return lift(f, (it.iter_seq(a[0], st),))


def b_set(it, a, k, st):
    return it.new_list(it.iter_seq(a[0], st) if a else tm.items([]), st, 'set')


def b_dict(it, a, k, st):
    if a:
        if it.is_dict(a[0]):
            return it.new_list(it.read('$c', a[0], st), st, 'dict')
        return it.new_list(it.map_of_pairs(it.iter_seq(a[0], st), st), st, 'dict')
    o = it.new_list(raw('map', EMPTY_MAP, ()), st, 'dict')
    for n, v in k.items():
        it.map_put(o, const(n), v, st)
    return o


TYPE_NAMES = {'int': ('int',), 'float': ('num',), 'str': ('str',), 'bool': ('bool',)}


def b_isinstance(it, a, k, st):
    def f(x, c):
        if x.op == 'unknown':
            return x
        if c.op == 'tuple':
            return OR(*[f(x, p[2]) for p in c.args[0]])
        p = it.obj(c)
        t = typ(x)
        if p is None:
            return tm.atom(raw('isinst', x, c))
        n = p.name.split('.')[-1]
        cx = cls_of(x)
        if cx is not None:
            y = it.cls(cx)
            while y is not None:
                if y.name == n:
                    if isinstance(t, tuple) and t[0] == 'opt':
                        return NOT(tm.isnone(x))
                    return TRUE
                y = y.bases[0] if y.bases else None
            return FALSE
        if x is NONE:
            return FALSE
        if t in ('int', 'num', 'str', 'bool') or x.op in ('str',):
            if t == 'num' and n in ('int', 'float'):
                return tm.atom(raw('isinst', x, const(n)))
            if n in TYPE_NAMES:
                return TRUE if t in TYPE_NAMES[n] else FALSE
            if n in ('list', 'dict', 'tuple', 'set') or it.cls(n) is not None:
                return FALSE
        if it.is_list(x):
            return TRUE if n == 'list' else FALSE
        if it.is_dict(x):
            return TRUE if n == 'dict' else FALSE
        if x.op == 'tuple':
            return TRUE if n == 'tuple' else FALSE
        if x.op == 'exc':
            return TRUE if x.args[0] == n else FALSE
        if t == '?':
            return tm.atom(raw('isinst', x, const(n)))
        return FALSE
    return lift(f, (a[0], a[1]))


def b_type(it, a, k, st):
    def f(x):
        c = cls_of(x)
        if c is not None and it.cls(c) is not None:
            return it.py(it.cls(c))
        t = typ(x)
        n = {'int': 'int', 'num': 'float', 'str': 'str', 'bool': 'bool'}.get(t)
        if it.is_list(x):
            n = 'list'
        elif it.is_dict(x):
            n = 'dict'
        elif x.op == 'tuple':
            n = 'tuple'
        if n in ('list', 'dict', 'tuple', 'str', 'bool'):
            return it.py(I.Ext(n))
        return raw('typeof', x)
    return lift(f, (a[0],))


def b_none(it, a, k, st):
    return NONE


def b_open(it, a, k, st):
    mode = a[1] if len(a) > 1 else k.get('mode', const('r'))
    o = it.new('file')
    it.write('$name', o, a[0], st)
    m = ''.join(mode.args[0]) if mode.op == 'str' and all(isinstance(p, str) for p in mode.args[0]) else '?'
    if 'w' in m or 'a' in m or '+' in m or m == '?':
        it.write('$c', o, tm.items([]), st)
        it.event('open', [a[0], mode, o], st)
    return o


def b_print(it, a, k, st):
    f = k.get('file')
    if f is None or cls_of(f) != 'file':
        return NONE
    sep, end = k.get('sep', const(' ')), k.get('end', const('\n'))
    out = []
    for x in a:
        if out:
            out.append(sep)
        out.append(it.to_str(x, st))
    it.append(f, tm.items([tm.str_concat(*(out + [end]))]), st)
    return NONE


def b_exit(it, a, k, st):
    st.pend.append((TRUE, raw('exc', 'SystemExit')))
    return NONE


def b_getattr(it, a, k, st):
    if a[1].op == 'str' and len(a[1].args[0]) == 1 and isinstance(a[1].args[0][0], str):
        return it.getattr(a[0], a[1].args[0][0], st)
    return op('getattr', a[0], a[1])


def b_setattr(it, a, k, st):
    if a[1].op == 'str' and len(a[1].args[0]) == 1 and isinstance(a[1].args[0][0], str):
        it.setattr(a[0], a[1].args[0][0], a[2], st)
        return NONE
    raise Unsupported('setattr')


def b_next(it, a, k, st):
    s = it.content(a[0], st) if not it.is_set(a[0]) else it.iter_seq(a[0], st)
    if len(a) > 1:
        return ite(tm.eq(tm.length(s), const(0)), a[1], tm.at(s, const(0)))
    return tm.at(s, const(0))


def b_divmod(it, a, k, st):
    return tup([tm.floordiv(a[0], a[1]), tm.mod(a[0], a[1])])


def b_isclose(it, a, k, st):
    rel = k.get('rel_tol', const(1e-9))
    ab = k.get('abs_tol', const(0))

    def f(x, y, r, b):
        if x is y:
            return TRUE
        if x.id > y.id:
            x, y = y, x
        return tm.atom(raw('isclose', x, y, r, b))
    return lift(f, (a[0], a[1], rel, ab))


tm.ATOMS.add('isclose')
tm.TYPED_OPS['isclose'] = lambda t: 'bool'
tm.REBUILD['isclose'] = lambda x, y, r, b: b_isclose(None, [x, y], {'rel_tol': r, 'abs_tol': b}, None)


def b_sqrt(it, a, k, st):
    return tm.sqrt(a[0])


def b_pow(it, a, k, st):
    return tm.power(a[0], a[1])


def rows(it, x, st):
    """Literal matrix."""
    d = it.deep(x, st)
    while d.op in ('nparray', 'listof'):
        d = d.args[0]
    v = items_of(d) if d.op in ('seq', 'tuple') else None
    return v


def b_det(it, a, k, st):
    def f(d):
        while d.op in ('nparray', 'listof'):
            d = d.args[0]
        if d.op not in ('seq', 'tuple'):
            return None
        v = items_of(d)
        if v is None:
            return None
        m = []
        for r in v:
            while r.op in ('nparray', 'listof'):
                r = r.args[0]
            if r.op not in ('seq', 'tuple'):
                return None
            w = items_of(r)
            if w is None or len(w) != len(v):
                return None
            m.append(w)
        return det(m)
    d = it.deep(a[0], st)
    def g(x):
        r = f(x)
        return r if r is not None else raw('call', 'np.linalg.det', tup([x]), 'num')
    return lift(g, (d,))


def det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) > 4:
        raise Unsupported('determinant')
    r = const(0)
    for j in range(len(m)):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = tm.mul(m[0][j], det(minor))
        r = tm.add(r, t) if j % 2 == 0 else tm.sub(r, t)
    return r


def b_nparray(it, a, k, st):
    return lift(nd, (it.deep(a[0], st),))


# Arrays: nested sequences without the wrappers.

def _plain(x):
    while x.op in ('nparray', 'listof'):
        x = x.args[0]
    if x.op in ('seq', 'tuple'):
        return raw('seq', _plain_parts(x.args[0]))
    return x


def _plain_parts(ps):
    out = []
    for p in ps:
        if p[0] == 'item':
            out.append(('item', p[1], lift(_plain, (p[2],))))
        elif p[0] == 'loop':
            out.append(p[:3] + (_plain_parts(p[3]),))
        else:
            out.append(p)
    return tuple(out)


def nd(x):
    return raw('nparray', _plain(x))


tm.REBUILD['nparray'] = lambda x: lift(nd, (x,))


def nd_dims(x):
    """1, 2 or None"""
    if x.op == 'nparray':
        x = x.args[0]
    elif x.op != 'seq':
        return None
    if x.op != 'seq' or not x.args[0]:
        return None

    def first(ps):
        p = ps[0]
        while p[0] == 'loop':
            if not p[3]:
                return None
            p = p[3][0]
        return p[2] if p[0] == 'item' else None
    f = first(x.args[0])
    if f is None:
        return None
    if f.op == 'seq':
        return 2 if nd_dims(f) == 1 else None
    if typ(f) in ('num', 'int'):
        return 1
    return None


def nd_shape(x):
    if x.op == 'nparray':
        d = nd_dims(x)
        if d == 1:
            return tup([tm.length(x.args[0])])
        if d == 2:
            r = tm.at(x.args[0], const(0))
            if r.op == 'seq':
                return tup([tm.length(x.args[0]), tm.length(r)])
    return raw('ndshape', x)


def nd_mat(x):
    """Rows of a literal square matrix."""
    if x.op != 'nparray' or x.args[0].op != 'seq':
        return None
    m = items_of(x.args[0])
    if not m or not all(r.op == 'seq' for r in m):
        return None
    m = [items_of(r) for r in m]
    if not all(r is not None and len(r) == len(m) and all(typ(y) in ('num', 'int') for y in r) for r in m):
        return None
    return m


def nd_vec(x):
    if x.op != 'nparray' or x.args[0].op != 'seq':
        return None
    v = items_of(x.args[0])
    return v if v and all(typ(y) in ('num', 'int') for y in v) else None


def nd_solve(x, y):
    """Cramer's rule."""
    m, v = nd_mat(x), nd_vec(y)
    if m is None or v is None or len(m) != len(v) or len(m) > 3:
        return None
    d = det(m)
    return nd(tm.items([tm.div(det([r[:j] + [v[i]] + r[j + 1:] for i, r in enumerate(m)]), d) for j in range(len(m))]))


def nd_dot(x, y):
    if x.op == 'ndinv':
        r = nd_solve(x.args[0], y)
        if r is not None:
            return r
    return None


def b_inv(it, a, k, st):
    return lift(lambda x: raw('ndinv', x), (it.deep(a[0], st),))


def b_solve(it, a, k, st):
    def f(x, y):
        r = nd_solve(x, y)
        return r if r is not None else raw('call', 'np.linalg.solve', tup([x, y]), 'nd')
    return lift(f, (it.deep(a[0], st), lift(nd, (it.deep(a[1], st),))))


def b_transpose(it, a, k, st):
    if k or len(a) != 1:
        raise Unsupported('transpose')
    return lift(lambda x: nd_T(nd(x)), (it.deep(a[0], st),))


def b_npdot(it, a, k, st):
    def f(x, y):
        r = nd_dot(x, y)
        return r if r is not None else raw('call', 'np.dot', tup([x, y]), 'nd')
    return lift(f, (it.deep(a[0], st), it.deep(a[1], st)))


tm.TYPED_OPS['ndinv'] = lambda t: 'nd'
tm.REBUILD['ndinv'] = lambda x: lift(lambda x: raw('ndinv', x), (x,))


def nd_T(x):
    if nd_mat(x) is not None:
        return nd(tm.items([tm.items(list(c)) for c in zip(*nd_mat(x))]))
    if x.op == 'nparray' and x.args[0].op == 'seq':
        rows = items_of(x.args[0])
        if rows and any(r.op == 'seq' for r in rows):
            n = [tm.length(r) for r in rows if r.op == 'seq'][0]
            cols = []
            j = tm.fresh('i', 'int')
            for r in rows:
                if r.op == 'seq' and tm.length(r) is n and nd_dims(r) == 1:
                    cols.append(tm.at(r, j))
                elif r.op == 'call' and r.args[0] == 'np.zeros' and r.args[1].args[0] and r.args[1].args[0][0][2] in (n, tup([n])):
                    cols.append(const(0))
                else:
                    return raw('ndT', x)
            p = tm.mk_loop_part(n, j, [('item', TRUE, raw('seq', tuple(('item', TRUE, c) for c in cols)))])
            return nd(tm.seq([p] if p else []))
    return raw('ndT', x)


tm.TYPED_OPS['nparray'] = tm.TYPED_OPS['ndlt'] = tm.TYPED_OPS['ndle'] = lambda t: 'nd'
tm.TYPED_OPS['slice'] = tm.TYPED_OPS['slice3'] = lambda t: 'nd' if typ(t.args[0]) == 'nd' else typ(t.args[0]) \
    if isinstance(typ(t.args[0]), tuple) and typ(t.args[0])[0] == 'seq' else '?'
tm.TYPED_OPS['ndT'] = lambda t: 'nd'
tm.TYPED_OPS['ndshape'] = lambda t: ('seq', 'int')
tm.REBUILD['ndT'] = lambda x: lift(nd_T, (x,))
tm.REBUILD['ndshape'] = lambda x: lift(nd_shape, (x,))
ND_ATTR = {'T': nd_T, 'shape': nd_shape, 'size': lambda x: raw('ndsize', x)}
I.ND_ATTR.update(ND_ATTR)
tm.TYPED_OPS['ndsize'] = lambda t: 'int'


def nd_reshape(x, ks):
    ks = [tm.at(k, const(j)) for k in ks for j in range(2)] if len(ks) == 1 and ks[0].op in ('seq', 'tuple') and \
        tm.length(ks[0]) is const(2) else ks
    v = items_of(x.args[0]) if x.op == 'nparray' and x.args[0].op == 'seq' and nd_dims(x) == 1 else None
    if v is not None and len(ks) == 2:
        n = (const(len(v)), const(-1))
        if ks[0] is const(1) and ks[1] in n:
            return nd(tm.items([x.args[0]]))
        if ks[0] in n and ks[1] is const(1):
            return nd(tm.items([tm.items([y]) for y in v]))
    return None


def b_vstack(it, a, k, st):
    def f(d):
        d2 = _plain(d)
        v = items_of(d2) if d2.op == 'seq' else None
        if v:
            if nd_dims(v[0]) == 2 and all(nd_dims(y) in (1, 2) for y in v[1:]):
                s = v[0] if v[0].op == 'seq' else v[0].args[0]
                for y in v[1:]:
                    s = tm.concat(s, tm.items([y]) if nd_dims(y) == 1 else y)
                return nd(s)
            if all(nd_dims(y) == 1 for y in v):
                return nd(d2)
            return raw('vstack', tup(v))
        if nd_dims(d2) == 2:
            return nd(d2)
        return raw('call', 'np.vstack', tup([d]), 'nd')
    return lift(f, (it.deep(a[0], st),))


tm.TYPED_OPS['vstack'] = lambda t: 'nd'


def b_reduce(it, a, k, st):
    s = it.iter_seq(a[1], st)
    if len(a) > 2:
        init = a[2]
    else:
        init = tm.at(s, const(0))
        s = tm.slice_(s, const(1), NONE)
    return accumulate(it, st, s, init, lambda r, v, x: it.call(a[0], [r, v], {}, x))


def b_chain(it, a, k, st):
    if any(x.op == 'star' for x in a):
        s = tm.concat(*[x.args[0] if x.op == 'star' else tm.items([x]) for x in a])
        return b_chain_from(it, [s], k, st)
    return tm.concat(*[it.iter_seq(x, st) for x in a]) if a else tm.items([])


def b_chain_from(it, a, k, st):
    s = it.iter_seq(a[0], st)
    acc = it.new_list(tm.items([]), st)

    def inner(x, val):
        it.append(acc, tm.items([val]), x)
        return it.finish(x)

    def body(x, val):
        return it.for_each(KEY2, x, it.iter_seq(val, x), inner, set())
    finish_loop(it, st, it.for_each(KEY, st, s, body, set()))
    return acc


def b_partial(it, a, k, st):
    if k:
        return raw('partial', a[0], tuple(a[1:]), tup([tup([const(n), v]) for n, v in sorted(k.items())]))
    return raw('partial', a[0], tuple(a[1:]))


def b_deepcopy(it, a, k, st):
    return op('deepcopy', it.deep(a[0], st))


def b_copy(it, a, k, st):
    o = a[0]
    if it.is_list(o):
        return it.new_list(it.content(o, st), st)
    return op('copy', it.deep(o, st))


def b_event(name):
    def f(it, a, k, st):
        it.event(name, [it.deep(x, st) for x in a], st)
        return raw('call', name, tup([it.deep(x, st) for x in a]), ty.CALLS.get(name, '?'))
    return f


def b_random(name):
    def f(it, a, k, st):
        return raw('rnd', name, tup([it.deep(x, st) for x in a] + list(it.loop_syms)))
    return f


tm.TYPED_OPS['rnd'] = lambda t: 'int' if t.args[0] == 'random.randint' else 'num'


def b_regex(name):
    def f(it, a, k, st):
        a = list(a)
        p = a[0]
        if p.op == 'str' and all(isinstance(x, str) for x in p.args[0]):
            # repetitions of one character are written out
            t = re.sub(r'(\\.|[^\\{}()\[\]|*+?.^$])\{(\d{1,2})\}', lambda m: m.group(1) * int(m.group(2)), ''.join(p.args[0]))
            a[0] = const(t)
        return raw('call', name, tup([it.deep(x, st) for x in a] + [tup([const(n), it.deep(v, st)]) for n, v in sorted(k.items())]), '?')
    return f


def b_format(it, a, k, st):
    if len(a) == 2 and a[1].op == 'str' and all(isinstance(x, str) for x in a[1].args[0]) and not k:
        return lift(lambda x: tm.str_concat(it.fmt(''.join(a[1].args[0]), x, st)), (a[0],))
    return raw('call', 'format', tup([it.deep(x, st) for x in a]), 'str')


FUNCS = {
    'format': b_format, 're.search': b_regex('re.search'), 're.match': b_regex('re.match'), 're.fullmatch': b_regex('re.fullmatch'),
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'filter': b_filter,
    'sorted': b_sorted, 'reversed': b_reversed, 'min': minmax('min'), 'max': minmax('max'), 'sum': b_sum, 'any': b_any,
    'all': b_all, 'abs': b_abs, 'round': b_round, 'int': b_int, 'float': b_float, 'str': b_str, 'bool': b_bool,
    'list': b_list, 'tuple': b_tuple, 'dict': b_dict, 'set': b_set, 'frozenset': b_set, 'isinstance': b_isinstance,
    'type': b_type, 'print': b_print, 'open': b_open, 'exit': b_exit, 'sys.exit': b_exit, 'quit': b_exit,
    'getattr': b_getattr, 'setattr': b_setattr, 'iter': lambda it, a, k, st: a[0], 'next': b_next, 'divmod': b_divmod,
    'pow': b_pow, 'math.pow': b_pow, 'math.sqrt': b_sqrt, 'np.sqrt': b_sqrt, 'math.isclose': b_isclose,
    'np.amax': np_minmax('max'), 'np.max': np_minmax('max'), 'np.amin': np_minmax('min'), 'np.min': np_minmax('min'),
    'np.linalg.det': b_det, 'np.array': b_nparray, 'np.asarray': b_nparray, 'np.vstack': b_vstack, 'functools.reduce': b_reduce, 'itertools.chain': b_chain,
    'itertools.chain.from_iterable': b_chain_from, 'functools.partial': b_partial, 'copy.deepcopy': b_deepcopy,
    'copy.copy': b_copy, 'repr': b_str, 'math.fabs': b_abs, 'np.abs': b_abs, 'math.fsum': b_sum,
    'os.makedirs': b_event('os.makedirs'), 'os.mkdir': b_event('os.makedirs'), 'os.remove': b_event('os.remove'),
    'argparse.ArgumentParser': lambda it, a, k, st: b_parser(it, a, k, st),
    'shutil.rmtree': b_event('shutil.rmtree'), 'random.random': b_random('random.random'),
    'random.randint': b_random('random.randint'), 'random.shuffle': b_event('random.shuffle'),
    'np.linalg.inv': b_inv, 'np.linalg.solve': b_solve, 'np.transpose': b_transpose,
    'np.double': b_float, 'np.float': b_float, 'np.float64': b_float,
}


def opened(self, x, st):
    """A library gets the file, not the object."""
    if x.op == 'new' and x.args[0] == 'file':
        return raw('opened', self.read('$name', x, st))
    return self.deep(x, st)


def ext_call(self, name, a, k, st):
    if name.startswith('numpy.'):
        name = 'np.' + name[6:]
    f = FUNCS.get(name)
    if f is not None:
        return f(self, a, k, st)
    if name in I.BUILTIN_CLASSES:
        return raw('exc', name)
    if name.endswith('Error') or name.endswith('Exception'):
        return raw('exc', name.split('.')[-1])
    args = [opened(self, x, st) for x in a] + [tup([const(n), opened(self, v, st)]) for n, v in sorted(k.items())]
    if not pure_lib(name):
        self.event(name, args, st)
    return lift(lambda *z: raw('call', name, tup(z), ty.CALLS.get(name, '?')), tuple(args))


PURE_MODULES = ('math.', 'np.', 'numpy.', 'os.path.', 're.', 'pathlib.', 'statistics.', 'itertools.', 'functools.', 'operator.',
                'scipy.', 'struct.', 'string.', 'copy.', 'collections.', 'textwrap.', 'decimal.', 'fractions.', 'bisect.')
PURE_LIB = {'format', 'time.time', 'time.perf_counter', 'time.process_time', 'json.load', 'json.loads', 'json.dumps', 'os.listdir',
            'os.getcwd', 'os.fspath', 'sys.getsizeof', 'id', 'hash', 'ord', 'chr', 'hex', 'bytes', 'complex', 'slice',
            'callable', 'hasattr', 'vars', 'dir', 'object', 'super', 'array.array', 'platform.system', 'os.environ.get'}
IMPURE = {'np.savetxt', 'np.save', 'np.savez', 'np.set_printoptions', 'np.copyto', 'np.put', 'np.place', 'np.fill_diagonal',
          'struct.pack_into', 'np.random', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right'}


def pure_lib(name):
    n = 'np.' + name[6:] if name.startswith('numpy.') else name
    if n in IMPURE or n.startswith('np.random.'):
        return False
    return name in PURE_LIB or name.startswith(PURE_MODULES)


Interp.ext_call = ext_call
Interp.cmd_attr = staticmethod(lambda o, name: cmd_attr(o, name))


# --------------------------------------------------------------------------------------------------
# Command lines: what is declared counts, the texts of the help do not.

DOCS = {'help', 'metavar', 'prog', 'description', 'formatter_class', 'epilog', 'usage'}


def b_parser(it, a, k, st):
    o = it.new('parser')
    it.write('$c', o, tm.items([]), st)
    return o


def parser_method(self, o, name, a, k, st):
    group = NONE
    if o.op == 'group':
        o, group = o.args
    if name in ('add_mutually_exclusive_group', 'add_argument_group'):
        if name == 'add_argument_group':
            return o
        n = len(tm.parts(self.read('$c', o, st)))
        return raw('group', o, tup([const(n), k.get('required', FALSE)]))
    if name == 'add_argument':
        flags = [lit(x) for x in a]
        if not flags or None in flags:
            raise Unsupported('command line')
        kw = {n: v for n, v in k.items() if n not in DOCS and not (n == 'default' and v is NONE)}
        dest = lit(kw.pop('dest')) if 'dest' in kw else ([f for f in flags if f.startswith('--')] + flags)[0].lstrip('-').replace('-', '_')
        kind = 'option' if flags[0].startswith('-') else 'positional'
        d = raw('decl', const(kind), const(dest), tup([const(f) for f in sorted(flags) if f.startswith('-')]),
                tup([tup([const(n), self.deep(v, st)]) for n, v in sorted(kw.items())]), group)
        list_method(self, o, 'append', [d], {}, st)
        return NONE
    if name == 'parse_args' and not a and not k:
        ds = [p[2] for p in tm.parts(self.read('$c', o, st))]
        if any(d.op != 'decl' for d in ds):
            raise Unsupported('command line')
        ds = [d for d in ds if d.args[0] is const('positional')] + \
            sorted((d for d in ds if d.args[0] is not const('positional')), key=lambda d: lit(d.args[1]))
        gs = []
        for n, d in enumerate(ds):
            g = d.args[4]
            if g is not NONE:
                if g not in gs:
                    gs.append(g)
                ds[n] = raw('decl', *d.args[:4], tup([const(gs.index(g)), g.args[0][1][2]]))
        return raw('cmdline', tup(ds))
    raise Unsupported('command line: ' + name)


def arg_type(kw):
    kw = {lit(p[2].args[0][0][2]): p[2].args[0][1][2] for p in tm.parts(kw)}
    act = lit(kw.get('action', const('store')))
    if act in ('store_true', 'store_false'):
        return 'bool'
    if act == 'count':
        return 'int' if 'default' in kw else '?'
    t = tm.show(kw['type']) if 'type' in kw else 'str'
    t = 'num' if 'float' in t else 'int' if 'int' in t else 'str' if 'str' in t else '?'
    if 'nargs' in kw or act != 'store':
        return '?'
    return t


def cmd_attr(o, name):
    for p in tm.parts(o.args[0]):
        if lit(p[2].args[1]) == name:
            return raw('call', 'argument', (const(name), o), arg_type(p[2].args[3]))
    return raw('call', 'no argument', (const(name), o), '?')


# --------------------------------------------------------------------------------------------------
# Methods of built-in types.

def parse_format(s):
    """Template -> [literal | (field, spec)]"""
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        if conv or (spec and '{' in spec):
            raise Unsupported('format ' + s)
        out.append((field, spec or ''))
    return out


def method(self, o, name, a, k, st):
    def one(x):
        if x.op == 'unknown':
            return x
        return method1(self, x, name, a, k, st)
    if o.op == 'ite' and not (self.is_list(o) or self.is_dict(o) or self.is_set(o)):
        pure = self.is_str(o) or name in ('split', 'strip', 'format', 'join', 'replace', 'startswith', 'endswith', 'keys', 'get')
        if pure:
            return lift(one, (o,))
        c = tm.atom(o.args[0])
        s1, s2 = st.copy(), st.copy()
        n = len(st.pend)
        v1 = method(self, o.args[1], name, a, k, s1)
        v2 = method(self, o.args[2], name, a, k, s2)
        st.heap = hp.merge_heaps(c, s1.heap, s2.heap)
        st.pend += [(AND(c, g), e) for g, e in s1.pend[n:]] + [(AND(NOT(c), g), e) for g, e in s2.pend[n:]]
        return ite(c, v1, v2)
    return one(o)


def method1(self, o, name, a, k, st):
    c = cls_of(o)
    if c == 'file':
        return file_method(self, o, name, a, k, st)
    if c == 'parser' or o.op == 'group':
        return parser_method(self, o, name, a, k, st)
    if self.is_dict(o):
        return dict_method(self, o, name, a, k, st)
    if self.is_set(o) or (name in ('add', 'discard') and self.is_seqval(o)):
        return set_method(self, o, name, a, k, st)
    if self.is_str(o) and not self.is_list(o):
        return str_method(self, o, name, a, k, st)
    if self.is_list(o) or (name in LISTM and (self.is_seqval(o) or o.op in ('new', 'carry', 'hread'))):
        return list_method(self, o, name, a, k, st)
    t = typ(o)
    if o is NONE:
        return raw('bottom')
    if t == '?' and name in STRM and name not in LISTM:
        return str_method(self, o, name, a, k, st)
    if t == '?' and name in LISTM and name not in ('index', 'count', 'copy'):
        return list_method(self, o, name, a, k, st)
    if t == '?' and name in ('keys', 'values', 'items', 'get', 'update'):
        return dict_method(self, o, name, a, k, st)
    # unknown object
    args = [self.deep(x, st) for x in a] + [tup([const(n), self.deep(v, st)]) for n, v in sorted(k.items())]
    if name == 'reshape' and t == 'nd' and args:
        r = nd_reshape(o, list(args))
        if r is not None:
            return r
    if name == 'dot' and t == 'nd' and len(args) == 1:
        return lift(lambda x, y: nd_dot(x, y) or raw('call', '.dot', tup([x, y]), 'nd'), (o, lift(nd, (args[0],))))
    if name in PURE_OBJ or t == 'nd':
        return lift(lambda *z: raw('call', '.' + name, tup(z), 'nd' if t == 'nd' and name in ('reshape', 'copy', 'dot', 'argsort', 'astype') else '?'),
                    tuple([o] + args))
    self.event('.' + name, [self.deep(o, st)] + args, st)
    return raw('call', '.' + name, tup([o] + args), '?')


PURE_OBJ = {'isdigit', 'group', 'groups', 'parse_args', 'Get_rank', 'Get_size', 'is_dir', 'reshape', 'T', 'tolist', 'with_suffix'}
LISTM = {'append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'index', 'count', 'copy', 'clear'}
STRM = {'split', 'strip', 'replace', 'lower', 'upper', 'rstrip', 'lstrip', 'startswith', 'endswith', 'isdigit', 'find',
        'count', 'zfill', 'splitlines', 'join', 'format', 'title', 'rfind', 'index', 'partition', 'isspace', 'rsplit', 'encode'}


def lit(x):
    if x.op == 'str' and all(isinstance(p, str) for p in x.args[0]):
        return ''.join(x.args[0])
    return None


def str_method(self, o, name, a, k, st):
    if name == 'format':
        s = lit(o)
        if s is None:
            return op('fmtdyn', o, tup([self.deep(x, st) for x in a]))
        out = []
        for p in parse_format(s):
            if isinstance(p, str):
                out.append(const(p))
                continue
            field, spec = p
            m = re.match(r'^(\w+)((?:\[\w+\]|\.\w+)*)$', field)
            if not m:
                raise Unsupported('format field ' + field)
            v = a[int(m.group(1))] if m.group(1).isdigit() else k[m.group(1)]
            for q in re.findall(r'\[\w+\]|\.\w+', m.group(2)):
                if q[0] == '[':
                    key = q[1:-1]
                    v = self.getitem(v, const(int(key)) if key.isdigit() else const(key), st)
                else:
                    v = self.getattr(v, q[1:], st)
            out.append(self.fmt(spec, v, st))
        return tm.str_concat(*out) if out else const('')
    if name == 'join':
        s = self.iter_seq(a[0], st)
        return tm.join(o, s)
    la = [lit(x) for x in a]
    s = lit(o)
    if s is not None and all(x is not None for x in la) and not k and name in ('lower', 'upper', 'strip', 'replace', 'startswith',
                                                                              'endswith', 'rstrip', 'lstrip', 'isdigit', 'zfill', 'title'):
        return const(getattr(s, name)(*la))
    if s is not None and name in ('split',) and all(x is not None for x in la) and not k:
        return self.new_list(tm.items([const(x) for x in s.split(*la)]), st)
    if name in ('startswith', 'endswith') and len(a) == 1 and a[0].op == 'tuple':
        return OR(*[self.truth(str_method(self, o, name, [p[2]], k, st), st) for p in a[0].args[0]])
    if name in ('startswith', 'endswith') and o.op == 'str' and la[0] is not None and o.args[0]:
        e = o.args[0][0 if name == 'startswith' else -1]
        if isinstance(e, str) and len(e) >= len(la[0]):
            return TRUE if getattr(e, name)(la[0]) else FALSE
    if name in ('startswith', 'endswith') and len(a) == 1 and la[0] and not k:
        n = len(la[0])
        return self.eqv(self.str_slice(o, const(-n) if name == 'endswith' else NONE, NONE if name == 'endswith' else const(n)), a[0], st)
    args = [x for x in a]
    if o.op == 'str' and len(o.args[0]) == 1 and not isinstance(o.args[0][0], str) and typ(o.args[0][0]) == 'str' \
            and o.args[0][0].op != 'fmt':
        o = o.args[0][0]
    if name in ('isdigit', 'startswith', 'endswith', 'isalpha', 'isspace', 'isalnum', 'isupper', 'islower', 'isnumeric'):
        return lift(lambda *z: tm.atom(raw('smeth', name, tuple(z))), tuple([o] + args))
    return lift(lambda *z: raw('smeth', name, tuple(z)), tuple([o] + args))


def list_method(self, o, name, a, k, st):
    if name == 'append':
        self.append(o, tm.items([a[0]]), st)
        return NONE
    if name == 'extend':
        self.append(o, self.iter_seq(a[0], st), st)
        return NONE
    if name in ('index', 'count') and not (self.is_list(o)):
        return lift(lambda s, v: raw('index' if name == 'index' else 'count', s, v), (self.content(o, st), a[0]))
    c = self.content(o, st)
    if name == 'insert':
        if a[0] is const(0):
            self.write('$c', o, tm.concat(tm.items([a[1]]), c), st)
        else:
            self.write('$c', o, op('linsert', c, a[0], a[1]), st)
        return NONE
    if name == 'remove':
        self.write('$c', o, lift(lambda s: list_remove(self, s, a[0], st), (c,)), st)
        return NONE
    if name == 'pop':
        j = a[0] if a else const(-1)
        v = self.at(c, j)
        self.write('$c', o, self.del_at(c, j), st)
        return v
    if name == 'sort':
        key = k.get('key', NONE)
        rev = self.truth(k.get('reverse', FALSE), st)
        self.write('$c', o, tm.sort(c, self.lam(key, st, elem_of(self, c)), rev), st)
        return NONE
    if name == 'reverse':
        self.write('$c', o, tm.reverse(c), st)
        return NONE
    if name == 'clear':
        self.write('$c', o, tm.items([]), st)
        return NONE
    if name == 'copy':
        return self.new_list(c, st)
    if name == 'index':
        def f(s, v):
            it = items_of(s)
            if it is not None:
                r = const(len(it))
                for j in range(len(it) - 1, -1, -1):
                    r = ite(self.eqv(it[j], v, st), const(j), r)
                return r
            return raw('index', tm.as_seq(s), v)
        return lift(f, (c, a[0]))
    if name == 'count':
        r = const(0)
        it = items_of(c)
        if it is not None:
            for x in it:
                r = tm.add(r, ite(self.eqv(x, a[0], st), const(1), const(0)))
            return r
        return op('count', c, a[0])
    raise Unsupported('list method ' + name)


tm.TYPED_OPS['count'] = lambda t: 'int'


def list_remove(self, s, v, st):
    if s.op == 'unknown':
        return s
    it = items_of(s) if s.op in ('seq', 'tuple') else None
    if it is not None and len(it) <= 8:
        out = []
        before = FALSE
        for x in it:
            e = self.eqv(x, v, st)
            out.append(('item', NOT(AND(e, NOT(before))), x))
            before = OR(before, e)
        return tm.seq(out)
    return raw('lremove', tm.as_seq(s), v)


tm.TYPED_OPS['lremove'] = lambda t: typ(t.args[0])
tm.TYPED_OPS['upd'] = lambda t: typ(t.args[0])
tm.TYPED_OPS['updl'] = lambda t: typ(t.args[0])
tm.TYPED_OPS['delat'] = lambda t: typ(t.args[0])


def dict_method(self, o, name, a, k, st):
    m = self.read('$c', o, st)
    if name == 'keys':
        return self.map_keys(m, st)
    if name == 'values':
        return self.map_values(m, st)
    if name == 'items':
        return self.map_items(m, st)
    if name == 'get':
        return self.map_get(m, a[0], a[1] if len(a) > 1 else NONE, st)
    if name == 'pop':
        return self.map_pop(o, a[0], a[1] if len(a) > 1 else None, st)
    if name == 'copy':
        return self.new_list(m, st, 'dict')
    if name == 'clear':
        self.write('$c', o, raw('map', EMPTY_MAP, ()), st)
        return NONE
    if name == 'setdefault':
        d = a[1] if len(a) > 1 else NONE
        h = self.map_has(m, a[0], st)
        v = self.map_get(m, a[0], d, st)
        self.map_put(o, a[0], v, st)
        return v
    if name == 'update':
        x = a[0] if a else None
        if x is not None:
            m2 = self.read('$c', x, st) if self.is_dict(x) else None
            if m2 is not None and m2.op == 'map' and m2.args[0] is EMPTY_MAP:
                for kk, v in m2.args[1]:
                    self.map_put(o, kk, v, st)
            else:
                self.write('$c', o, op('mupd', m, self.deep(x, st)), st)
        for n, v in k.items():
            self.map_put(o, const(n), v, st)
        return NONE
    raise Unsupported('dict method ' + name)


def set_method(self, o, name, a, k, st):
    c = self.content(o, st)
    if name == 'add':
        self.append(o, tm.items([a[0]]), st)
        return NONE
    if name == 'update':
        self.append(o, self.iter_seq(a[0], st), st)
        return NONE
    if name == 'clear':
        self.write('$c', o, tm.items([]), st)
        return NONE
    if name in ('remove', 'discard'):
        self.write('$c', o, op('setminus', c, a[0]), st)
        return NONE
    if name == 'copy':
        return self.new_list(c, st, 'set')
    if name in ('union', 'intersection', 'difference'):
        return op('set' + name, self.deep(o, st), *[self.deep(x, st) for x in a])
    raise Unsupported('set method ' + name)


def file_method(self, o, name, a, k, st):
    if name == 'write':
        self.append(o, tm.items([a[0]]), st)
        return NONE
    if name == 'writelines':
        self.append(o, self.iter_seq(a[0], st), st)
        return NONE
    if name in ('close', 'flush', '__enter__', '__exit__'):
        return NONE
    fn = self.read('$name', o, st)
    pos = self.read('$pos', o, st)
    if name == 'readline':
        v = op('line', fn, pos)
        self.write('$pos', o, tm.add(pos, const(1)), st)
        return v
    if name in ('readlines', 'read'):
        v = op('filelines' if name == 'readlines' else 'filetext', fn, pos)
        self.write('$pos', o, const(-1), st)
        return v
    raise Unsupported('file method ' + name)


tm.TYPED_OPS['line'] = lambda t: 'str'
tm.TYPED_OPS['filelines'] = lambda t: ('seq', 'str')
tm.TYPED_OPS['filetext'] = lambda t: 'str'

Interp.method = method

_call = Interp.call


def call(self, f, a, k, st):
    if f.op == 'partial' and len(f.args) == 2:
        return self.call(f.args[0], list(f.args[1]) + list(a), k, st)
    return _call(self, f, a, k, st)


Interp.call = call
