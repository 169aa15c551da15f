"""
Comparison of two function summaries (reference and implementation).
"""

import itertools

from . import terms as tm
from .terms import raw, ite, AND, OR, NOT, TRUE, FALSE, NONE, const, typ, subst, fresh, T
from . import heap as hp
from .heap import cls_of, refeq
from . import interp as I

IGNORED_FIELDS = {'$pos', '$name'}


class Mismatch(Exception):
    def __init__(self, where, a, b):
        Exception.__init__(self, where)
        self.where, self.a, self.b = where, a, b
        self.taken = ()     # decisions on the way that only the implementation makes


class Infeasible(Exception):
    """The decisions of the path contradict each other."""


class Undecided(Exception):
    pass


class Summary:
    def __init__(self, raises, g, st, val):
        self.raises = raises        # exception name -> guard
        self.g = g                  # returns
        self.st = st
        self.val = val

    def raise_guard(self):
        return OR(*self.raises.values()) if self.raises else FALSE


def text_parts(ps):
    """Written pieces -> normal form of a text: literals are merged, joins without separator opened."""
    out = []

    def push(p):
        if p[0] == 'item' and p[1] is TRUE and p[2].op == 'str':
            for q in p[2].args[0]:
                if isinstance(q, str):
                    if out and out[-1][0] == 'lit':
                        out[-1] = ('lit', out[-1][1] + q)
                    elif q:
                        out.append(('lit', q))
                elif q.op == 'join' and q.args[0] is const(''):
                    for r in tm.parts(q.args[1]):
                        push(r)
                elif q.op == 'join':
                    out.append(('hole', q))
                else:
                    out.append(('hole', q))
        elif p[0] == 'item' and p[1] is TRUE:
            out.append(('hole', p[2]))
        elif p[0] == 'item':
            # guarded text
            out.append(('cond', p[1], tuple(text_parts((('item', TRUE, p[2]),)))))
        elif p[0] == 'sub':
            if p[1].op in ('seq', 'tuple'):
                for r in p[1].args[0]:
                    push(r)
            else:
                out.append(('sub', p[1]))
        else:
            i, n, b = tm.open_loop(p)
            out.append(('loop', i, n, tuple(text_parts(b))))
    for p in ps:
        push(p)
    return guarded_text(out)


def guarded_text(ps):
    """Neighbouring pieces with the same guard are one piece; a loop that runs once or not at all is a guard."""
    out = []
    for p in ps:
        if p[0] == 'loop':
            _, i, n, b = p
            g, k = guard_of(n)
            if g is not None and k is not None:
                b = (('loop', i, k, b),) if k is not const(1) else \
                    b if not any(occurs_in(i, q) for q in b) else None
                p = ('cond', g, tuple(b)) if b is not None else p
        if p[0] == 'cond':
            if p[1] is FALSE or not p[2]:
                continue
            if len(p[2]) == 1 and p[2][0][0] == 'cond':
                p = ('cond', AND(p[1], p[2][0][1]), p[2][0][2])
            if out and out[-1][0] == 'cond' and out[-1][1] is p[1]:
                out[-1] = ('cond', p[1], tuple(join_literals(out[-1][2] + p[2])))
                continue
        out.append(p)
    return out


def join_literals(ps):
    out = []
    for p in ps:
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        else:
            out.append(p)
    return out


def guard_of(n):
    """A number of runs that is k under a guard, otherwise 0."""
    if n.op != 'ite':
        return None, None
    ls = {v for _, v in tm.cases(n)}
    ls.discard(const(0))
    if len(ls) != 1 or const(0) not in {v for _, v in tm.cases(n)}:
        return None, None
    k = ls.pop()
    return OR(*[g for g, v in tm.cases(n) if v is k]), k


def occurs_in(i, p):
    return any(occurs_in(i, q) if isinstance(q, tuple) else isinstance(q, T) and (q is i or tm.occurs(i, q)) for q in p)


def canon_carry(t):
    """States of loops are numbered in the order of the loops."""
    ids = set()
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'carry' and isinstance(x.args[0], int):
            ids.add(x.args[0])
        for y in tm.subterms(x):
            walk(y)
    walk(t)
    if not ids or ids == set(range(-len(ids), 0)):
        return t
    rank = {k: j - len(ids) for j, k in enumerate(sorted(ids))}
    return tm.rewrite(t, {'carry'}, lambda x: raw('carry', rank.get(x.args[0], x.args[0]), *x.args[1:]))


def equalities(path):
    """Symbols that the decisions fix: (symbol, value)."""
    out = []
    lo, hi = {}, {}
    for t, v in path:
        if t.op == 'ge' and tm.typ(t.args[0]) == 'int':
            q, c = t.args
            if v:
                lo[q] = max(lo.get(q, c), c)
            else:
                hi[q] = min(hi.get(q, c - 1), c - 1)
        elif t.op == 'eq' and v:
            for x, y in (t.args, t.args[::-1]):
                if x.op == 'sym' and not tm.occurs(x, y):
                    out.append((x, y))
                    break
    for q in lo:
        if lo[q] == hi.get(q):
            d = tm.sub(q, const(lo[q]))
            p = tm.poly_dict(d)
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    x = m[0][0]
                    if x.op not in ('sym', 'bv', 'len'):
                        continue
                    rest = dict(p)
                    del rest[m]
                    r = tm.mul(const(-c), tm.from_poly(rest))
                    if not tm.occurs(x, r):
                        out.append((x, r))
                        break
    return out


def literals(g):
    out = []
    while g.op == 'ite':
        a, x, y = g.args
        if x is FALSE:
            out.append((a, False))
            g = y
        elif y is FALSE:
            out.append((a, True))
            g = x
        else:
            break
    return out


def tag(a):
    t = a[-1] if a else None
    return t.args[0][0] if isinstance(t, T) and t.op == 'str' and t.args[0] and isinstance(t.args[0][0], str) else ''


def unordered(s, names):
    """
    The calls of the functions with the given names commute: they are put into an order that does not depend on the order
    in the source, by a refinement of the new objects (their calls tell them apart).  A name with a position keeps the
    order of the calls with the same argument at that position, a name with groups the order within the groups.
    """
    if s.op != 'seq' or any(p[0] != 'item' or p[1] is not TRUE or p[2].op == 'ite' for p in s.args[0]):
        return s
    free, count = [], {}
    for p in s.args[0]:
        e = p[2]
        if e.op == 'event' and tag(e.args[1]).startswith('# '):
            return s
        n = e.args[0][5:] if e.op == 'event' and e.args[0].startswith('call ') else None
        if n in names:
            a = e.args[1]
            if tag(a).startswith('after writes: '):
                p = ('item', p[1], raw('event', e.args[0], a[:-1]))
            groups = [e.args[1][names[n]]] if isinstance(names[n], int) else names[n]
        else:
            groups = ['']
        k = ()
        for c in groups:
            count[c] = count.get(c, 0) + 1
            k += (count[c],)
        if e.op == 'event':
            p = ('item', p[1], raw('event', p[2].args[0], p[2].args[1] + (tm.const('# %s' % (k,)),)))
        free.append((p, k))
    colour = {}

    def key(t, memo):
        if not isinstance(t, tm.T):
            return hash(tuple(key(x, memo) for x in t)) if isinstance(t, tuple) else hash(t)
        if t not in memo:
            if t.op == 'new':
                memo[t] = colour.get(t, hash(t.args[0]))
            else:
                memo[t] = hash((t.op,) + tuple(key(x, memo) for x in t.args))
        return memo[t]
    news = {}

    def find(t):
        if t.op == 'new':
            news[t] = None
        for x in tm.subterms(t):
            find(x)
    for p in s.args[0]:
        find(p[2])
    for _ in range(5):
        memo = {}
        near = {n: [] for n in news}
        for p, k in free:
            e = p[2]
            h = (e.args[0] if e.op == 'event' else '', k, key(p[1], memo),
                 tuple(key(x, memo) for x in (e.args[1] if e.op == 'event' else (e,))))
            for j, x in enumerate(e.args[1] if e.op == 'event' else ()):
                if x in near:
                    near[x].append(hash((j,) + h))
        for n in news:
            colour[n] = hash((n.args[0], tuple(sorted(near[n]))))
    memo = {}
    free.sort(key=lambda q: (q[0][2].args[0] if q[0][2].op == 'event' else '', q[1], key(q[0][1], memo),
                             key(q[0][2].args[1] if q[0][2].op == 'event' else q[0][2], memo)))
    return tm.seq(tuple(p for p, _ in free))


def contradictory(path):
    """Elimination of variables from the linear inequalities among the decisions."""
    rows = []
    names = set()

    def row(d, strict):
        d = {m: c for m, c in d.items() if c}
        rows.append((d, strict))
        names.update(m for m in d if m != ())
    for t, v in path:
        if t.op not in ('ge', 'gt'):
            continue
        d = dict(tm.poly_dict(t.args[0]))
        d[()] = d.get((), 0) - t.args[1]
        if v:
            row(d, t.op == 'gt')
        else:
            d = {m: -c for m, c in d.items()}
            if t.op == 'ge' and typ(t.args[0]) == 'int':
                d[()] = d.get((), 0) - 1
                row(d, False)
            else:
                row(d, t.op == 'ge')
    if not rows or len(rows) > 24:
        return False
    for m in list(names):
        lo = tm.lower_bound(tm.from_poly({m: tm.Fraction(1)}))
        if lo is not None:
            row({m: tm.Fraction(1), (): -lo}, False)
    todo = list(names)
    while todo:
        todo.sort(key=lambda m: sum(1 for d, _ in rows if m in d))
        m = todo.pop(0)
        up = [r for r in rows if r[0].get(m, 0) > 0]
        dn = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if not r[0].get(m, 0)]
        if len(up) * len(dn) + len(rest) > 200:
            return False
        for d, sd in up:
            for e, se in dn:
                k = {}
                for x, c in d.items():
                    k[x] = k.get(x, 0) - c * e[m]
                for x, c in e.items():
                    k[x] = k.get(x, 0) + c * d[m]
                k = {x: c for x, c in k.items() if c}
                rest.append((k, sd or se))
        rows = rest
        for d, s in rows:
            if all(x == () for x in d):
                c = d.get((), 0)
                if c < 0 or (c == 0 and s):
                    return True
    return False


def seq_assume(s, t, v):
    ps = []
    for p in s.args[0]:
        if p[0] == 'item' and p[1].op == 'ite':
            g = tm.cofactor(p[1], t, v)
            if g is not FALSE:
                ps.append(('item', g, p[2]))
        else:
            ps.append(p)
    return tm.seq(ps)


def cubes(g, limit):
    """The ways to satisfy a condition."""
    out = []

    def walk(x, q):
        if len(out) > limit or x is FALSE:
            return
        if x is TRUE:
            out.append(q)
            return
        walk(x.args[1], q + [(x.args[0], True)])
        walk(x.args[2], q + [(x.args[0], False)])
    walk(g, [])
    return out if len(out) <= limit else None


def under(s, m):
    st = None
    if s.st is not None:
        st = s.st.copy()
        st.heap = {f: hp.subst_layers(ls, m) for f, ls in st.heap.items()}
    return Summary({}, TRUE, st, subst(s.val, m))


class Comparer:
    def __init__(self, it, spec, impl):
        self.it = it
        self.spec, self.impl = spec, impl
        self.bij = {}           # impl new term pattern -> spec new term  (by allocation id)
        self.inv = {}
        self.rec = []           # compared objects: spec id, impl id, decisions walked
        self.partial = set()    # objects compared under some decisions only
        self.multi = set()      # objects with different partners on different paths
        self.memo = set()
        self.active = set()
        self.count = 0
        self.depth = 0
        self.path = []
        self.taken = []
        self.unordered = None   # calls that commute
        self.cases = False      # compare the ways to a normal return separately
        self.reqs = []          # what the reference requires
        self.pathuses = 0
        self.reads = {}
        self.ctx = TRUE
        self.splits = 0
        self.foralls = []

    def fail(self, where, a, b):
        if tm.has_unknown(a if isinstance(a, (T, tuple)) else ()) or tm.has_unknown(b if isinstance(b, (T, tuple)) else ()):
            raise Undecided(where)
        if self.path and self.infeasible():
            self.pathuses += 1
            raise Infeasible()
        e = Mismatch(where, a, b)
        e.taken = tuple(self.taken)
        raise e

    def among(self, t, v):
        """Some element of a list of known length has a property: its elements one by one."""
        h, n, c = t.args
        lo = hi = n.args[0] if n.op == 'num' else None
        if lo is None:
            lo = 0
            for u, w in self.path + self.reqs:
                if u.op == 'ge' and u.args[0] is n:
                    if w:
                        lo = max(lo, u.args[1])
                    else:
                        hi = u.args[1] - 1 if hi is None else min(hi, u.args[1] - 1)
        none = hi is not None and hi <= 6
        for j in range(int(min(lo if hi is None else max(lo, hi), 6))):
            x = subst(c, {tm.bv(h): const(j)})
            for u, w in self.path:
                x = tm.cofactor(x, u, w)
            if x is TRUE and j < lo:
                return not v
            if x is not FALSE:
                none = False
        return none and v

    def infeasible(self):
        """The first element with a property has the property."""
        for t, v in self.path:
            if t.op == 'exists' and self.among(t, v):
                return True
        for t, v in self.path:
            if t.op == 'exists' and v:
                h, n, c = t.args
                i = fresh('i', 'int')
                c = subst(c, {tm.bv(h): i})
                c = subst(c, {i: tm.first(n, i, c)})
                for u, w in self.path:
                    c = tm.cofactor(c, u, w)
                if c is FALSE:
                    return True
        return contradictory(self.path + self.reqs)

    # ----------------------------------------------------------------------------------------------
    # equalities along the walked decisions

    def equal(self, a, b):
        """Terms that agree up to the numbering of unresolved loop states and the equalities of the path."""
        if a is b:
            return True
        a, b = canon_carry(a), canon_carry(b)
        if a is b:
            return True
        self.pathuses += 1
        for x, y in equalities(self.path):
            a, b = subst(a, {x: y}), subst(b, {x: y})
            if a is b:
                return True
        return False

    def sites(self, ts):
        """Entities created outside loops that occur in conditions."""
        out, seen, st = {}, set(), list(ts)
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, T) or x in seen or not self.has_new(x):
                continue
            seen.add(x)
            if x.op == 'new' and x.args[0] in ('file', 'Grid') and x.args[2] == ():
                out.setdefault(x.args[0], set()).add(x)
            st.extend(tm.subterms(x))
        return {c: sorted(v, key=lambda n: n.args[1]) for c, v in out.items()}

    def seed(self):
        """Conditions speak of objects before these are compared: assume the same order of creation and compare
        the objects afterwards."""
        s, m = self.spec, self.impl
        a, b = (self.sites([z.raise_guard(), z.g, z.val or NONE] + list((z.st.heap if z.st else {}).values())) for z in (s, m))
        pairs = []
        for c in a:
            if len(a[c]) == len(b.get(c, ())):
                pairs += zip(a[c], b[c])
        return pairs

    def run(self):
        pairs = self.seed()
        if pairs:
            self.bij, self.inv, self.memo = {}, {}, set()
            for x, y in pairs:
                self.bij[y.args[1]] = x.args[1]
                self.inv[x.args[1]] = y.args[1]
            try:
                self.run1()
                for x, y in pairs:
                    self.objects('an object', x, y)
                return
            except Mismatch as e:
                self.bij, self.inv, self.memo = {}, {}, set()
                self.rec, self.partial, self.multi = [], set(), set()
                self.path, self.ctx, self.foralls, self.depth = [], TRUE, [], 0
                self.active = set()
                first = e
            try:
                self.run1()
            except Mismatch:
                raise first
            return
        self.run1()

    def run1(self):
        s, m = self.spec, self.impl
        ra, rb = s.raise_guard(), m.raise_guard()
        self.match('the condition of a failure', ra, rb)
        if s.g is FALSE or m.g is FALSE:
            self.match('return condition', s.g, m.g)
            return
        self.match('the condition of a normal return', s.g, m.g)
        G = s.g
        if self.cases:
            qs = cubes(G, 16)
            if qs is not None and len(qs) > 1 or qs and qs[0]:
                for q in qs:
                    self.one_case(q)
                return
        self.learn(G)
        self.ctx = G
        self.lens = dict(e for e in equalities(literals(G)) if e[0].op == 'len')
        a, b = self.given(G, s.val), self.given(G, m.val)
        self.match('the returned value', a, b)
        self.heaps(G)

    lens = {}

    def given(self, G, t):
        """The term under the condition; lengths that the condition equates are one."""
        t = tm.simplify_under(G, t)
        if self.foralls:
            def fn(x):
                h, n, b = x.args
                i = fresh('i', 'int')
                c = self.enter(n, i)
                return x if c is TRUE else tm.summation(n, i, tm.simplify_under(c, subst(b, {tm.bv(h): i})))
            t = tm.rewrite(t, {'sum'}, fn)
        if self.lens:
            t = tm.rewrite(t, {'len'}, lambda x: self.lens.get(x, x))
        return t

    def components(self):
        """The components one by one, each on its own."""
        s, m = self.spec, self.impl
        if s.g is FALSE or m.g is FALSE:
            return
        G = AND(s.g, m.g)
        if G is FALSE:
            return
        fs = [f for f in sorted(set(s.st.heap) | set(m.st.heap), key=lambda z: (z == '$c', z == '$ext', z))
              if f not in IGNORED_FIELDS and not f.startswith('$touch ') and s.st.heap.get(f, ()) != m.st.heap.get(f, ())]
        for f in [None] + fs:
            c = Comparer(self.it, s, m)
            c.reqs, c.unordered = self.reqs, self.unordered
            c.learn(G)
            c.ctx = G

            def go(c=c, f=f):
                if f is None:
                    c.match('the returned value', tm.simplify_under(G, s.val), tm.simplify_under(G, m.val))
                else:
                    c.heap(f, G)
            yield go

    def one_case(self, q):
        """The rest of the comparison for the states with the given decisions."""
        if contradictory(q + self.reqs):
            return
        m = {t: TRUE if v else FALSE for t, v in q}
        c = Comparer(self.it, under(self.spec, m), under(self.impl, m))
        c.reqs = self.reqs + q
        g = TRUE
        for t, v in q:
            g = AND(g, tm.atom(t) if v else NOT(tm.atom(t)))
        c.learn(g)
        c.run()
        self.count += c.count

    # ----------------------------------------------------------------------------------------------
    # facts: what holds in every iteration of a normal return

    def learn(self, g):
        out = []
        while g.op == 'ite':
            a, x, y = g.args
            if x is FALSE:
                if a.op == 'exists':
                    out.append(a)
                g = y
            elif y is FALSE:
                g = x
            else:
                break
        self.foralls += out

    def enter(self, n, i):
        c = TRUE
        for e in self.foralls:
            if e.args[1] is n:
                c = AND(c, NOT(subst(e.args[2], {tm.bv(e.args[0]): i})))
        return c

    def inside(self, n, i, f):
        c = self.enter(n, i)
        if c is TRUE:
            f()
            return
        old, k = self.ctx, len(self.foralls)
        self.ctx = AND(old, c)
        self.learn(c)
        self.pathuses += 1
        try:
            if self.ctx is not FALSE:
                f()
        finally:
            self.ctx = old
            del self.foralls[k:]

    # ----------------------------------------------------------------------------------------------

    def tr(self, t):
        """impl term with the matched objects renamed"""
        if not self.bij:
            return t

        def fn(x):
            k = self.bij.get(x.args[1])
            if k is None or x.args[1] in self.multi:
                return x
            return raw('new', x.args[0], k, x.args[2])
        return tm.rewrite(t, {'new'}, fn)

    def match(self, where, a, b):
        if a is b and not self.has_new(a):
            self.count += 1
            return
        key = (a, b)
        act = (a, b, tuple(self.path)) if self.unordered and a.op == 'seq' else key
        if key in self.memo or act in self.active:
            return
        self.active.add(act)
        uses = self.pathuses
        self.depth += 1
        if self.depth > 300:
            raise Undecided('deep structure')
        try:
            self._match(where, a, b)
            if uses == self.pathuses:
                self.memo.add(key)
        finally:
            self.active.discard(act)
            self.depth -= 1
        self.count += 1

    _hn = {}

    def has_new(self, t):
        r = self._hn.get(t)
        if r is None:
            r = t.op == 'new' or any(self.has_new(x) for x in tm.subterms(t))
            self._hn[t] = r
        return r

    def _match(self, where, a, b):
        if a.op == 'ite' or b.op == 'ite':
            # decision diagrams are walked together
            b2 = b
            if self.pairs(where, a, b):
                return
            t = tm.top_atom((a, b2))
            if (a.op == 'ite' and self.has_new(a.args[0])) or (b.op == 'ite' and self.has_new(b.args[0])):
                b2 = self.tr(b)
                if a is b2:
                    return
                t = tm.top_atom((a, b2))
            old = self.ctx
            known = [w for u, w in self.path if u is t]
            if known:
                self.pathuses += 1
            for v in known[:1] or (True, False):
                if old is not TRUE:
                    self.pathuses += 1
                    self.ctx = AND(old, tm.atom(t) if v else NOT(tm.atom(t)))
                    if self.ctx is FALSE:
                        continue
                self.path.append((t, v))
                x, y = tm.cofactor(a, t, v), tm.cofactor(b2, t, v)
                own = x is a and y is not b2
                if own:
                    self.taken.append(t)
                try:
                    self.match(where, x, y)
                except Infeasible:
                    pass
                finally:
                    self.path.pop()
                    if own:
                        self.taken.pop()
                    self.ctx = old
            self.ctx = old
            return
        if self.path and a.op == b.op == 'seq' and a is not b and (not a.args[0] or not b.args[0]) \
                and self.empty(b if not a.args[0] else a):
            self.pathuses += 1
            return
        if a.op == 'lval' or b.op == 'lval':
            self.match(where, self.seqof(a, self.spec), self.seqof(b, self.impl))
            return
        if a.op == 'new' and b.op == 'new':
            self.objects(where, a, b)
            return
        if a.op == b.op == 'nparray' and a is not b:
            self.match(where, a.args[0], b.args[0])
            return
        if a.op == b.op == 'seq' and a is not b and len(a.args[0]) != len(b.args[0]):
            x = self.peel(a, b)
            if x is not None:
                self.match(where, *x)
                return
        if not self.has_new(a) and not self.has_new(b):
            if not self.equal(a, b):
                if a.op == b.op == 'seq' and self.path and self.guarded(a.args[0] + b.args[0]):
                    a2, b2 = self.assume(a), self.assume(b)
                    if a2 is not a or b2 is not b:
                        self.pathuses += 1
                        self.match(where, a2, b2)
                        return
                if a.op in ('seq', 'tuple') and b.op == a.op and self.split(where, a, b):
                    pass
                elif (self.foralls or self.ctx is not TRUE) and a.op in ('seq', 'tuple') and b.op == a.op \
                        and len(a.args[0]) == len(b.args[0]):
                    self.parts(where, a.args[0], b.args[0], a, b)
                elif a.op == b.op == 'event' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
                    for x, y in zip(a.args[1], b.args[1]):
                        self.match(where, x, y)
                else:
                    self.fail(where, a, b)
            return
        b2 = self.tr(b)
        if a is b2 and not self.unmatched(b):
            # objects inside the term were compared already
            return
        if a.op in ('seq', 'tuple') and b.op in ('seq', 'tuple'):
            if a.op == b.op == 'seq' and self.path and self.guarded(a.args[0] + b.args[0]):
                a, b = self.assume(a), self.tr(self.assume(self.tr(b)))
                self.pathuses += 1
                if a.op != 'seq' or b.op != 'seq':
                    self.fail(where, a, b)
            if self.unordered and a.op == b.op == 'seq':
                a, b = self.arrange(a), self.arrange(b)
            if a.op == b.op == 'seq' and (self.unordered or not self.aligned(a.args[0], self.tr(b).args[0])) \
                    and self.split(where, a, self.tr(b)):
                return
            self.parts(where, a.args[0], b.args[0], a, b)
            return
        if a.op in ('seq', 'tuple') or b.op in ('seq', 'tuple'):
            self.fail(where, a, b)
        if a.op == 'map' and b.op == 'map':
            self.maps(where, a, b)
            return
        if a.op != b.op or len(a.args) != len(b.args):
            self.fail(where, a, b)
        if a.op in tm.BINDERS:
            self.binders(where, a, b)
            return
        if a.op == 'poly':
            self.rename(where, a, b)
            return
        for x, y in zip(a.args, b.args):
            self.arg(where, x, y, a, b)

    def empty(self, s):
        """The decisions leave no elements in the sequence."""
        c = tm.lt(tm.const(0), tm.length(s))
        return c is FALSE or (c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE
                              and contradictory(self.path + [(c.args[0], True)]))

    def aligned(self, ps, qs):
        return len(ps) == len(qs) and all(p[0] == q[0] and (p[0] != 'item' or p[1] is q[1]) for p, q in zip(ps, qs))

    def peel(self, a, b):
        """First and last iterations of loops on the one side that stand against single elements on the other."""
        ps, qs = list(a.args[0]), list(b.args[0])
        done = False
        for side in (0, -1):
            for _ in range(4):
                k = self.matched_ends(ps, qs, side)
                if len(ps) <= k or len(qs) <= k:
                    break
                j = k if side == 0 else -1 - k
                if ps[j][0] == 'loop' and qs[j][0] == 'item' and qs[j][1] is TRUE:
                    x = self.peeled(ps[j], side)
                    if x is None:
                        break
                    ps[j:(j + 1) or None] = x
                elif qs[j][0] == 'loop' and ps[j][0] == 'item' and ps[j][1] is TRUE:
                    x = self.peeled(qs[j], side)
                    if x is None:
                        break
                    qs[j:(j + 1) or None] = x
                else:
                    break
                done = True
        if not done:
            return None
        self.pathuses += 1
        return raw('seq', tuple(ps)), raw('seq', tuple(qs))

    def matched_ends(self, ps, qs, side):
        k = 0
        while k < len(ps) and k < len(qs):
            j = k if side == 0 else -1 - k
            if ps[j][0] != qs[j][0] or ps[j][0] == 'loop' and ps[j][2] is not qs[j][2]:
                break
            k += 1
        return k

    def peeled(self, p, side):
        i, n, body = tm.open_loop(p)
        if len(body) != 1 or body[0][0] != 'item' or body[0][1] is not TRUE:
            return None
        c = NOT(tm.lt(const(0), n))
        for t, v in self.path + self.reqs:
            c = tm.cofactor(c, t, v)
        if c is not FALSE and AND(self.ctx, c) is not FALSE:
            return None
        m = tm.sub(n, const(1))
        first = tm.subst_parts(body, {i: const(0) if side == 0 else m})
        rest = tm.mk_loop_part(m, i, tm.subst_parts(body, {i: tm.add(i, const(1))}) if side == 0 else body)
        rest = [rest] if rest else []
        return list(first) + rest if side == 0 else rest + list(first)

    def guarded(self, ps):
        return any(self.guarded(p[3]) if p[0] == 'loop' else p[0] == 'item' and p[1] is not TRUE for p in ps)

    def assume(self, s):
        """The sequence under the decisions of the path."""
        return tm.seq(self._assume(s.args[0]))

    def _assume(self, ps):
        out = []
        for p in ps:
            if p[0] == 'item':
                g = p[1]
                for t, v in self.path:
                    g = tm.cofactor(g, t, v)
                if g is not FALSE:
                    out.append(('item', g, p[2]))
            elif p[0] == 'loop':
                i = fresh('i', 'int')
                q = tm.mk_loop_part(p[2], i, self._assume(tm.subst_parts(p[3], {tm.bv(p[1]): i})))
                if q is not None:
                    out.append(q)
            else:
                out.append(p)
        return out

    def split(self, where, a, b):
        """Case distinction on the conditions of the items of two sequences."""
        if a.op != 'seq':
            return False
        gs = [p[1] for t in (a, b) for p in t.args[0] if p[0] == 'item' and p[1].op == 'ite']
        if self.unordered and not gs:
            gs = [p[2] for t in (a, b) for p in t.args[0] if p[0] == 'item' and p[2].op == 'ite']
        if self.unordered and gs:
            plain = [g for g in gs if not self.has_new(g.args[0])]
            if not plain:
                # the objects in the conditions are told apart by the calls that return them
                xs, ys = [[p[2] for p in t.args[0] if p[0] == 'item' and p[1] is TRUE and p[2].op == 'event'
                           and p[2].args[0] == 'call Grid.add_node'] for t in (a, b)]
                if len(xs) == len(ys):
                    m = {}
                    for x, y in zip(xs, ys):
                        x, y = x.args[1][1], y.args[1][1]
                        self.match(where, x, y)
                        if x.op == y.op == 'new':
                            m[y.args[1]] = x.args[1]
                    b = tm.rewrite(b, {'new'}, lambda z: raw('new', z.args[0], m.get(z.args[1], z.args[1]), z.args[2]))
                b = self.tr(b)
                gs = [x for t in (a, b) for p in t.args[0] if p[0] == 'item' for x in p[1:] if x.op == 'ite']
            gs = plain or gs
        if not gs or self.splits > 12:
            return False
        t = tm.top_atom(tuple(gs))
        self.splits += 1
        old = self.ctx
        try:
            for v in (True, False):
                c = AND(old, tm.atom(t) if v else NOT(tm.atom(t)))
                if c is FALSE:
                    continue
                self.pathuses += 1
                self.ctx = c
                self.path.append((t, v))
                try:
                    x, y = seq_assume(a, t, v), seq_assume(b, t, v)
                    if self.unordered:
                        x, y = self.arrange(x), self.arrange(y)
                    self.match(where, x, y)
                except Infeasible:
                    pass
                finally:
                    self.path.pop()
                    self.ctx = old
        finally:
            self.splits -= 1
        return True

    def arrange(self, s):
        if s.op != 'seq' or any(p[0] != 'item' for p in s.args[0]):
            return s
        out = []

        def put(g, v):
            if g is FALSE:
                return
            if v.op == 'ite':
                put(AND(g, tm.atom(v.args[0])), v.args[1])
                put(AND(g, NOT(tm.atom(v.args[0]))), v.args[2])
            else:
                out.append(('item', g, v))
        for p in s.args[0]:
            put(tm.simplify_under(self.ctx, p[1]), tm.simplify_under(self.ctx, p[2]))
        m = {t: TRUE if w else FALSE for t, w in self.path}
        out = [('item', g, tm.subst(v, m)) for _, g, v in out]
        return unordered(tm.seq(tuple(out)), self.unordered)

    def news(self, t):
        out, seen = [], set()

        def walk(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'new' and all(y.args[1] != x.args[1] for y in out):
                out.append(x)
            for y in tm.subterms(x):
                if self.has_new(y):
                    walk(y)
        walk(t)
        return out

    def pairs(self, where, a, b):
        if a.op != 'ite' or b.op != 'ite' or not self.has_new(a.args[0]) or not self.has_new(b.args[0]):
            return False
        key = ('pairs', a, b)
        if key in self.active:
            return False
        self.active.add(key)
        try:
            return self.rename(where, a, b, True)
        finally:
            self.active.discard(key)

    def rename(self, where, a, b, soft=False):
        """Some pairing of the created objects makes the terms equal."""
        na = [x for x in self.news(a) if x.args[1] not in self.inv]
        nb = [x for x in self.news(b) if x.args[1] not in self.bij and x.args[1] not in self.inv]
        if len(na) != len(nb) or len(na) > 4:
            if soft:
                return False
            self.fail(where, a, b)
        for p in itertools.permutations(na):
            if any(x.args[0] != y.args[0] for x, y in zip(p, nb)):
                continue
            m = {y.args[1]: x.args[1] for x, y in zip(p, nb)}
            b2 = tm.rewrite(self.tr(b), {'new'}, lambda x: raw('new', x.args[0], m.get(x.args[1], x.args[1]), x.args[2]))
            if self.equal(a, b2):
                for x, y in zip(p, nb):
                    z = raw('new', y.args[0], y.args[1], x.args[2])
                    self.objects(where, x, z)
                return True
        if soft:
            return False
        self.fail(where, a, b)

    def binders(self, where, a, b):
        i = fresh('i', 'int')
        inner = 1 if a.op == 'lam' else 2
        for k in range(1, len(a.args)):
            x, y = a.args[k], b.args[k]
            if k >= inner:
                x, y = tm._subst_deep(x, {tm.bv(a.args[0]): i}), tm._subst_deep(y, {tm.bv(b.args[0]): i})
            self.arg(where, x, y, a, b)

    def arg(self, where, x, y, a, b):
        if isinstance(x, T) and isinstance(y, T):
            self.match(where, x, y)
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for p, q in zip(x, y):
                self.arg(where, p, q, a, b)
        elif x != y:
            self.fail(where, a, b)

    def unmatched(self, t):
        if t.op == 'new':
            return t.args[1] not in self.bij and t.args[1] not in self.inv or t.args[1] in self.partial
        return self.has_new(t) and any(self.unmatched(x) for x in tm.subterms(t))

    def seqof(self, x, s):
        if s is self.impl and x.op == 'new' and x.args[1] in self.inv:
            x = raw('new', x.args[0], self.inv[x.args[1]], x.args[2])
        return self.it.content(x, s.st) if not x.op == 'lval' else x.args[0]

    def maps(self, where, a, b):
        if a.args[0] is not b.args[0]:
            self.match(where, a.args[0], b.args[0])
        if len(a.args[1]) != len(b.args[1]):
            self.fail(where, a, b)
        # entries with literal keys are unordered
        eb = list(b.args[1])
        for k, v in a.args[1]:
            for j, (k2, v2) in enumerate(eb):
                if k is k2:
                    self.match(where + '[%s]' % tm.show(k), v, v2)
                    del eb[j]
                    break
            else:
                k2, v2 = eb.pop(0)
                self.match(where, k, k2)
                self.match(where, v, v2)

    def parts(self, where, pa, pb, a, b):
        if len(pa) != len(pb):
            self.fail(where, a, b)
        for k, (p, q) in enumerate(zip(pa, pb)):
            if p[0] != q[0]:
                self.fail(where, a, b)
            if p[0] == 'item':
                self.match(where, p[1], q[1])
                old = self.ctx
                if p[1] is not TRUE:
                    self.pathuses += 1
                    self.ctx = AND(old, p[1])
                try:
                    if self.ctx is not FALSE:
                        self.match(where + '[%d]' % k, p[2], q[2])
                finally:
                    self.ctx = old
            elif p[0] == 'sub':
                self.match(where, p[1], q[1])
            else:
                self.match(where + ' (number of elements)', p[2], q[2])
                i = fresh('i', 'int')
                x = tm.subst_parts(p[3], {tm.bv(p[1]): i})
                y = tm.subst_parts(q[3], {tm.bv(q[1]): i})
                self.inside(p[2], i, lambda: self.parts(where + '[*]', x, y, a, b))

    def objects(self, where, a, b):
        if a.args[0] == b.args[0] and len(a.args[2]) < len(b.args[2]) and self.loose(b):
            raise Undecided('an object nothing refers to is created again in a loop')
        if a.args[0] != b.args[0] or len(a.args[2]) != len(b.args[2]):
            self.fail(where, a, b)
        if b.args[1] in self.inv and a.args[1] != b.args[1]:
            b = raw('new', b.args[0], self.inv[b.args[1]], b.args[2])
        if a.args[1] == b.args[1] and a.args[1] in self.inv:
            # renamed already
            if a.args[1] not in self.partial:
                for x, y in zip(a.args[2], b.args[2]):
                    self.match(where + ' (the iteration that creates the object)', x, y)
                return
            n = [j for i, j, q in self.rec if i == a.args[1] and not self.exclusive(q)]
            b = raw('new', b.args[0], (n or [self.inv[a.args[1]]])[-1], b.args[2])
        k = self.bij.get(b.args[1])
        k2 = self.inv.get(a.args[1])
        ids = (a.args[1], b.args[1])
        clash = [(i, j) for i, j, q in self.rec if (i == ids[0]) != (j == ids[1]) and not self.exclusive(q)]
        if (k is not None and k != a.args[1]) or (k2 is not None and k2 != b.args[1]):
            if not clash and self.path and a.args[0] not in ('set', 'file'):
                self.multi |= {x for i, j, q in self.rec for x in (i, j) if i == ids[0] or j == ids[1]} | set(ids)
                self.partial |= self.multi
                k = k2 = None
        if (k is not None and k != a.args[1]) or (k2 is not None and k2 != b.args[1]):
            # objects nothing else refers to may be created at different places on different paths
            if a.args[0] in ('list', 'set', 'dict') and self.path and self.loose(a) and self.loose(b):
                x, y = self.here(self.it.read('$c', a, self.spec.st)), self.here(self.it.read('$c', b, self.impl.st))
                if a.args[0] == 'set':
                    x, y = tm.aggregate('set', x), tm.aggregate('set', self.tr(y))
                self.pathuses += 1
                self.match(where, x, y)
                return
            self.fail(where + ' (another object)', a, b)
        self.bij[b.args[1]] = a.args[1]
        self.inv[a.args[1]] = b.args[1]
        self.rec.append(ids + (tuple(self.path),))
        for x, y in zip(a.args[2], b.args[2]):
            self.match(where + ' (the iteration that creates the object)', x, y)
        uses = self.pathuses
        try:
            self.contents(where, a, b)
        finally:
            if uses != self.pathuses:
                self.partial |= set(ids)

    def exclusive(self, q):
        d = dict(self.path)
        return any(d.get(t, v) != v for t, v in q)

    def contents(self, where, a, b):
        c = a.args[0]
        sa, sb = self.spec.st, self.impl.st
        if c == 'file':
            self.match(where + ' (file name)', self.rd('$name', a, sa), self.rd('$name', b, sb))
            self.texts(where + ' (file text)', self.rd('$c', a, sa), self.rd('$c', b, sb))
            return
        if c in ('list', 'dict', 'nd'):
            x, y = self.rd('$c', a, sa), self.rd('$c', b, sb)
            if self.path and self.loose(a) and self.loose(b):
                x, y = self.here(x), self.here(y)
                self.pathuses += 1
            self.match(where, x, y)
            return
        if c == 'set':
            x, y = self.rd('$c', a, sa), self.rd('$c', b, sb)
            x, y = tm.aggregate('set', x), tm.aggregate('set', self.tr(y))
            if x is not y:
                self.fail(where, x, y)
            return
        fa, fb = self.it.known_fields(a, sa), self.it.known_fields(b, sb)
        for f in sorted(set(fa) | set(fb)):
            va = self.rd(f, a, sa)
            vb = self.rd(f, b, sb)
            self.match('%s.%s' % (where, f), self.unset(va, f, a), self.unset(vb, f, b))

    def rd(self, f, x, st):
        """Read in a final state: always the same, so kept."""
        k = (f, x, id(st))
        r = self.reads.get(k)
        if r is None:
            r = self.reads[k] = (self.it.read(f, x, st), st)
        return r[0]

    def loose(self, x):
        site = hp.SITE.get(x.args[1])
        return site is not None and site not in hp.STORED

    def here(self, v):
        for t, w in self.path:
            v = tm.cofactor(v, t, w)
        return v

    def unset(self, v, f, o):
        if v.op == 'fld' and v.args[0] == f and v.args[1] is o:
            return raw('unset', f)
        return v

    # ----------------------------------------------------------------------------------------------

    def texts(self, where, a, b):
        def f(x, y):
            self.text(where, x, y)
        if a.op == 'ite' or b.op == 'ite':
            t = tm.top_atom((a, b))
            self.texts(where, tm.cofactor(a, t, True), tm.cofactor(b, t, True))
            self.texts(where, tm.cofactor(a, t, False), tm.cofactor(b, t, False))
            return
        f(a, b)

    def text(self, where, x, y):
        if x is y and not self.has_new(x):
            return
        self.tparts(where, text_parts(tm.parts(x)), text_parts(tm.parts(y)), x, y)

    def tparts(self, where, pa, pb, x, y):
        if len(pa) != len(pb):
            self.fail(where, self._diff(pa, pb), self._diff(pb, pa))
        for p, q in zip(pa, pb):
            if p[0] != q[0]:
                self.fail(where, raw('text', str(p)), raw('text', str(q)))
            if p[0] == 'lit':
                if p[1] != q[1]:
                    self.fail(where, const(p[1]), const(q[1]))
            elif p[0] in ('hole', 'sub'):
                self.match(where, p[1], q[1])
            elif p[0] == 'cond':
                self.match(where + ' (condition)', p[1], q[1])
                self.tparts(where, p[2], q[2], x, y)
            else:
                self.match(where + ' (number of repetitions)', p[2], q[2])
                m = {q[1]: p[1]}
                self.tparts(where, p[3], self.tsub(q[3], m), x, y)

    def _diff(self, a, b):
        return raw('text', str(a))

    def tsub(self, ps, m):
        out = []
        for p in ps:
            if p[0] == 'lit':
                out.append(p)
            elif p[0] == 'hole':
                r = subst(p[1], m)
                if r.op == 'str':
                    out += [('lit', q) if isinstance(q, str) else ('hole', q) for q in r.args[0]]
                else:
                    out.append(('hole', r))
            elif p[0] == 'sub':
                out.append((p[0], subst(p[1], m)))
            elif p[0] == 'cond':
                out.append(('cond', subst(p[1], m), self.tsub(p[2], m)))
            else:
                out.append(('loop', p[1], subst(p[2], m), self.tsub(p[3], m)))
        return tuple(out)

    # ----------------------------------------------------------------------------------------------

    def heaps(self, G):
        ha, hb = self.spec.st.heap, self.impl.st.heap
        for f in sorted(set(ha) | set(hb), key=lambda z: (z == '$c', z == '$ext', z)):
            if f in IGNORED_FIELDS or f.startswith('$touch '):
                continue
            if ha.get(f, ()) != hb.get(f, ()):
                self.heap(f, G)

    def heap(self, f, G):
        a, b = self.spec.st.heap.get(f, ()), self.impl.st.heap.get(f, ())
        if f == '$ext':
            x = hp.apply_layers(f, I.EXTKEY, a, tm.items([]))
            y = hp.apply_layers(f, I.EXTKEY, b, tm.items([]))
            x, y = self.given(G, x), self.given(G, y)
            if self.unordered:
                x, y = self.arrange(x), self.arrange(y)
            self.match('the sequence of external effects', x, y)
            return
        self.field(f, a, b, G)

    def keys(self, ls):
        """Keys of the layers; keys of loops are opened."""
        out = []
        for leaf, bs in hp.leaves(ls):
            if leaf.op == 'mark':
                continue
            out.append((leaf.args[1], bs, leaf.args[0]))
        return out

    def field(self, f, a, b, G):
        name = 'the content of a container' if f == '$c' else 'the field ' + f
        todo = [(k, bs, g, 0) for k, bs, g in self.keys(a)] + [(k, bs, g, 1) for k, bs, g in self.keys(b)]
        seen = set()
        for k, bs, g, side in todo:
            for kk in I._alts(k):
                if kk.op in ('unknown',):
                    raise Undecided(name)
                if self.is_new_root(kk):
                    continue
                if side and kk.op == 'py' and str(kk.args[0]).startswith('mod:') and all(k is not kk for k, _, _ in self.keys(a)):
                    # a variable of a script that the reference does not know
                    continue
                form = self.tr(kk) if side else kk
                form = subst(form, {j: tm.sym('key:%d' % n, 'int') for n, (j, _) in enumerate(bs)}) if bs else form
                if kk in seen or form in seen:
                    continue
                seen |= {kk, form}
                oa = ob = kk
                if self.has_new(kk):
                    # an old object designated through a new one: rename
                    if side == 1:
                        oa = self.tr(kk)
                    else:
                        ob = self.untr(kk)
                va = self.given(G, self.it.read(f, oa, self.spec.st))
                vb = self.given(G, self.it.read(f, ob, self.impl.st))
                where = '%s of %s' % (name, tm.show(kk, lim=80))
                if f == '$c' and typ(kk) == ('obj', 'file'):
                    self.texts(where, va, vb)
                    continue
                if f == '$c' and self.is_setkey(kk):
                    va, vb = tm.aggregate('set', va), tm.aggregate('set', self.tr(vb))
                self.match(where, va, vb)

    def is_setkey(self, k):
        t = typ(k)
        return isinstance(t, tuple) and t[0] == 'set'

    def untr(self, t):
        def fn(x):
            k = self.inv.get(x.args[1])
            return x if k is None else raw('new', x.args[0], k, x.args[2])
        return tm.rewrite(t, {'new'}, fn)

    def is_new_root(self, k):
        while k.op in ('fld', 'at', 'cont'):
            k = k.args[1] if k.op == 'fld' else k.args[0]
        return k.op == 'new'
