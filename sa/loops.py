"""
Loop summaries.

The body of a loop is analysed once with symbolic values at the start of the iteration i:
phi symbols for the variables and `carry` terms for the fields.  The recurrences are solved to
closed forms (invariants, sums, last assigned values, appended sequences, extrema); what has no
closed form becomes a canonical fold.
"""

from . import terms as tm
from .terms import raw, ite, AND, OR, NOT, TRUE, FALSE, NONE, const, typ, subst, fresh
from . import heap as hp
from .heap import refeq

tm.BINDERS.add('fold')
tm.TYPED_OPS['acc'] = lambda t: t.args[2]


def _interp():
    from . import interp
    return interp


def builtins_():
    from . import builtins_
    return builtins_


class Var:
    __slots__ = ('phi', 'init', 'step', 'sol', 'hf', 'hk')

    def __init__(self, phi, init, step, hf=None, hk=None):
        self.phi, self.init, self.step, self.hf, self.hk = phi, init, step, hf, hk
        self.sol = None         # function: index -> term


class LoopSolver:
    def __init__(self, it, st, n, i, lid, phis, fields, outs, nr, names, live):
        self.it = it
        self.st = st
        self.n = n
        self.i = i
        self.lid = lid
        hp.LOOP_INDEX[lid] = i
        self.fields = sorted(fields)
        self.outs = [o for o in outs if o.kind not in ('fall', 'continue') and o.g is not FALSE]
        rs = [o for o in self.outs if o.kind == 'raise']
        if len(rs) > 1 and not it.tries:
            # one way to fail is enough
            self.outs = [o for o in self.outs if o.kind != 'raise'] + \
                        [_interp().Out('raise', OR(*[o.g for o in rs]), rs[0].st, raw('exc', '?'))]
        self.nr = nr
        self.names = names
        self.live = live
        self.phis = phis
        self.pre = {f: st.heap.get(f, ()) for f in self.fields}
        self.base_memo = {}
        self.lcache = {}

    # ---------------------------------------------------------------------------------------------

    def suffix(self, heap, f):
        ls = heap.get(f, ())
        for k, l in enumerate(ls):
            if l.op == 'mark' and l.args[0] == self.lid:
                return ls[k + 1:]
        return ls[len(self.pre[f]):]

    def pre_value(self, f, o):
        def one(x):
            return self.it.read_layers(f, x, self.pre[f])
        return tm.lift(one, (o,))

    def result(self):
        I = _interp()
        it, st, n, i = self.it, self.st, self.n, self.i
        if self.nr is None:
            return self.once()
        G, s1 = self.nr[0], self.nr[1]
        self.vars = {}
        for v, ph in self.phis.items():
            t = s1.env.get(v, I.UNDEF)
            t = tm.simplify_under(G, t)
            self.vars[v] = Var(ph, st.env[v], t)
        self.L = {f: self.suffix(s1.heap, f) for f in self.fields}
        self.done = {}
        self.unres = set(self.vars)
        # invariants first
        ch = True
        while ch:
            ch = False
            for v in list(self.unres):
                x = self.vars[v]
                if x.step is x.phi:
                    x.sol = (lambda e: (lambda j: e))(x.init)
                    self.done[x.phi] = x.init
                    self.unres.discard(v)
                    ch = True
        self.substitute()
        self.pseudo()
        for _ in range(40):
            if not self.round():
                break
        self.folds()
        self.final_carry()
        return self.exits(G)

    # ---------------------------------------------------------------------------------------------

    def once(self):
        """No iteration continues: at most one is executed."""
        I = _interp()
        i, n, st = self.i, self.n, self.st
        m = {ph: st.env[v] for v, ph in self.phis.items()}
        m[i] = const(0)

        def fn(t):
            if t.args[0] == self.lid:
                return self.pre_value(t.args[1], t.args[2])
            return t

        def R(t):
            return tm.rewrite(subst(t, m), {'carry'}, fn)
        c = TRUE if n is I.INF else tm.lt(const(0), n)
        res = []
        for o in self.outs:
            s = st.copy()
            s.env = {k: R(v) for k, v in o.st.env.items()}
            for f in self.fields:
                s.heap[f] = self.pre[f] + self.rl(self.suffix(o.st.heap, f), R)
            g = AND(c, R(o.g))
            if g is not FALSE:
                res.append(I.Out(o.kind, g, s, None if o.val is None else R(o.val)))
        if c is not TRUE:
            res.append(I.Out('fall', NOT(c), st))
        return res

    def rl(self, ls, R):
        out = []
        for l in ls:
            out.extend(hp.norm_layer(R(l)))
        return tuple(out)

    # ---------------------------------------------------------------------------------------------

    def substitute(self):
        m = self.done
        if m:
            for x in self.vars.values():
                if x.sol is None:
                    x.step = subst(x.step, m)
            self.L = {f: hp.subst_layers(ls, m) for f, ls in self.L.items()}

    def is_unres_phi(self, t):
        """Does the term depend on something that is not solved yet."""
        un = [self.vars[v].phi for v in self.unres]
        return any(p in t.syms for p in un)

    def has_carry(self, t):
        return t in self._carry_set(t)

    def _carry_set(self, t):
        memo = self.__dict__.setdefault('_cm', {})

        def w(x):
            r = memo.get(x)
            if r is None:
                r = (x.op == 'carry' and x.args[0] == self.lid) or any(w(y) for y in tm.subterms(x))
                memo[x] = r
            return r
        return {t} if w(t) else set()

    def free(self, t):
        return not self.is_unres_phi(t) and not self.has_carry(t)

    def pseudo(self):
        """Keys that do not depend on the iteration: their field is a loop variable."""
        i = self.i
        for f in self.fields:
            lv = list(hp.leaves(self.L[f]))
            keys = []
            for leaf, bs in lv:
                if leaf.op == 'mark':
                    continue
                k = leaf.args[1]
                if k not in keys:
                    keys.append(k)
            bound = [j for _, bs in lv for j, _ in bs]
            for k in keys:
                if tm.occurs(i, k) or not self.free(k) or any(tm.occurs(j, k) for j in bound):
                    continue
                if k.op == 'new' and k.args[2] and i in k.args[2]:
                    continue
                cs = [refeq(l.args[1], k) for l, bs in lv if l.op != 'mark']
                if any(c not in (TRUE, FALSE) for c in cs):
                    continue
                mine = [l for l, bs in lv if l.op != 'mark' and refeq(l.args[1], k) is TRUE]
                if all(l.op == 'happ' for l in mine):
                    if not self.carried(f, k) and not any(self.has_carry(l) for l in mine):
                        continue
                init = self.pre_value(f, k)
                t = typ(init)
                if t == 'seq' or t == ('seq', '?'):
                    t = hp.list_type(k)
                psi = raw('sym', 'phi#%d:%s@%d' % (self.lid, f, k.id), t)
                step = hp.apply_layers(f, k, self.L[f], psi)
                self.vars[(f, k)] = Var(psi, init, step, f, k)
                self.unres.add((f, k))
                self.L[f] = self.drop(self.L[f], k)
        # the carried values of these keys
        if any(x.hf for x in self.vars.values()):
            for x in self.vars.values():
                x.step = self.R(x.step)
            self.L = {f: self.rl(ls, self.R) for f, ls in self.L.items()}

    def carried(self, f, k):
        for t in self.all_terms():
            if self.has_carry(t) and self._carries(t, f, k):
                return True
        return False

    def _carries(self, t, f, k):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen or not self.has_carry(x):
                continue
            seen.add(x)
            if x.op == 'carry' and x.args[0] == self.lid and x.args[1] == f and refeq(x.args[2], k) is not FALSE:
                return True
            st.extend(tm.subterms(x))
        return False

    def all_terms(self):
        for x in self.vars.values():
            yield x.step
        for ls in self.L.values():
            yield from ls
        for o in self.outs:
            yield o.g
            if o.val is not None:
                yield o.val
            yield from o.st.env.values()
            for f in self.fields:
                yield from self.suffix(o.st.heap, f)

    def drop(self, ls, k):
        out = []
        for l in ls:
            if l.op in ('hset', 'happ'):
                if refeq(l.args[1], k) is not TRUE:
                    out.append(l)
            elif l.op == 'hloop':
                j, m, ss = hp.open_hloop(l)
                out.extend(hp.hloop(m, j, self.drop(ss, k)))
            else:
                out.append(l)
        return tuple(out)

    # ---------------------------------------------------------------------------------------------
    # substitution of the solved variables and carried fields

    def R(self, t):
        t = subst(t, self.done)
        if not self.has_carry(t):
            return t
        return tm.rewrite(t, {'carry'}, self.carry)

    def carry(self, t):
        if t.args[0] != self.lid:
            return t
        f, o = t.args[1], t.args[2]
        if not self.free(o):
            return t
        for x in self.vars.values():
            if x.hf == f:
                c = refeq(o, x.hk)
                if c is TRUE:
                    return self.done.get(x.phi, x.phi)
                if c is not FALSE:
                    return t
        i = self.i
        may = False
        ready = True
        j, lv = self.leaf_keys(f)
        for leaf, bs, key in lv:
            if key is None:
                return t
            c = refeq(key, o)
            if c is FALSE:
                continue
            if not self.free(key):
                return t
            if self.free(leaf.args[0]):
                c = AND(subst(leaf.args[0], {i: j}), c)
                if c is FALSE:
                    continue
            s = hp.solve(key, o, j, [j] + [b for b, _ in bs])
            if s is not None and tm.le(i, s) is TRUE:
                continue
            may = True
            if not self.free(leaf):
                ready = False
        if not may:
            return self.pre_value(f, o)
        if not ready:
            return t
        j = fresh('i', 'int')
        ls = self.pre[f] + hp.hloop(i, j, hp.subst_layers(self.L[f], {i: j}))
        return self.it.read_layers(f, o, ls)

    def leaf_keys(self, f):
        ls = self.L.get(f, ())
        c = self.lcache.get(f)
        if c is None or c[0] is not ls:
            j = fresh('i', 'int')
            lv = []
            for leaf, bs in hp.leaves(ls):
                lv.append((leaf, bs, None if leaf.op == 'mark' else subst(leaf.args[1], {self.i: j})))
            c = self.lcache[f] = (ls, j, lv)
        return c[1], c[2]

    def round(self):
        progress = False
        for v in sorted(self.unres, key=str):
            x = self.vars[v]
            s0 = x.step
            x.step = self.R(x.step)
            if x.step is not s0:
                progress = True
            sol = self.solve(x)
            if sol is not None:
                x.sol = sol
                self.unres.discard(v)
                self.done[x.phi] = sol(self.i)
                progress = True
        for f in self.fields:
            l2 = self.rl(self.L[f], self.R)
            if l2 != self.L[f]:
                self.L[f] = l2
                progress = True
        return progress

    # ---------------------------------------------------------------------------------------------
    # recurrences

    def solve(self, x):
        phi, init, t, i = x.phi, x.init, x.step, self.i
        if t is phi:
            return lambda j: init
        if self.free(t):
            if t is init and not tm.occurs(i, t):
                return lambda j: init
            return lambda j: ite(tm.lt(const(0), j), subst(t, {i: tm.sub(j, const(1))}), init)
        ty = typ(phi)
        if ty == 'bool' or (phi.op == 'sym' and typ(t) == 'bool'):
            r = self.solve_bool(phi, init, t)
            if r is not None:
                return r
        if ty in ('int', 'num', 'bool', 'nd', '?') and not tm.seq_like(t) and t.op not in ('str', 'map', 'upd'):
            d = None
            if not self.phi_in_atoms(phi, t):
                d = tm.sub(t, phi)
            if d is not None and self.free(d):
                def total(j):
                    k = fresh('i', 'int')
                    return tm.add(init, tm.summation(j, k, subst(d, {i: k})))
                return total
        # conditional assignment
        if t.op == 'ite':
            cs = tm.cases(t)
            keep = FALSE
            ok = True
            for g, v in cs:
                if v is phi:
                    keep = OR(keep, g)
                elif not self.free(v):
                    ok = False
            if ok and keep is not FALSE and self.free(keep):
                cond = NOT(keep)
                val = tm.simplify_under(cond, t)
                if self.free(val):
                    return self.last_assigned(cond, val, init)
            r = self.extremum(phi, init, t)
            if r is not None:
                return r
        r = self.accumulate(phi, init, t)
        return r

    def phi_in_atoms(self, phi, t):
        if t.op != 'ite':
            return False
        if phi in t.args[0].syms:
            return True
        return self.phi_in_atoms(phi, t.args[1]) or self.phi_in_atoms(phi, t.args[2])

    def last_assigned(self, cond, val, init):
        i = self.i

        def f(j):
            k = fresh('i', 'int')
            c = subst(cond, {i: k})
            e = tm.exists(j, k, c)
            if not tm.occurs(i, val):
                return ite(e, val, init)
            l = tm.last(j, k, c)
            return ite(e, tm.lift(lambda z: subst(val, {i: z}), (l,)), init)
        return f

    def solve_bool(self, phi, init, t):
        a = tm.cofactor_sym(t, phi, True)
        b = tm.cofactor_sym(t, phi, False)
        if a is None or b is None or not self.free(a) or not self.free(b):
            return None
        if a.op not in ('true', 'false', 'ite') or b.op not in ('true', 'false', 'ite'):
            return None
        if AND(NOT(a), b) is not FALSE:
            return None
        keep = AND(a, NOT(b))
        init_c = tm.truth(init)
        f = self.last_assigned(NOT(keep), a, init_c)
        return f

    def extremum(self, phi, init, t):
        """max / min accumulators, possibly conditional"""
        kinds = set()

        def ex(x, g):
            if x is phi:
                return []
            if x.op != 'ite':
                return None
            a = x.args[0]
            if phi not in a.syms:
                if not self.free(a):
                    return None
                p = ex(x.args[1], AND(g, tm.atom_raw(a)))
                q = ex(x.args[2], AND(g, NOT(tm.atom_raw(a))))
                return None if p is None or q is None else p + q
            lv = [v for _, v in tm.cases(x) if v is not phi]
            if len(lv) != 1 or not self.free(lv[0]):
                return None
            v = lv[0]
            for kind, y in (('max', ite(tm.lt(phi, v), v, phi)), ('max', ite(tm.le(phi, v), v, phi)),
                            ('min', ite(tm.lt(v, phi), v, phi)), ('min', ite(tm.le(v, phi), v, phi))):
                if x is y:
                    kinds.add(kind)
                    return [('item', g, v)]
            return None
        items = ex(t, TRUE)
        if not items or len(kinds) != 1:
            return None
        kind = kinds.pop()
        i = self.i

        def f(j):
            k = fresh('i', 'int')
            p = tm.mk_loop_part(j, k, tm.subst_parts(tuple(items), {i: k}))
            return tm.aggregate(kind, tm.seq([('item', TRUE, init)] + ([p] if p else [])))
        return f

    def accumulate(self, phi, init, t):
        """Strings, sequences and maps extended in every iteration."""
        # an element assigned only in its own iteration still has its first value there
        up = [v for _, v in tm.cases(t) if v is not phi]
        if up and all(v.op == 'upd' and v.args[0] is phi and v.args[1] is self.i for v in up):
            t = subst(t, {tm.at(phi, self.i): tm.at(init, self.i)})
        kind = [None]
        items = []
        for g, v in tm.cases(t):
            if not self.free(g):
                return None
            if v is phi or (v.op == 'str' and len(v.args[0]) == 1 and v.args[0][0] is phi):
                continue
            if v.op == 'str' and v.args[0] and v.args[0][0] is phi:
                rest = tm.string(v.args[0][1:])
                k, its = 'str', [('item', g, rest)]
            elif v.op == 'seq' and v.args[0] and v.args[0][0] == ('sub', phi):
                k = 'seq'
                rest = v.args[0][1:]
                if g is TRUE:
                    its = list(rest)
                elif all(p[0] == 'item' for p in rest):
                    its = [('item', AND(g, p[1]), p[2]) for p in rest]
                else:
                    z = fresh('i', 'int')
                    its = [tm.mk_loop_part(ite(g, const(1), const(0)), z, rest)]
                if not self.free(raw('seq', tuple(rest))):
                    return None
            elif v.op == 'map' and v.args[0] is phi:
                k = 'map'
                its = [('item', g, _interp().tup([a, b])) for a, b in v.args[1]]
            elif v.op == 'mapl' and v.args[0] is phi:
                k = 'map'
                if g is not TRUE:
                    return None
                its = list(tm.parts(v.args[1]))
            elif v.op == 'vstack' and len(tm.parts(v.args[0])) == 2 and tm.parts(v.args[0])[0][2] is phi:
                w = tm.parts(v.args[0])[1][2]
                if builtins_().nd_dims(init) != 2 or builtins_().nd_dims(w) != 1:
                    return None
                k = 'nd'
                its = [('item', g, w)]
            elif v.op == 'upd' and v.args[0] is phi:
                k = 'upd'
                its = [('item', g, _interp().tup([v.args[1], v.args[2]]))]
            elif v.op == 'updl' and v.args[0] is phi:
                k = 'upd'
                if g is not TRUE:
                    return None
                its = list(tm.parts(v.args[1]))
            else:
                return None
            if k != 'seq' and not all(self.free(p[2]) if p[0] == 'item' else self.free(raw('seq', (p,))) for p in its):
                return None
            if kind[0] not in (None, k):
                return None
            kind[0] = k
            items += its
        if kind[0] is None:
            return None
        i = self.i

        def loop(j):
            k = fresh('i', 'int')
            p = tm.mk_loop_part(j, k, tm.subst_parts(tuple(items), {i: k}))
            return tm.seq([p] if p else [])

        def f(j):
            s = loop(j)
            if kind[0] == 'str':
                return tm.str_concat(init, tm.join(const(''), s))
            if kind[0] == 'seq':
                return tm.concat(init, s)
            if kind[0] == 'nd':
                return builtins_().nd(tm.concat(init.args[0], s))
            if kind[0] == 'map':
                return tm.lift(lambda b: raw('mapl', b, s), (init,))
            return tm.lift(lambda b: updl(b, s), (init,))
        return f

    # ---------------------------------------------------------------------------------------------

    def folds(self):
        """The remaining variables: canonical folds over their dependencies."""
        if not self.unres:
            return
        un = sorted(self.unres, key=str)
        dep = {}
        for v in un:
            t = self.vars[v].step
            dep[v] = [w for w in un if self.vars[w].phi in t.syms]
        sols = {}
        for v in un:
            clo = [v]
            k = 0
            while k < len(clo):
                for w in dep[clo[k]]:
                    if w not in clo:
                        clo.append(w)
                k += 1
            sols[v] = self.fold_of(v, clo)
        for v in un:
            self.vars[v].sol = sols[v]
        for v in un:
            self.done[self.vars[v].phi] = sols[v](self.i)
        self.unres = set()
        self.L = {f: self.rl(ls, self.R) for f, ls in self.L.items()}

    def fold_of(self, v, clo):
        blank = {self.vars[w].phi: raw('sym', 'phi', '?') for w in clo}
        rest = clo[1:]
        # order of the companions: by what they start with and how they change
        rest.sort(key=lambda w: (self.vars[w].init.id, subst(self.vars[w].step, blank).id if False else 0))
        order = [v] + rest
        i = self.i
        accs = {}
        for k, w in enumerate(order):
            accs[self.vars[w].phi] = raw('acc', i, k, typ(self.vars[w].phi))
        inits = tuple(self.vars[w].init for w in order)
        steps = tuple(self.to_i(subst(self.vars[w].step, accs)) for w in order)
        ty = typ(self.vars[v].phi)

        def f(j):
            k = fresh('i', 'int')
            st2 = tuple(subst(s, {i: k}) for s in steps)

            def at(jj):
                if jj is const(0):
                    return inits[0]
                return raw('foldv', tm.binder('fold', k, (jj,) + inits, st2), 0, ty)
            return tm.lift(at, (j,))
        return f

    def to_i(self, t):
        if not self.has_carry(t):
            return t
        return tm.rewrite(t, {'carry'}, lambda x: raw('carry', self.i, *x.args[1:]) if x.args[0] == self.lid else x)

    def final_carry(self):
        self.L = {f: self.rl(self.rl(ls, self.R), self.to_i) for f, ls in self.L.items()}

    # ---------------------------------------------------------------------------------------------

    def RR(self, t):
        return self.to_i(self.R(t))

    def exits(self, G):
        I = _interp()
        i, st = self.i, self.st
        n = self.n
        ex = []
        for o in self.outs:
            ex.append((o, self.RR(o.g)))
        res = []
        finite = n is not I.INF
        wend = None
        if not finite:
            # the bound of a while loop
            for k, (o, g) in enumerate(ex):
                if o.kind == 'wend':
                    b = self.bound(g)
                    if b is not None:
                        m, restg, cont = b
                        n = m
                        finite = True
                        wend = o
                        # exits before the bound
                        ex = [(p, restg if p is o else tm.FACT(cont, h)) for p, h in ex]
                        ex = [(p, h) for p, h in ex if h is not FALSE]
                    break
        E = OR(*[g for _, g in ex])
        if self.live is not None and self.live[0] is not None:
            n = self.wrap_live(n, ex)
        if E is FALSE:
            if not finite:
                return [I.Out('raise', TRUE, st, raw('exc', 'Diverges'))] if False else []
            res.append(I.Out('fall', TRUE, self.after(n)))
            return res
        k = fresh('i', 'int')
        Ek = subst(E, {i: k})
        if finite:
            some = tm.exists(n, k, Ek)
        else:
            some = TRUE
        N = tm.first(n, k, Ek) if E is not TRUE else const(0)
        if some is not FALSE:
            def inst(t):
                return tm.lift(lambda z: subst(t, {i: z}), (N,)) if not isinstance(t, tuple) else t
            for o, g in ex:
                gg = TRUE if len(ex) == 1 else inst(tm.simplify_under(E, g))
                c = AND(some, gg)
                if c is FALSE:
                    continue
                if o.kind == 'raise' and not self.it.tries:
                    res.append(I.Out('raise', c, st, None if o.val is None else o.val if o.val.op == 'exc' else inst(self.RR(o.val))))
                    continue
                s = st.copy()
                s.env = {}
                for kk, v in o.st.env.items():
                    s.env[kk] = inst(self.RR(v))
                for f in self.fields:
                    j = fresh('i', 'int')
                    head = self.heap_after(f, N)
                    tail = self.rl(self.rl(self.suffix(o.st.heap, f), self.RR), inst_layer(N, i))
                    s.heap[f] = head + tail
                res.append(I.Out(o.kind, c, s, None if o.val is None else inst(self.RR(o.val))))
        ns = NOT(some)
        if finite and ns is not FALSE:
            res.append(I.Out('fall', ns, self.after(n)))
        return res

    def heap_after(self, f, n):
        j = fresh('i', 'int')
        ls = self.pre[f]
        if n.op == 'ite':
            ls = ls + self.loop_ite(f, n)
        else:
            ls = ls + hp.hloop(n, j, hp.subst_layers(self.L[f], {self.i: j}))
        for x in self.vars.values():
            if x.hf == f:
                ls = ls + (hp.hset(TRUE, x.hk, x.sol(n)),)
        return ls

    def loop_ite(self, f, n):
        out = ()
        for g, v in tm.cases(n):
            j = fresh('i', 'int')
            out = out + hp.guard_layers(g, hp.hloop(v, j, hp.subst_layers(self.L[f], {self.i: j})))
        return out

    def after(self, n):
        I = _interp()
        s = self.st.copy()
        for v, x in self.vars.items():
            if x.hf is None:
                s.env[v] = x.sol(n)
        m = tm.sub(n, const(1))
        for v in self.names:
            if v not in self.vars and v in self.nr[1].env:
                t = self.RR(self.nr[1].env[v])
                s.env[v] = tm.lift(lambda z: subst(t, {self.i: z}), (m,))
        for f in self.fields:
            s.heap[f] = self.heap_after(f, n)
        return s

    def bound(self, g):
        """wend condition -> (bound m, remaining exit condition before it, continue condition)"""
        i = self.i
        inv, _ = tm._split_ite(g, i)
        if inv is not None:
            c, x, y = inv
            p, q = self.bound(x), self.bound(y)
            if p is not None and q is not None and p[1] is FALSE and q[1] is FALSE:
                return ite(c, p[0], q[0]) if c.op == 'ite' else tm.ite_atom(c, p[0], q[0]), FALSE, \
                    ite(c, p[2], q[2]) if c.op == 'ite' else tm.ite_atom(c, p[2], q[2])
        atoms = []
        best = None
        seen = set()
        stk = [g]
        while stk:
            x = stk.pop()
            if x.op == 'ite' and x not in seen:
                seen.add(x)
                if x.args[0] not in atoms:
                    atoms.append(x.args[0])
                stk += [x.args[1], x.args[2]]
        for a in atoms:
            if a.op != 'ge':
                continue
            p = dict(tm.poly_dict(a.args[0]))
            c = p.pop(((i, 1),), None)
            if c not in (1, -1) or typ(a.args[0]) != 'int':
                continue
            r = tm.from_poly(p)
            if tm.occurs(i, r):
                continue
            cc = const(a.args[1])
            if c == 1:
                m = tm.sub(cc, r)               # i >= m
                val = True
            else:
                m = tm.add(tm.sub(r, cc), const(1))     # r - i < c  <=>  i >= r - c + 1
                val = False
            if tm.cofactor(g, a, val) is TRUE:
                rest = tm.cofactor(g, a, not val)
                cont = tm.atom_raw(a)
                cont = NOT(cont) if val else cont
                if rest is FALSE:
                    return m, rest, cont
                if best is None:
                    best = (m, rest, cont)
        return best

    def wrap_live(self, n, ex):
        """Direct iteration over a list that the loop changes."""
        lst, s = self.live
        hit = False
        for leaf, bs in hp.leaves(self.L.get('$c', ())):
            if leaf.op == 'mark':
                hit = True
                continue
            if refeq(leaf.args[1], lst) is not FALSE:
                hit = True
        for x in self.vars.values():
            if x.hf == '$c' and refeq(x.hk, lst) is not FALSE:
                hit = True
        if not hit:
            return n
        m = {s: raw('live', s)}
        for k, (o, g) in enumerate(ex):
            ex[k] = (o, subst(g, m))
        for f in self.L:
            self.L[f] = hp.subst_layers(self.L[f], m)
        for x in self.vars.values():
            x.sol = (lambda h: (lambda j: subst(h(j), m)))(x.sol)
        return tm.length(raw('live', s))


def inst_layer(N, i):
    if N.op == 'ite':
        def f(l):
            # the layer of every alternative is guarded by its condition
            return subst(l, {i: N})
        return f
    return lambda l: subst(l, {i: N})


def updl(b, s):
    """Sequence b with the elements of the (index, value) pairs of s assigned in order."""
    if b.op == 'unknown':
        return b
    ps = tm.parts(s)
    if len(ps) == 1 and ps[0][0] == 'loop':
        i, n, body = tm.open_loop(ps[0])
        if len(body) == 1 and body[0][0] == 'item' and body[0][1] is TRUE and body[0][2].op == 'tuple':
            k, v = [q[2] for q in body[0][2].args[0]]
            if k is i and n is tm.length(b):
                return tm.seq([tm.mk_loop_part(n, i, [('item', TRUE, v)])])
    return raw('updl', b, s)


tm.REBUILD['updl'] = lambda b, s: tm.lift(updl, (b, s))


def foldv(fo, k, ty):
    s = fo.args[2][k]
    if s.op == 'acc' and s.args[1] == k:
        # the state does not change
        return fo.args[1][1 + k]
    return raw('foldv', fo, k, ty)


tm.REBUILD['foldv'] = foldv


def based(x):
    """A table of numbers filled in loops, counted from 0: (table, offset) - or None.

    What the table holds where no loop wrote is not looked at: it is the constant it was created with.
    """
    def leaf(ps):
        for p in ps:
            if p[0] == 'item':
                return p[2].args[0][1][2] if p[2].op == 'tuple' and len(p[2].args[0]) == 2 else None
            if p[0] == 'loop':
                return leaf(p[3])
            return None

    def shifted(ps, c):
        out = []
        for p in ps:
            if p[0] == 'loop':
                b = shifted(p[3], c)
                if b is None:
                    return None
                out.append(p[:3] + (b,))
            elif p[0] == 'item' and p[2].op == 'tuple' and len(p[2].args[0]) == 2:
                k, v = [q[2] for q in p[2].args[0]]
                if typ(v) != 'int':
                    return None
                out.append(('item', p[1], _interp().tup([k, tm.sub(v, c)])))
            else:
                return None
        return tuple(out)

    def table(t, c):
        if t.op == 'updl':
            b = table(t.args[0], c)
            ps = shifted(tm.parts(t.args[1]), c)
            return None if b is None or ps is None else raw('updl', b, tm.seq(ps))
        if t.op == 'seq' and len(t.args[0]) == 1 and t.args[0][0][0] == 'loop':
            p = t.args[0][0]
            if len(p[3]) == 1 and p[3][0][0] == 'item' and p[3][0][2].op == 'num':
                return tm.seq([p[:3] + ((('item', p[3][0][1], const(-1)),),)])
        return None
    v = leaf(tm.parts(x.args[1]))
    if v is None or typ(v) != 'int':
        return None
    c = const(tm.poly_dict(v).get((), 0))
    t = table(x, c)
    return None if t is None else (t, c)


tm.BASED[0] = based
