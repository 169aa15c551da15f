"""
Hash-consed terms in normal form.

A term is the abstract value of the value-flow analysis.  Two program fragments compute the same
value when they have the same term, so every constructor here normalises:

* arithmetic   -> polynomials with rational coefficients over atoms (Laurent exponents)
* conditions   -> ordered decision diagrams over comparison atoms, values are guarded by `ite` nodes
* sequences    -> concatenations of guarded items and of loops (index-bounded comprehensions)
* strings      -> concatenations of literals, formatted holes and joins
* binders      -> locally nameless, the bound variable is named by the height of its binder
"""

import sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class Budget(Exception):
    """A term became too large to be kept in normal form."""


class T:
    __slots__ = ('op', 'args', 'id', 'bh', 'syms', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]
LIMIT = [1500000]


def _mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _count[0] += 1
    if _count[0] > LIMIT[0]:
        raise Budget('too many terms')
    t.id = _count[0]
    bh = 0
    syms = None
    if op == 'sym':
        syms = frozenset((t,))
    else:
        st = list(args)
        for a in st:
            if isinstance(a, T):
                if a.bh > bh:
                    bh = a.bh
                if a.syms:
                    syms = a.syms if syms is None else (syms if a.syms <= syms else syms | a.syms)
            elif isinstance(a, tuple):
                if a and a[0] == 'loop' and a[1] > bh:
                    bh = a[1]
                st.extend(a)
        if op in BINDERS:
            # args: (h, ...) - height is explicit
            bh = max(bh, args[0])
    t.bh = bh
    t.syms = syms if syms is not None else EMPTY
    _table[key] = t
    return t


EMPTY = frozenset()

# op -> nothing; first argument of a binder term is its height h, the bound variable is bv(h)
BINDERS = {'loop', 'sum', 'exists', 'first', 'last', 'agg', 'wn', 'lam', 'fold', 'layer1', 'dcomp'}

_fresh = [0]


def sym(name, typ='?'):
    return _mk('sym', name, typ)


def fresh(name, typ='int'):
    _fresh[0] += 1
    return _mk('sym', '%s#%d' % (name, _fresh[0]), typ)


# --------------------------------------------------------------------------------------------------
# Constants.

def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return _mk('num', Fraction(v))
    if isinstance(v, Fraction):
        return _mk('num', v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return _mk('const', 'float', repr(v))
        return _mk('num', Fraction(repr(v)) if _exact(v) else Fraction(v))
    if v is None:
        return NONE
    if isinstance(v, str):
        return string([v])
    if isinstance(v, bytes):
        return _mk('const', 'bytes', v)
    if v is Ellipsis:
        return _mk('const', 'ellipsis', '...')
    if isinstance(v, complex):
        return _mk('const', 'complex', repr(v))
    raise Budget('constant %r' % (v,))


def _exact(v):
    return True     # decimal literal as written


def op(name, *args):
    """Generic term (pure, uninterpreted)."""
    return lift(lambda *a: _mk(name, *a), args)


def raw(name, *args):
    return _mk(name, *args)


TRUE = _mk('true')
FALSE = _mk('false')
NONE = _mk('none')


def unknown(why):
    _fresh[0] += 1
    return _mk('unknown', why, _fresh[0])


def has_unknown(t, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return any(has_unknown(a, memo) for a in t)
        return False
    if t in memo:
        return memo[t]
    memo[t] = False
    r = t.op == 'unknown' or any(has_unknown(a, memo) for a in t.args)
    memo[t] = r
    return r


def occurs(x, t):
    """Does the symbol (or ground term) x occur in t."""
    if x.op == 'sym':
        return x in t.syms
    return _occ(x, t, {})


def _occ(x, t, memo):
    if t is x:
        return True
    if t in memo:
        return memo[t]
    memo[t] = False
    for a in t.args:
        if isinstance(a, T):
            if _occ(x, a, memo):
                memo[t] = True
                return True
        elif isinstance(a, tuple):
            for b in _flat(a):
                if _occ(x, b, memo):
                    memo[t] = True
                    return True
    return memo[t]


def _flat(a):
    for b in a:
        if isinstance(b, T):
            yield b
        elif isinstance(b, tuple):
            yield from _flat(b)


# --------------------------------------------------------------------------------------------------
# Types of terms.  '?' - unknown, 'int', 'num', 'str', 'bool', 'none', ('list', t), ('obj', cls),
# ('tuple', ...), ('dict', t), 'nd' (array), 'seq'

_typ_memo = {}


def typ(t):
    r = _typ_memo.get(t)
    if r is None:
        r = _typ(t)
        _typ_memo[t] = r
    return r


def _typ(t):
    o = t.op
    if o == 'sym':
        return t.args[1]
    if o == 'num':
        return 'int' if t.args[0].denominator == 1 else 'num'
    if o == 'poly':
        r = 'int'
        for m, c in t.args[0]:
            if c.denominator != 1:
                r = 'num'
            for a, e in m:
                ta = typ(a)
                if ta == 'nd':
                    return 'nd'
                if ta != 'int' or e < 0:
                    r = 'num'
        return r
    if o in ('true', 'false', 'ge', 'gt', 'eq', 'isnone', 'exists', 'in', 'truth', 'isinst'):
        return 'bool'
    if o == 'none':
        return 'none'
    if o == 'str':
        return 'str'
    if o == 'seq':
        return 'seq'
    if o == 'len' or o in ('floordiv_i', 'mod_i', 'first', 'last', 'wn', 'int', 'index'):
        return 'int'
    if o == 'sum':
        return typ(t.args[2])
    if o == 'ite':
        a = typ(t.args[1])
        b = typ(t.args[2])
        if a == b:
            return a
        if a in ('none', '?'):
            return b
        if b in ('none', '?'):
            return a
        if {a, b} == {'int', 'num'}:
            return 'num'
        return '?'
    if o == 'typed':
        return t.args[0]
    if o in TYPED_OPS:
        return TYPED_OPS[o](t)
    if o in ('sqrt', 'abs', 'float', 'inv', 'pow', 'round'):
        return 'num'
    return '?'


TYPED_OPS = {}


# --------------------------------------------------------------------------------------------------
# ite / decision diagrams

def atom_order(a):
    # comparison atoms over one linear form are adjacent and ordered by strength
    if a.op in ('ge', 'gt'):
        return (a.args[0].id, 0, a.args[1], 0 if a.op == 'ge' else 1)
    if a.op == 'eq':
        return (a.args[0].id, 1, Fraction(a.args[1].id), 0)
    return (a.id, 2, Fraction(0), 0)


class Facts:
    """Known truth values of atoms (assumptions of the current analysis context)."""

    def __init__(self):
        self.d = {}
        self.hook = None

    def get(self, a):
        v = self.d.get(a)
        if v is None and self.hook is not None:
            v = self.hook(a)
        return v


FACTS = Facts()


def implied(a, b, bval):
    """Truth of the atom a when the atom b has the value bval (None - not determined)."""
    if a is b:
        return bval
    ao, bo = a.op, b.op
    if ao in ('ge', 'gt') and bo in ('ge', 'gt'):
        if a.args[0] is not b.args[0]:
            return None
        ca = (a.args[1], 0 if ao == 'ge' else 1)
        cb = (b.args[1], 0 if bo == 'ge' else 1)
        # larger pair - stronger condition
        if bval:
            return True if ca <= cb else None
        return False if ca >= cb else None
    if ao == 'eq' and bo == 'eq' and bval:
        # equal to one constant - not equal to another one
        for x, c in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
            for y, d in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if x is y and c is not d and is_value(c) and is_value(d):
                    return False
    if ao == 'isnone' and bo == 'eq' and bval and a.args[0] in b.args:
        o = b.args[0] if b.args[1] is a.args[0] else b.args[1]
        if is_value(o):
            return False
    if ao == 'eq' and bo == 'isnone' and bval and b.args[0] in a.args:
        o = a.args[0] if a.args[1] is b.args[0] else a.args[1]
        if is_value(o):
            return False
    return None


def is_value(t):
    """Ground constant that differs from every other ground constant."""
    if t.op in ('num', 'true', 'false', 'none', 'const'):
        return True
    return t.op == 'str' and (len(t.args[0]) == 0 or (len(t.args[0]) == 1 and isinstance(t.args[0][0], str)))


_cof = {}


def cofactor(t, a, val):
    """Restrict the decision diagram t by atom a = val."""
    if t.op != 'ite':
        return t
    k = (t, a, val)
    r = _cof.get(k)
    if r is not None:
        return r
    b, x, y = t.args
    v = implied(b, a, val)
    if v is True:
        r = cofactor(x, a, val)
    elif v is False:
        r = cofactor(y, a, val)
    else:
        x2, y2 = cofactor(x, a, val), cofactor(y, a, val)
        r = x2 if x2 is y2 else _mk('ite', b, x2, y2)
    _cof[k] = r
    return r


def node(a, x, y):
    """Decision node: a is an atom that precedes all atoms of x and y."""
    x = cofactor(x, a, True)
    y = cofactor(y, a, False)
    if x is y:
        return x
    v = FACTS.get(a)
    if v is not None:
        return x if v else y
    if x.op == 'ite' and x.args[2] is y and implied(x.args[0], a, False) is False:
        return x
    if y.op == 'ite' and y.args[1] is x and implied(y.args[0], a, True) is True:
        return y
    return _mk('ite', a, x, y)


_lift_depth = [0]
LIFT_MAX = 4000


def top_atom(ts):
    best = None
    bo = None
    for t in ts:
        if isinstance(t, T) and t.op == 'ite':
            o = atom_order(t.args[0])
            if best is None or o < bo:
                best, bo = t.args[0], o
    return best


def lift(f, args, memo=None, budget=None):
    """Apply f to the leaves of the decision diagrams args."""
    a = top_atom(args)
    if a is None:
        return f(*args)
    if memo is None:
        memo = {}
        budget = [LIFT_MAX]
    key = tuple(x for x in args)
    r = memo.get(key)
    if r is not None:
        return r
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget('too many cases')
    x = lift(f, tuple(cofactor(t, a, True) if isinstance(t, T) else t for t in args), memo, budget)
    y = lift(f, tuple(cofactor(t, a, False) if isinstance(t, T) else t for t in args), memo, budget)
    # results may contain atoms that precede a
    r = ite_atom(a, x, y)
    memo[key] = r
    return r


_ite_memo = {}


def ite_atom(a, x, y):
    v = FACTS.get(a)
    if v is not None:
        return x if v else y
    if x is y:
        return x
    if a.op == 'eq' and (x is a.args[0] and y is a.args[1] or x is a.args[1] and y is a.args[0]):
        return y
    t = top_atom((x, y))
    if t is None or atom_order(a) < atom_order(t):
        return node(a, x, y)
    k = (a, x, y)
    r = None
    if FACTS.hook is None and not FACTS.d:
        r = _ite_memo.get(k)
    if r is not None:
        return r
    if t is a:
        r = node(a, cofactor(x, a, True), cofactor(y, a, False))
    else:
        v = implied(a, t, True)
        xt, yt = cofactor(x, t, True), cofactor(y, t, True)
        p = ite_atom(a, xt, yt) if v is None else (xt if v else yt)
        v = implied(a, t, False)
        xf, yf = cofactor(x, t, False), cofactor(y, t, False)
        q = ite_atom(a, xf, yf) if v is None else (xf if v else yf)
        r = node(t, p, q)
    if FACTS.hook is None and not FACTS.d:
        _ite_memo[k] = r
    return r


def ite(c, x, y):
    """c is a boolean decision diagram."""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == 'unknown':
        return _mk('unknown', 'branch on unknown', c.args[1])
    if c.op != 'ite':
        c = atom(c)
        if c.op != 'ite':
            return ite(c, x, y)
    a, p, q = c.args
    if p is TRUE and q is FALSE:
        return ite_atom(a, x, y)
    return ite_atom(a, ite(p, x, y), ite(q, x, y))


KNOWN = {}      # conditions on the index of a running loop that hold in each iteration


def within(i, n):
    """The fresh index i of a loop is less than n."""
    c = lt(i, n)
    if c.op == 'ite' and is01(c):
        KNOWN[c.args[0]] = c.args[1]


def is01(c):
    return {c.args[1], c.args[2]} == {TRUE, FALSE}


def atom(t):
    if t in KNOWN:
        return KNOWN[t]
    """Boolean decision diagram of one atom."""
    if t is TRUE or t is FALSE:
        return t
    v = FACTS.get(t)
    if v is not None:
        return TRUE if v else FALSE
    return _mk('ite', t, TRUE, FALSE)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


# --------------------------------------------------------------------------------------------------
# Arithmetic.

def poly_dict(t):
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return _mk('num', Fraction(0))
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return _mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    if len(items) > 3000:
        raise Budget('too large polynomial')
    return _mk('poly', tuple(items))


def _add(a, b):
    d = poly_dict(a)
    for m, c in poly_dict(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = {}
    extra = None
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'sqrt' and (e >= 2 or e <= -2):
            k = abs(e) // 2
            r = e - 2 * k if e > 0 else e + 2 * k
            base = a.args[0]
            p = base if k == 1 else _pow(base, k)
            if e < 0:
                p = _inv(p)
            extra = p if extra is None else _mul(extra, p)
            if r:
                out[a] = r
        else:
            out[a] = e
    # p * (1 / p)
    return tuple(sorted(out.items(), key=lambda ae: ae[0].id)), extra


def _mul(a, b):
    pa, pb = poly_dict(a), poly_dict(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, extra = mono_mul(m1, m2)
            if extra is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                for m3, c3 in poly_dict(_mul(from_poly({m: Fraction(1)}), extra)).items():
                    d[m3] = d.get(m3, 0) + c1 * c2 * c3
        if len(d) > 5000:
            raise Budget('too large polynomial')
    return cancel(from_poly(d))


def cancel(t):
    """p * inv(p) -> 1 when p divides the whole polynomial and is itself a polynomial."""
    if t.op != 'poly':
        return t
    invs = set()
    for m, c in t.args[0]:
        for a, e in m:
            if a.op == 'inv' and e > 0:
                invs.add(a)
    for a in invs:
        q = _divides(t, a)
        if q is not None:
            return cancel(q)
    return t


def _divides(t, iv):
    """t = iv * (p * k + rest)?  Recognise sum_j c_j * m * iv over all monomials of p."""
    p = dict(poly_dict(iv.args[0]))
    d = dict(t.args[0])
    lead, lc = max(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    for m, c in list(d.items()):
        if not any(a is iv and e > 0 for a, e in m):
            continue
        # m = iv * lead * k ?
        k, ex = mono_mul(m, tuple((a, -e) for a, e in lead))
        if ex is not None or any(e < 0 for a, e in k if a.op != 'inv'):
            continue
        coef = c / lc
        ok = True
        todo = []
        for pm, pc in p.items():
            mm, ex = mono_mul(k, pm)
            if ex is not None or d.get(mm) != pc * coef:
                ok = False
                break
            todo.append(mm)
        if ok:
            for mm in todo:
                del d[mm]
            kk = dict(k)
            kk[iv] -= 1
            if kk[iv] == 0:
                del kk[iv]
            nm = tuple(sorted(kk.items(), key=lambda ae: ae[0].id))
            d[nm] = d.get(nm, 0) + coef
            return from_poly(d)
    return None


def _pow(a, n):
    r = const(1)
    for _ in range(n):
        r = _mul(r, a)
    return r


def _inv(a):
    if a.op == 'num':
        if a.args[0] == 0:
            return _mk('divzero')
        return _mk('num', 1 / a.args[0])
    d = poly_dict(a)
    if len(d) == 1:
        (m, c), = d.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    # content and sign
    items = sorted(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    c = items[-1][1]
    return from_poly({((_mk('inv', from_poly({m: k / c for m, k in items})), 1),): 1 / c})


def add(a, b):
    return lift(_add, (a, b))


def mul(a, b):
    return lift(_mul, (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return lift(lambda x, y: _mul(x, _inv(y)), (a, b))


def power(a, b):
    def f(x, y):
        if y.op == 'num' and y.args[0].denominator == 1 and 0 <= y.args[0] <= 8:
            return _pow(x, int(y.args[0]))
        if y.op == 'num' and y.args[0].denominator == 1 and -8 <= y.args[0] < 0:
            return _inv(_pow(x, -int(y.args[0])))
        if y.op == 'num' and y.args[0] == Fraction(1, 2):
            return sqrt(x)
        if x.op == 'num' and y.op == 'num':
            return _mk('pow', x, y)
        return _mk('pow', x, y)
    return lift(f, (a, b))


def sqrt(a):
    def f(x):
        if x.op == 'num' and x.args[0] >= 0:
            n, d = x.args[0].numerator, x.args[0].denominator
            import math
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return const(Fraction(math.isqrt(n), math.isqrt(d)))
        return _mk('sqrt', x)
    return lift(f, (a,))


def lead_sign(t):
    """Sign of the leading coefficient."""
    if t.op == 'poly':
        return 1 if t.args[0][-1][1] > 0 else -1
    if t.op == 'num':
        return 1 if t.args[0] >= 0 else -1
    return 1


def absolute(a):
    def f(x):
        if x.op == 'num':
            return const(abs(x.args[0]))
        if lead_sign(x) < 0:
            x = neg(x)
        if x.op == 'poly':
            # |c * p| = c * |p|
            c = x.args[0][-1][1]
            if c != 1:
                return mul(const(c), _mk('abs', mul(const(1 / c), x)))
        if x.op in ('len', 'sqrt', 'abs'):
            return x
        return _mk('abs', x)
    return lift(f, (a,))


def floordiv(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            return const(x.args[0] // y.args[0])
        if y is const(1) and typ(x) == 'int':
            return x
        if typ(x) == 'int' and typ(y) == 'int':
            return _mk('floordiv_i', x, y)
        return _mk('floordiv', x, y)
    return lift(f, (a, b))


def mod(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            return const(x.args[0] % y.args[0])
        if typ(x) == 'int' and typ(y) == 'int':
            return _mk('mod_i', x, y)
        return _mk('mod', x, y)
    return lift(f, (a, b))


# --------------------------------------------------------------------------------------------------
# Comparisons.

def _split_const(d):
    d = dict(d)
    c = d.pop((), Fraction(0))
    return d, c


def _cmp0(t, strict):
    """t > 0 (strict) or t >= 0."""
    if t.op == 'unknown':
        return t
    if t.op == 'num':
        v = t.args[0]
        return TRUE if (v > 0 if strict else v >= 0) else FALSE
    if t.op == 'const':
        v = float(t.args[1])
        return TRUE if (v > 0 if strict else v >= 0) else FALSE
    isint = typ(t) == 'int'
    d, c = _split_const(poly_dict(t))
    items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    k = abs(items[-1][1])
    s = 1 if items[-1][1] > 0 else -1
    if isint:
        from math import gcd
        g = 0
        for _, cc in items:
            g = gcd(g, abs(int(cc)))
        # g * q + c > 0  /  >= 0  with q integer
        q = from_poly({m: s * cc / g for m, cc in items})
        if strict:
            c = c - 1      # g * s * q + c >= 0
        if s > 0:
            # q >= -c / g
            import math
            return _int_ge(q, math.ceil(-c / g))
        # -q * g + c >= 0  ->  q <= c / g  ->  not q >= floor(c/g) + 1
        import math
        return NOT(_int_ge(q, math.floor(c / g) + 1))
    q = from_poly({m: s * cc / k for m, cc in items})
    c = c / k
    if s > 0:
        # q + c > 0
        return _rel_atom('gt' if strict else 'ge', q, -c)
    # -q + c > 0 -> q < c -> not q >= c
    return NOT(_rel_atom('ge' if strict else 'gt', q, c))


def _int_ge(q, c):
    c = Fraction(c)
    if q.op == 'mod_i' and q.args[1].op == 'num' and q.args[1].args[0] > 0:
        if c <= 0:
            return TRUE
        if c > q.args[1].args[0] - 1:
            return FALSE
    lo = lower_bound(q)
    if lo is not None and c <= lo:
        return TRUE
    if c == 1:
        r = _some(q)
        if r is not None:
            return r
    return _rel_atom('ge', q, c)


def _some(q):
    """q >= 1 where q counts the elements of loops (None: q is something else)."""
    d = dict(poly_dict(q))
    r = FALSE
    found = False
    for m, c in list(d.items()):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and c < 0:
            # what a loop does not count
            n = m[0][0].args[1]
            k = ((n, 1),)
            if d.get(k, 0) < -c:
                return None
            d[k] += c
            if not d[k]:
                del d[k]
            del d[m]
            r = OR(r, _some_in(m[0][0], lambda b: _add(const(1), _mul(const(-1), b))))
            found = True
    for m, c in d.items():
        if c <= 0 or len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.op == 'sum':
            if lower_bound(a) is None or typ(a) != 'int':
                return None
            r = OR(r, _some_in(a, lambda b: b))
            found = True
        elif a.op == 'len':
            r = OR(r, _rel_atom('ge', a, Fraction(1)))
        else:
            return None
    return r if found else None


def _some_in(a, f):
    _, h, n, b = ('sum',) + a.args
    i = fresh('i', 'int')
    return exists(n, i, le(const(1), lift(f, (subst(b, {bv(h): i}),))))


def _rel_atom(o, q, c):
    if o == 'gt' or o == 'ge':
        lo = lower_bound(q)
        if lo is not None and (c < lo or (o == 'ge' and c <= lo)):
            return TRUE
    return atom(_mk(o, q, Fraction(c)))


NONNEG = {'len', 'sqrt', 'abs', 'first', 'last', 'wn', 'index'}


def _leaf_values(t):
    if t.op == 'ite':
        return _leaf_values(t.args[1]) + _leaf_values(t.args[2])
    return [t]


def lower_bound(t):
    """A known lower bound of the term (or None)."""
    if t.op in NONNEG:
        return Fraction(0)
    if t.op == 'sum':
        return Fraction(0) if all((lower_bound(x) or 0) >= 0 and lower_bound(x) is not None for x in _leaf_values(t.args[2])) else None
    if t.op == 'sym':
        if t.args[0].startswith('i#') or t.args[0].startswith('w#'):
            return Fraction(0)
        return None
    if t.op == 'bv':
        return Fraction(0)
    if t.op == 'num':
        return t.args[0]
    if t.op == 'poly':
        s = Fraction(0)
        for m, c in t.args[0]:
            if m == ():
                s += c
                continue
            if c < 0:
                return None
            l = Fraction(1)
            for a, e in m:
                if e % 2 == 0:
                    l = Fraction(0)
                    continue
                if e < 0:
                    return None
                x = lower_bound(a)
                if x is None or x < 0:
                    return None
                l *= x ** e
            s += c * l
        return s
    return None


def lt(a, b):
    return lift(lambda x, y: _order(x, y, True), (a, b))


def le(a, b):
    return lift(lambda x, y: _order(x, y, False), (a, b))


def _order(x, y, strict):
    """x < y or x <= y."""
    tx, ty = typ(x), typ(y)
    nonnum = ('str', 'seq')
    if tx in nonnum or ty in nonnum or (isinstance(tx, tuple)) or (isinstance(ty, tuple)):
        if strict:
            return atom(_mk('less', x, y))
        return NOT(atom(_mk('less', y, x)))
    if x.op == 'const' or y.op == 'const':
        if is_inf(y) == 1 and strict is False:
            return TRUE
        if is_inf(x) == 1 and strict:
            return FALSE
        if strict:
            return atom(_mk('less', x, y))
        return NOT(atom(_mk('less', y, x)))
    return _cmp0(_add(y, _mul(const(-1), x)), strict)


def is_inf(t):
    if t.op == 'const' and t.args[0] == 'float':
        return {'inf': 1, '-inf': -1}.get(t.args[1], 0)
    return 0


def numeric(t):
    return typ(t) in ('int', 'num', 'bool') or t.op in ('poly', 'num')


def eq(a, b):
    return lift(_eq, (a, b))


def _eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'unknown':
        return x
    if y.op == 'unknown':
        return y
    if is_value(x) and is_value(y):
        if x.op in ('true', 'false') and y.op == 'num':
            return TRUE if (x is TRUE) == (y.args[0] == 1) and y.args[0] in (0, 1) else FALSE
        if y.op in ('true', 'false') and x.op == 'num':
            return _eq(y, x)
        return FALSE
    if x is TRUE or y is TRUE or x is FALSE or y is FALSE:
        if x is TRUE or x is FALSE:
            x, y = y, x
        if typ(x) == 'bool':
            return truth(x) if y is TRUE else NOT(truth(x))
    if x is NONE or y is NONE:
        o = y if x is NONE else x
        return isnone(o)
    if x.op == 'str' and y.op == 'str':
        r = _str_eq(x, y)
        if r is not None:
            return r
    sx, sy = seq_like(x), seq_like(y)
    if sx and sy:
        r = _seq_eq(x, y)
        if r is not None:
            return r
    if x.op == y.op == 'call' and x.args[0] == y.args[0] == 'id':
        return REFEQ[0](x.args[1].args[0][0][2], y.args[1].args[0][0][2])
    if numeric(x) and numeric(y) and x.op != 'const' and y.op != 'const':
        d = _add(x, _mul(const(-1), y))
        if d.op == 'num':
            return TRUE if d.args[0] == 0 else FALSE
        return AND(_cmp0(d, False), NOT(_cmp0(d, True)))
    if x.op == 'new' or y.op == 'new':
        return REFEQ[0](x, y)
    if x.id > y.id:
        x, y = y, x
    return atom(_mk('eq', x, y))


REFEQ = [None]


def _str_eq(x, y):
    px, py = x.args[0], y.args[0]
    # common literal prefix / suffix
    if px and py and isinstance(px[0], str) and isinstance(py[0], str):
        n = min(len(px[0]), len(py[0]))
        if px[0][:n] != py[0][:n]:
            return FALSE
    if px and py and isinstance(px[-1], str) and isinstance(py[-1], str):
        n = min(len(px[-1]), len(py[-1]))
        if px[-1][-n:] != py[-1][-n:]:
            return FALSE
    if len(px) == len(py) == 2 and px[0] == py[0] and isinstance(px[0], str) \
            and isinstance(px[1], T) and isinstance(py[1], T) \
            and px[1].op == py[1].op == 'fmt' and px[1].args[0] == py[1].args[0] == '' \
            and typ(px[1].args[1]) == typ(py[1].args[1]) == 'int':
        return _eq(px[1].args[1], py[1].args[1])
    return None


def _seq_eq(x, y):
    px, py = parts(x), parts(y)
    lx, ly = all(p[0] == 'item' and p[1] is TRUE for p in px), all(p[0] == 'item' and p[1] is TRUE for p in py)
    if lx and ly:
        if len(px) != len(py):
            return FALSE
        return AND(*[eq(p[2], q[2]) for p, q in zip(px, py)])
    # [] == s  ->  len(s) == 0
    if (lx and not px) or (ly and not py):
        o = y if (lx and not px) else x
        return eq(length(o), const(0))
    return None


def isnone(t):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in NEVER_NONE or is_value(x):
            return FALSE
        ty = typ(x)
        if ty == '?' or (isinstance(ty, tuple) and ty[0] == 'opt'):
            if x.op == 'unknown':
                return x
            return atom(_mk('isnone', x))
        return FALSE
    return lift(f, (t,))


NEVER_NONE = {'num', 'poly', 'str', 'seq', 'true', 'false', 'new', 'tuple', 'ge', 'gt', 'exists', 'sqrt', 'abs',
              'len', 'sum', 'inv', 'agg', 'cont', 'closure', 'sorted', 'rev', 'slice', 'reg'}


def truth(t):
    """bool(t)"""
    def f(x):
        if x is TRUE or x is FALSE:
            return x
        if x is NONE:
            return FALSE
        if x.op == 'unknown':
            return x
        ty = typ(x)
        if ty == 'bool':
            return atom(x)
        if ty in ('int', 'num') or x.op in ('num', 'poly'):
            return NOT(_eq(x, const(0)))
        if x.op == 'str':
            if not x.args[0]:
                return FALSE
            if any(isinstance(p, str) for p in x.args[0]):
                return TRUE
        if seq_like(x):
            return NOT(eq(length(x), const(0)))
        if isinstance(ty, tuple) and ty[0] == 'obj':
            return TRUE
        if isinstance(ty, tuple) and ty[0] == 'opt':
            some = NOT(atom(_mk('isnone', x)))
            if ty[1] in ('int', 'num'):
                return AND(some, NOT(_eq(x, const(0))))
            if ty[1] == 'str':
                return AND(some, NOT(_eq(x, const(''))))
            if isinstance(ty[1], tuple) and ty[1][0] == 'obj':
                return some
            return AND(some, atom(_mk('truth', x)))
        if x.op in ('new', 'closure'):
            return TRUE
        return atom(_mk('truth', x))
    return lift(f, (t,))


# --------------------------------------------------------------------------------------------------
# Sequences.  ('seq', (part, ...)); part: ('item', guard, value) | ('loop', h, n, parts) | ('sub', term)
# A loop part binds bv(h) ranging over 0 .. n - 1.  A sub part is an opaque sequence.

def seq_like(t):
    return t.op in ('seq', 'cont', 'sorted', 'slice', 'rev', 'tuple', 'listof', 'uniq', 'range') or \
        (isinstance(typ(t), tuple) and typ(t)[0] in ('seq', 'list', 'tuple'))


def parts(t):
    """Parts of the sequence."""
    if t.op in ('seq', 'tuple'):
        return t.args[0]
    return (('sub', t),)


def seq(ps):
    return _mk('seq', norm_parts(ps))


def items(vals):
    return seq([('item', TRUE, v) for v in vals])


def norm_parts(ps):
    out = []
    for p in ps:
        if p[0] == 'item':
            if p[1] is FALSE:
                continue
            # complementary guards of neighbours
            if out and out[-1][0] == 'item' and out[-1][1] is not TRUE and p[1] is not TRUE \
                    and AND(out[-1][1], p[1]) is FALSE:
                q = out.pop()
                g = OR(q[1], p[1])
                p = ('item', g, simplify_under(g, ite(q[1], q[2], p[2])))
            out.append(p)
        elif p[0] == 'sub':
            if p[1].op in ('seq', 'tuple'):
                out.extend(norm_parts(p[1].args[0]))
            else:
                out.append(p)
        else:
            _, h, n, body = p
            if n is const(0) or not body:
                continue
            # for i in range(len(s)): s[i]
            if len(body) == 1 and body[0][0] == 'item' and body[0][1] is TRUE:
                v = body[0][2]
                if v.op == 'at' and v.args[1] is bv(h) and not _occ(bv(h), v.args[0], {}) \
                        and n is length(v.args[0]) and plain_opaque(v.args[0]):
                    out.append(('sub', v.args[0]))
                    continue
            c = guard_of(p)
            if c is None:
                out.append(p)
                continue
            for q in guarded(c, body):
                k = len(out)
                # neighbours that exclude each other: those with single items first
                if q[0] == 'item':
                    while k and excludes(out[k - 1], c) and out[k - 1][0] == 'loop':
                        k -= 1
                    if k and excludes(out[k - 1], q[1]) and out[k - 1][0] == 'item':
                        g = OR(out[k - 1][1], q[1])
                        out[k - 1] = ('item', g, simplify_under(g, ite(out[k - 1][1], out[k - 1][2], q[2])))
                        continue
                else:
                    while k and out[k - 1][0] == 'loop' and excludes(out[k - 1], c) and _part_text(q) < _part_text(out[k - 1]):
                        k -= 1
                out.insert(k, q)
    if len(out) > 1:
        for k in range(len(out) - 1, 0, -1):
            p, q = out[k - 1], out[k]
            if q[0] == 'item' and q[1] is not TRUE and p[0] == 'loop' and excludes(p, q[1]):
                out[k - 1], out[k] = q, p
    return tuple(out)


def _part_text(p):
    return repr(p)


def guard_of(p):
    """Condition c of the part: if c: emit the body."""
    _, h, n, body = p
    if n.op != 'ite' or not _is01(n) or any(_occ_part(bv(h), q) for q in body):
        return None
    return truth(n)


def _is01(n):
    if n.op == 'ite':
        return _is01(n.args[1]) and _is01(n.args[2])
    return n.op == 'num' and n.args[0] in (0, 1)


def _occ_part(x, p):
    return any(_occ(x, z, {}) if isinstance(z, T) else any(_occ_part(x, q) for q in z)
               for z in p[1:] if isinstance(z, (T, tuple)))


def excludes(p, c):
    if p[0] == 'item':
        return AND(p[1], c) is FALSE
    if p[0] == 'loop':
        d = guard_of(p)
        return d is not None and AND(d, c) is FALSE
    return False


def guarded(c, ps):
    """The parts under the condition c."""
    out = []
    for p in ps:
        if p[0] == 'item':
            g = AND(c, p[1])
            if g is not FALSE:
                out.append(('item', g, simplify_under(g, p[2])))
            continue
        if p[0] == 'loop':
            d = guard_of(p)
            if d is not None:
                d = AND(c, d)
                if d is not FALSE:
                    out += guarded(d, p[3])
                continue
        elif p[1].op == 'ite':
            x = simplify_under(c, p[1])
            p = ('sub', x)
            if x.op in ('seq', 'tuple'):
                out += guarded(c, norm_parts(x.args[0]))
                continue
        out.append(('loop', 1 + body_height(p), ite(c, const(1), const(0)), (p,)))
    return out


def simplify_under(g, v):
    """Value v matters only when g holds."""
    if g is TRUE or v.op != 'ite':
        return v
    return _restrict(v, g)


def _restrict(v, g):
    # generalised cofactor: drop branches that contradict g
    if v.op != 'ite':
        return v
    a, x, y = v.args
    gt_, gf = AND(g, atom(a)), AND(g, NOT(atom(a)))
    if gt_ is FALSE:
        return _restrict(y, g)
    if gf is FALSE:
        return _restrict(x, g)
    return ite_atom(a, _restrict(x, gt_), _restrict(y, gf))


def plain_opaque(s):
    return s.op not in ('seq', 'tuple')


_bv = {}


def bv(h):
    return _mk('bv', h)


TYPED_OPS['bv'] = lambda t: 'int'


def body_height(*ts):
    h = 0
    for t in ts:
        if isinstance(t, T):
            h = max(h, t.bh)
        elif isinstance(t, tuple):
            if t and t[0] == 'loop':
                h = max(h, t[1])
            h = max(h, body_height(*t))
    return h


def mk_loop_part(n, i, ps):
    """Part: for i in range(n): emit ps (i is a fresh symbol)."""
    ps = norm_parts(ps)
    if not ps:
        return None
    if n.op == 'num' and 0 <= n.args[0] <= 1 and n.args[0].denominator == 1:
        if n.args[0] == 0:
            return None
        return ('sub', _mk('seq', norm_parts(subst_parts(ps, {i: const(0)}))))
    if n.op == 'num' and n.args[0].denominator == 1 and 0 < n.args[0] * len(ps) <= 40:
        out = []
        for k in range(int(n.args[0])):
            out.extend(subst_parts(ps, {i: const(k)}))
        return ('sub', _mk('seq', norm_parts(tuple(out))))
    h = 1 + body_height(*ps)
    b = subst_parts(ps, {i: bv(h)})
    return ('loop', h, n, b)


def open_loop(p, name='i'):
    """Open a loop part with a fresh symbol: (i, n, parts)."""
    _, h, n, b = p
    i = fresh(name, 'int')
    return i, n, subst_parts(b, {bv(h): i})


def subst_parts(ps, m):
    out = []
    for p in ps:
        if p[0] == 'item':
            out.append(('item', subst(p[1], m), subst(p[2], m)))
        elif p[0] == 'sub':
            out.append(('sub', subst(p[1], m)))
        else:
            _, h, n, b = p
            m2 = without(m, bv(h))
            nn = subst(n, m)
            if isinstance(m, Rw) or any(v.bh for v in m2.values()):
                # binders may grow inside: the bound variable is taken out of their way
                i = fresh('i', 'int')
                q = mk_loop_part(nn, i, subst_parts(subst_parts(b, {bv(h): i}), m2))
                if q is not None:
                    out.append(q)
                continue
            nb = subst_parts(b, m2)
            # the height may change after the substitution
            nh = 1 + body_height(*nb_without(nb, h))
            if nh != h:
                i = fresh('i', 'int')
                nb = subst_parts(nb, {bv(h): i})
                q = mk_loop_part(nn, i, nb)
            else:
                nb = norm_parts(nb)
                q = ('loop', h, nn, nb) if nb else None
                if q and nn.op == 'num':
                    i = fresh('i', 'int')
                    q = mk_loop_part(nn, i, subst_parts(nb, {bv(h): i}))
            if q is not None:
                out.append(q)
    return norm_parts(out)


def nb_without(nb, h):
    return nb


# dictionaries with their own normal form
OWN_MAPS = {'map', 'mdel', 'dictof', 'groups', 'ite', 'unknown'}


def length(t):
    def f(x):
        if x.op == 'unknown':
            return x
        if x.op in ('sorted', 'rev'):
            return length(x.args[0])
        if x.op in ('keys', 'values') and x.args[0].op not in OWN_MAPS:
            return _mk('len', x.args[0])
        if x.op == 'str':
            if all(isinstance(p, str) for p in x.args[0]):
                return const(sum(len(p) for p in x.args[0]))
            return _mk('len', x)
        if x.op in ('seq', 'tuple'):
            r = const(0)
            for p in x.args[0]:
                r = add(r, _part_len(p))
            return r
        if x.op == 'slice' and x.args[1].op == 'num' and x.args[1].args[0] >= 0 and x.args[2] is NONE:
            # max(len - k, 0)
            n = sub(length(x.args[0]), x.args[1])
            return ite(le(const(0), n), n, const(0))
        ty = typ(x)
        if isinstance(ty, tuple) and ty[0] == 'tuple' and len(ty) > 1:
            return const(len(ty) - 1)
        return _mk('len', x)
    return lift(f, (t,))


def _part_len(p):
    if p[0] == 'item':
        return ite(p[1], const(1), const(0))
    if p[0] == 'sub':
        return _mk('len', p[1]) if p[1].op not in ('seq', 'tuple', 'sorted', 'rev', 'slice') else length(p[1])
    i, n, b = open_loop(p)
    s = const(0)
    for q in b:
        s = add(s, _part_len(q))
    return summation(n, i, s)


def summation(n, i, body):
    """sum of body for i in range(n)"""
    def f(nn, x):
        r = const(0)
        if x.op == 'unknown':
            return x
        for m, c in poly_dict(x).items():
            mono = from_poly({m: Fraction(1)})
            if not occurs(i, mono):
                r = add(r, mul(mul(const(c), mono), nn))
                continue
            inner = [(a, e) for a, e in m if occurs(i, a)]
            outer = [(a, e) for a, e in m if not occurs(i, a)]
            if len(inner) == 1 and inner[0] == (i, 1):
                s = div(mul(nn, sub(nn, const(1))), const(2))
            else:
                b = from_poly({tuple(inner): Fraction(1)})
                h = 1 + body_height(b)
                s = _mk('sum', h, nn, subst(b, {i: bv(h)}))
            r = add(r, mul(mul(const(c), from_poly({tuple(outer): Fraction(1)})), s))
        return r
    if body.op == 'ite' and occurs(i, body):
        # indicator sums: sum over guarded values
        r = const(0)
        inv, var = _split_ite(body, i)
        if inv is not None:
            a, x, y = inv
            return ite_atom(a, summation(n, i, x), summation(n, i, y))
        if n.op == 'ite':
            return lift(lambda nn: summation(nn, i, body), (n,))
        base = body
        while base.op == 'ite':
            base = base.args[2]
        if base.op == 'num' and base is not const(0) and all(v.op == 'num' for v in _leaf_values(body)):
            # count the other polarity
            r = mul(base, n)
            body = lift(lambda v: sub(v, base), (body,))
        for g, v in cases(body):
            if v is const(0):
                continue
            for m, c in poly_dict(v).items():
                outer = [(a, e) for a, e in m if not occurs(i, a)]
                innerm = [(a, e) for a, e in m if occurs(i, a)]
                b = ite(g, from_poly({tuple(innerm): Fraction(1)}), const(0))
                h = 1 + body_height(b)
                s = _mk('sum', h, n, subst(b, {i: bv(h)}))
                r = add(r, mul(from_poly({tuple(outer): c}), s))
        return r
    return lift(f, (n, body))


def _split_ite(t, i):
    """Top-most atom of the diagram that does not depend on i."""
    st = [t]
    while st:
        x = st.pop()
        if x.op != 'ite':
            continue
        if not occurs(i, x.args[0]):
            a = x.args[0]
            return (a, cofactor(t, a, True), cofactor(t, a, False)), None
        st.extend(x.args[1:])
    return None, t


def cases(t):
    """(guard, leaf) pairs of the diagram with distinct leaves merged."""
    d = {}
    order = []

    def walk(x, g):
        if x.op == 'ite':
            a = atom_raw(x.args[0])
            walk(x.args[1], AND(g, a))
            walk(x.args[2], AND(g, NOT(a)))
        else:
            if x not in d:
                d[x] = g
                order.append(x)
            else:
                d[x] = OR(d[x], g)
    walk(t, TRUE)
    return [(d[x], x) for x in sorted(order, key=lambda z: z.id)]


def atom_raw(a):
    return _mk('ite', a, TRUE, FALSE)


# The last iteration etc.

def exists(n, i, cond):
    """There is i in range(n) such that cond."""
    if cond is FALSE or n is const(0):
        return FALSE
    if cond.op == 'unknown':
        return cond
    if not occurs(i, cond):
        return AND(lt(const(0), n), cond)
    if n.op == 'num' and n.args[0] <= 4:
        return OR(*[subst(cond, {i: const(k)}) for k in range(int(n.args[0]))])
    inv, _ = _split_ite(cond, i)
    if inv is not None:
        a, x, y = inv
        return ite_atom(a, exists(n, i, x), exists(n, i, y))
    s = _elements(cond, i, set())
    if s is not None and s.op == 'seq' and n is length(s):
        # some element of a list that is known by parts
        e = fresh('e', '?')
        c = subst(cond, {_mk('at', s, i): e})
        if not occurs(i, c):
            return exists_in(s.args[0], lambda v: subst(c, {e: v}))
    h = 1 + body_height(cond)
    return atom(_mk('exists', h, n, subst(cond, {i: bv(h)})))


def _elements(t, i, seen):
    """A sequence of which t reads element i."""
    if i not in t.syms or t in seen:
        return None
    seen.add(t)
    if t.op == 'at' and t.args[1] is i:
        return t.args[0]
    for x in subterms(t):
        r = _elements(x, i, seen)
        if r is not None:
            return r
    return None


def first(n, i, cond):
    """The first i in range(n) such that cond (n if none)."""
    if cond is TRUE:
        return const(0)
    if cond is FALSE:
        return n
    if cond.op == 'unknown':
        return cond
    inv, _ = _split_ite(cond, i)
    if inv is not None:
        a, x, y = inv
        return ite_atom(a, first(n, i, x), first(n, i, y))
    h = 1 + body_height(cond)
    return _mk('first', h, n, subst(cond, {i: bv(h)}))


def last(n, i, cond):
    if cond is TRUE:
        return sub(n, const(1))
    if cond.op == 'unknown':
        return cond
    inv, _ = _split_ite(cond, i)
    if inv is not None:
        a, x, y = inv
        return ite_atom(a, last(n, i, x), last(n, i, y))
    h = 1 + body_height(cond)
    return _mk('last', h, n, subst(cond, {i: bv(h)}))


def any_part(ps):
    r = FALSE
    for p in ps:
        if p[0] == 'item':
            r = OR(r, AND(p[1], truth(p[2])))
        elif p[0] == 'sub':
            i = fresh('i')
            r = OR(r, exists(_mk('len', p[1]), i, truth(at(p[1], i))))
        else:
            i, n, b = open_loop(p)
            r = OR(r, exists(n, i, any_part(b)))
    return r


def exists_in(ps, pred):
    """Some element satisfies pred (a function of a term to a condition)."""
    r = FALSE
    for p in ps:
        if p[0] == 'item':
            r = OR(r, AND(p[1], pred(p[2])))
        elif p[0] == 'sub':
            if p[1].op in ('sorted', 'rev'):
                r = OR(r, exists_in(parts(p[1].args[0]), pred))
                continue
            if p[1].op in ('seq', 'tuple'):
                r = OR(r, exists_in(p[1].args[0], pred))
                continue
            i = fresh('i')
            r = OR(r, exists(_mk('len', p[1]), i, pred(at(p[1], i))))
        else:
            i, n, b = open_loop(p)
            r = OR(r, exists(n, i, exists_in(b, pred)))
    return r


ELEM_TYPE = [lambda s: '?']     # set by the interpreter: element type of an opaque sequence


BASED = [lambda x: None]


def _at_chosen(ps, k):
    """Element k of the values at the chosen places: the value at the k-th chosen place."""
    if len(ps) != 1 or ps[0][0] != 'loop' or len(ps[0][3]) != 1 or ps[0][3][0][0] != 'item':
        return None
    i, n, b = open_loop(ps[0])
    g, v = b[0][1:]
    if g is TRUE or v is i or v.op not in ('call', 'ite', 'at', 'poly') or not occurs(i, g) or _mentions_new(v):
        return None
    return subst(v, {i: _mk('at', _mk('seq', (mk_loop_part(n, i, [('item', g, i)]),)), k)})


def _mentions_new(t):
    return isinstance(t, T) and (t.op in ('new', 'lval') or any(_mentions_new(y) for y in subterms(t)))


def at(s, k):
    """Element k of the sequence s (k >= 0 or a negative constant)."""
    def f(x, j):
        if x.op == 'unknown':
            return x
        if x.op == 'nparray' and x.args[0].op == 'seq' and j.op == 'num':
            r = at(x.args[0], j)
            if typ(r) in ('num', 'int') and r.op != 'at':
                return r
        if x.op == 'str' and j.op == 'num' and len(x.args[0]) == 1 and isinstance(x.args[0][0], str):
            v = x.args[0][0]
            jj = int(j.args[0])
            if -len(v) <= jj < len(v):
                return const(v[jj])
        if x.op in ('seq', 'tuple'):
            r = _at_parts(x.args[0], j)
            if r is not None:
                return r
            r = _at_chosen(x.args[0], j)
            if r is not None:
                return r
        if x.op == 'slice' and x.args[2] is NONE and x.args[1].op == 'num' and x.args[1].args[0] >= 0 \
                and lower_bound(j) is not None and lower_bound(j) >= 0:
            return at(x.args[0], add(x.args[1], j))
        if x.op == 'values' and x.args[0].op not in OWN_MAPS:
            return _mk('mget', x.args[0], _mk('at', _mk('keys', x.args[0]), j))
        if x.op == 'rev':
            return at(x.args[0], sub(sub(length(x.args[0]), const(1)), j))
        if x.op == 'updl':
            r = BASED[0](x)
            if r is not None:
                return add(_mk('at', r[0], j), r[1])
        if x.op == 'at' and x.args[0].op == 'seq' and j.op == 'num' and j.args[0] >= 0:
            # an element of a literal element
            r = _at_each(x.args[0].args[0], j)
            if r is not None:
                return at(seq1(r), x.args[1])
        if j.op == 'num' and j.args[0] < 0 and x.op not in ('str',):
            n = length(x)
            return _mk('at', x, add(n, j))
        return _mk('at', x, j)
    return lift(f, (s, k))


def _at_each(ps, j):
    """Element j of each of the literal elements."""
    out = []
    for p in ps:
        if p[0] == 'item':
            v = p[2]
            if v.op not in ('seq', 'tuple') or any(q[0] != 'item' or q[1] is not TRUE for q in v.args[0]) \
                    or j.args[0] >= len(v.args[0]):
                return None
            out.append(('item', p[1], at(v, j)))
        elif p[0] == 'loop':
            i, n, b = open_loop(p)
            b = _at_each(b, j)
            if b is None:
                return None
            q = mk_loop_part(n, i, b)
            if q is None:
                return None
            out.append(q)
        else:
            return None
    return tuple(out)


def _at_parts(ps, j):
    if j.op == 'num':
        k = int(j.args[0])
        if k >= 0:
            for idx, p in enumerate(ps):
                if p[0] == 'item' and p[1] is TRUE:
                    if k == 0:
                        return p[2]
                    k -= 1
                    continue
                if p[0] == 'loop' and k == 0:
                    return _at_loop0(p, ps[idx + 1:])
                if p[0] == 'sub' and idx == len(ps) - 1:
                    return at(p[1], const(k))
                if p[0] == 'item' and k == 0:
                    rest = _at_parts(ps[idx + 1:], const(0))
                    if rest is None:
                        rest = _mk('at', _mk('seq', ps[idx + 1:]), const(0))
                    return ite(p[1], p[2], rest)
                if p[0] == 'loop' and idx == len(ps) - 1:
                    b = p[3]
                    if len(b) == 1 and b[0][0] == 'item' and b[0][1] is TRUE:
                        return subst(b[0][2], {bv(p[1]): const(k)})
                return None
            return None
        # negative index
        for idx in range(len(ps) - 1, -1, -1):
            p = ps[idx]
            if p[0] == 'item' and p[1] is TRUE:
                if k == -1:
                    return p[2]
                k += 1
                continue
            if p[0] == 'sub' and idx == 0:
                return at(p[1], const(k))
            if p[0] == 'loop' and len(p[3]) == 1 and p[3][0][0] == 'item' and p[3][0][1] is TRUE and idx == 0:
                return subst(p[3][0][2], {bv(p[1]): add(p[2], const(k))})
            return None
        return None
    # symbolic index
    if len(ps) == 1 and ps[0][0] == 'loop':
        p = ps[0]
        if len(p[3]) == 1 and p[3][0][0] == 'item' and p[3][0][1] is TRUE:
            return subst(p[3][0][2], {bv(p[1]): j})
    # leading literal items: j is known to be large enough?
    if ps and ps[0][0] == 'item' and ps[0][1] is TRUE:
        lo = lower_bound(j)
        c = le(const(1), j)
        if c is TRUE:
            return at(_mk('seq', ps[1:]), sub(j, const(1)))
    # trailing items when j < length of the head
    if len(ps) > 1 and ps[-1][0] == 'item':
        head = _mk('seq', norm_parts(ps[:-1]))
        if lt(j, length(head)) is TRUE:
            return at(head if not (len(ps) == 2 and ps[0][0] == 'sub') else ps[0][1], j)
    if len(ps) > 1 and ps[-1][0] in ('loop', 'sub'):
        head = ps[:-1]
        hl = const(0)
        for p in head:
            hl = add(hl, _part_len(p))
        if le(hl, j) is TRUE:
            return at(_mk('seq', norm_parts(ps[-1:])), sub(j, hl))
        if lt(j, hl) is TRUE:
            return at(_mk('seq', norm_parts(head)), j)
    return None


def _at_loop0(p, rest):
    """First element of loop part."""
    i, n, b = open_loop(p)
    if len(b) == 1 and b[0][0] == 'item':
        g, v = b[0][1], b[0][2]
        if g is TRUE:
            if rest:
                return None
            return subst(v, {i: const(0)})
        k = first(n, i, g)
        r = subst(v, {i: k})
        if rest:
            q = _at_parts(rest, const(0))
            if q is None:
                return None
            return ite(exists(n, i, g), r, q)
        return r
    # nested: first outer index with a non-empty inner part
    if not rest:
        inner = _mk('seq', b)
        k = first(n, i, nonempty(b))
        return subst(at(inner, const(0)), {i: k})
    return None


def nonempty(ps):
    return exists_in(ps, lambda v: TRUE)


def concat(*ss):
    def f(*xs):
        ps = []
        for x in xs:
            if x.op == 'unknown':
                return x
            ps.extend(parts(x))
        return seq1(ps)
    return lift(f, ss)


def seq1(ps):
    ps = norm_parts(ps)
    return _mk('seq', ps)


def as_seq(t):
    """Sequence whose only part is an opaque sequence -> that sequence."""
    if t.op == 'seq' and len(t.args[0]) == 1 and t.args[0][0][0] == 'sub':
        return t.args[0][0][1]
    return t


def slice_(s, a, b):
    """s[a:b] (a, b may be NONE)"""
    def f(x, lo, hi):
        if x.op == 'unknown':
            return x
        if lo is NONE:
            lo = const(0)
        if x.op in ('seq', 'tuple') and lo.op == 'num' and (hi is NONE or hi.op == 'num'):
            ps = x.args[0]
            if all(p[0] == 'item' and p[1] is TRUE for p in ps):
                k = slice(int(lo.args[0]), None if hi is NONE else int(hi.args[0]))
                return _mk('seq', tuple(ps[k]))
            if hi is NONE and lo.args[0] >= 0 and all(p[0] == 'item' and p[1] is TRUE for p in ps[:int(lo.args[0])]) \
                    and len(ps) >= lo.args[0]:
                return _mk('seq', tuple(ps[int(lo.args[0]):]))
        if x.op == 'str' and len(x.args[0]) == 1 and isinstance(x.args[0][0], str) and lo.op == 'num' \
                and (hi is NONE or hi.op == 'num'):
            return const(x.args[0][0][slice(int(lo.args[0]), None if hi is NONE else int(hi.args[0]))])
        if lo is const(0) and hi is NONE:
            return x
        # s[lo:len(s)]
        if hi is not NONE and hi is length(x):
            hi = NONE
        if x.op == 'seq' and len(x.args[0]) > 1:
            # at the border of two parts
            n = const(0)
            for q, p in enumerate(x.args[0]):
                n = add(n, _part_len(p))
                if lo.op != 'num' and lo is n and hi is NONE:
                    return as_seq(seq1(x.args[0][q + 1:]))
                if hi is not NONE and hi.op != 'num' and hi is n:
                    return slice_(as_seq(seq1(x.args[0][:q + 1])), lo, NONE)
        # drop len(s) - k -> -k
        if hi is not NONE and hi.op != 'num':
            d = sub(hi, length(x))
            if d.op == 'num' and d.args[0] < 0:
                hi = d
        if lo.op != 'num':
            d = sub(lo, length(x))
            if d.op == 'num' and d.args[0] < 0:
                lo = d
        return _mk('slice', as_seq(x), lo, hi)
    return lift(f, (s, a, b))


TYPED_OPS['slice'] = lambda t: typ(t.args[0]) if typ(t.args[0]) != 'seq' else 'seq'
TYPED_OPS['sorted'] = lambda t: typ(t.args[0])
TYPED_OPS['rev'] = lambda t: typ(t.args[0])


def reverse(s):
    def f(x):
        if x.op == 'rev':
            return x.args[0]
        if x.op == 'seq' and all(p[0] == 'item' and p[1] is TRUE for p in x.args[0]):
            return _mk('seq', tuple(reversed(x.args[0])))
        return _mk('rev', as_seq(x))
    return lift(f, (s,))


def sort(s, key=None, rev=FALSE):
    """key: lam term or None"""
    def f(x, k, r):
        if x.op == 'unknown':
            return x
        x = as_seq(x)
        if x.op == 'sorted' and x.args[1] is k and x.args[2] is r:
            return x
        if x.op == 'seq' and len(x.args[0]) <= 1 and all(p[0] == 'item' for p in x.args[0]):
            return x
        return _mk('sorted', x, k, r)
    return lift(f, (s, NONE if key is None else key, rev))


def lam(i, body):
    h = 1 + body_height(body)
    return _mk('lam', h, subst(body, {i: bv(h)}))


def apply_lam(l, x):
    return subst(l.args[1], {bv(l.args[0]): x})


def aggregate(name, s):
    """Aggregate of a whole sequence: min, max, ..."""
    def f(x):
        if x.op == 'unknown':
            return x
        if x.op in ('sorted', 'rev') and name in ('min', 'max', 'set'):
            return aggregate(name, x.args[0])
        ps = parts(x)
        if all(p[0] == 'item' and p[1] is TRUE for p in ps) and name in ('min', 'max'):
            vs = [p[2] for p in ps]
            if len(vs) == 1:
                return vs[0]
            if vs and all(numeric(v) or typ(v) == '?' for v in vs):
                r = vs[0]
                for v in vs[1:]:
                    r = minimum(r, v) if name == 'min' else maximum(r, v)
                return r
        if name == 'set':
            # order and duplicates do not matter
            st = {}
            for p in ps:
                st[p] = None
            ps2 = tuple(sorted(st, key=lambda p: part_key(p)))
            return _mk('set', ps2)
        return _mk('aggr', name, as_seq(x if x.op != 'tuple' else _mk('seq', x.args[0])))
    return lift(f, (s,))


def part_key(p):
    if p[0] == 'item':
        return (0, p[1].id, p[2].id)
    if p[0] == 'sub':
        return (1, p[1].id, 0)
    return (2, p[1], p[2].id, tuple(part_key(q) for q in p[3]))


def minimum(a, b):
    return ite(le(a, b), a, b)


def maximum(a, b):
    return ite(le(b, a), a, b)


TYPED_OPS['aggr'] = lambda t: 'num' if t.args[0] in ('min', 'max') else '?'


def sum_seq(s, start=None):
    r = const(0) if start is None else start
    for p in parts(s):
        r = add(r, _part_sum(p))
    return r


def _part_sum(p):
    if p[0] == 'item':
        return ite(p[1], p[2], const(0))
    if p[0] == 'sub':
        i = fresh('i')
        return summation(length(p[1]), i, at(p[1], i))
    i, n, b = open_loop(p)
    s = const(0)
    for q in b:
        s = add(s, _part_sum(q))
    return summation(n, i, s)


# --------------------------------------------------------------------------------------------------
# Strings.

def string(ps):
    out = []
    for p in ps:
        if isinstance(p, T):
            if p.op == 'str':
                for q in p.args[0]:
                    _push(out, q)
                continue
            _push(out, p)
        else:
            _push(out, p)
    return _mk('str', tuple(out))


def _push(out, p):
    if isinstance(p, str):
        if p == '':
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def fmt(spec, t):
    """Formatted hole."""
    def f(x):
        if x.op == 'unknown':
            return x
        if spec == '' and (x.op == 'str'):
            return x
        if spec == '' and typ(x) == 'str':
            return _mk('str', (x,))
        if x.op == 'num' and x.args[0].denominator == 1 and spec in ('', 'd'):
            return const(str(int(x.args[0])))
        sp = spec
        if sp == 'd' and typ(x) == 'int':
            sp = ''
        if sp == 's':
            sp = ''
        if sp in ('d', 's', '') and typ(x) == 'str':
            return _mk('str', (x,))
        return _mk('str', (_mk('fmt', sp, x),))
    return lift(f, (t,))


def str_concat(*ss):
    def f(*xs):
        ps = []
        for x in xs:
            if x.op == 'unknown':
                return x
            if x.op == 'str':
                ps.append(x)
            else:
                ps.append(x)
        return string(ps)
    return lift(f, ss)


def join(sep, s):
    def f(sp, x):
        if x.op == 'unknown':
            return x
        ps = parts(x)
        if all(p[0] == 'item' and p[1] is TRUE for p in ps):
            out = []
            for k, p in enumerate(ps):
                if k:
                    out.append(sp)
                out.append(p[2])
            return str_concat(*out) if out else const('')
        return _mk('str', (_mk('join', sp, as_seq(x)),))
    return lift(f, (sep, s))


TYPED_OPS['fmt'] = lambda t: 'str'
TYPED_OPS['join'] = lambda t: 'str'


# --------------------------------------------------------------------------------------------------
# Substitution.

REBUILD = {}


class Rw(dict):
    """Rewriting: terms with an operation from ops are replaced by fn(term) (arguments first)."""

    def __init__(self, ops, fn):
        dict.__init__(self)
        self.ops = ops
        self.fn = fn
        self.has = {}

    def touches(self, t):
        r = self.has.get(t)
        if r is None:
            r = t.op in self.ops or any(self.touches(x) for x in subterms(t))
            self.has[t] = r
        return r

    def __bool__(self):
        return True


def subterms(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


def rewrite(t, ops, fn):
    return _subst(t, Rw(ops, fn), {})


def without(m, k):
    if isinstance(m, Rw):
        return m
    if k in m:
        return {a: b for a, b in m.items() if a is not k}
    return m


def subst(t, m):
    if isinstance(m, Rw):
        return _subst(t, m, {})
    if not m:
        return t
    symkeys = [k for k in m if k.op == 'sym']
    if len(symkeys) == len(m) and not any(k in t.syms for k in symkeys):
        return t
    return _subst(t, m, {})


def _relevant(t, m):
    if isinstance(m, Rw):
        return m.touches(t)
    for k in m:
        if k.op == 'sym':
            if k in t.syms:
                return True
        else:
            return True
    return False


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or not _relevant(t, m):
        memo[t] = t
        return t
    o = t.op
    if o in ('num', 'sym', 'bv', 'const', 'true', 'false', 'none', 'unknown'):
        r = t
    elif o == 'ite':
        c = _subst_atom(t.args[0], m, memo)
        r = ite(c, _subst(t.args[1], m, memo), _subst(t.args[2], m, memo))
    elif o in ATOMS:
        r = _subst_atom(t, m, memo)
        if r.op == 'ite' and r.args[1] is TRUE and r.args[2] is FALSE:
            r = r.args[0]
    elif o == 'poly':
        r = const(0)
        for mm, c in t.args[0]:
            x = const(c)
            for a, e in mm:
                b = _subst(a, m, memo)
                if e > 0:
                    b = power(b, const(e))
                else:
                    b = div(const(1), power(b, const(-e)))
                x = mul(x, b)
            r = add(r, x)
    elif o in ('seq', 'tuple'):
        ps = subst_parts(t.args[0], m)
        r = _mk(o, ps)
    elif o == 'set':
        r = aggregate('set', _mk('seq', subst_parts(t.args[0], m)))
    elif o in BINDERS:
        r = _subst_binder(t, m, memo)
    elif o == 'str':
        r = str_concat(*[_subst(p, m, memo) if isinstance(p, T) else const(p) for p in t.args[0]])
        if r.op == 'str' and len(r.args[0]) == 1 and False:
            pass
    else:
        args = tuple(_subst_arg(a, m, memo) for a in t.args)
        f = REBUILD.get(o)
        if f is not None:
            r = f(*args)
        else:
            r = lift(lambda *a: _mk(o, *a), args)
    if isinstance(m, Rw) and o in m.ops:
        r = lift(m.fn, (r,))
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(b, m, memo) for b in a)
    return a


ATOMS = {'ge', 'gt', 'eq', 'isnone', 'exists', 'truth', 'in', 'less', 'isinst'}


def _subst_atom(a, m, memo):
    """Substituted atom as a condition."""
    r = m.get(a)
    if r is not None:
        return truth(r)
    if not _relevant(a, m):
        return atom(a)
    o = a.op
    if o in ('ge', 'gt'):
        q = sub(_subst(a.args[0], m, memo), const(a.args[1]))
        return lift(lambda x: _cmp0(x, o == 'gt'), (q,))
    if o == 'eq':
        return eq(_subst(a.args[0], m, memo), _subst(a.args[1], m, memo))
    if o == 'isnone':
        return isnone(_subst(a.args[0], m, memo))
    if o == 'truth':
        return truth(_subst(a.args[0], m, memo))
    if o == 'exists':
        h, n, c = a.args
        i = fresh('i', 'int')
        m2 = without(m, bv(h))
        c2 = subst(subst(c, {bv(h): i}), m2)
        return exists(_subst(n, m, memo), i, truth(c2))
    if o not in ATOMS:
        return truth(_subst(a, m, memo))
    args = tuple(_subst_arg(x, m, memo) for x in a.args)
    f = REBUILD.get(o)
    if f is not None:
        return f(*args)
    return lift(lambda *z: atom(_mk(o, *z)), args)


def _subst_binder(t, m, memo):
    o = t.op
    h = t.args[0]
    m2 = without(m, bv(h))
    i = fresh('i', 'int')
    if o in ('sum', 'first', 'last'):
        n = _subst(t.args[1], m, memo)
        b = subst(subst(t.args[2], {bv(h): i}), m2)
        if o == 'sum':
            return summation(n, i, b)
        return lift(lambda nn: (first if o == 'first' else last)(nn, i, b), (n,))
    if o == 'lam':
        b = subst(subst(t.args[1], {bv(h): i}), m2)
        return lam(i, b)
    # generic binder: (h, outer args tuple, inner args tuple)
    outer = tuple(_subst_arg(a, m, memo) for a in t.args[1])
    inner = tuple(_subst_deep(_subst_deep(a, {bv(h): i}), m2) for a in t.args[2])
    return binder(o, i, outer, inner)


def _subst_deep(a, m):
    if isinstance(a, T):
        return subst(a, m)
    if isinstance(a, tuple):
        return tuple(_subst_deep(b, m) for b in a)
    return a


def binder(o, i, outer, inner):
    """Generic binder term over the fresh symbol i."""
    h = 1 + body_height(*inner)
    return _mk(o, h, tuple(outer), tuple(_subst_deep(a, {i: bv(h)}) for a in inner))


REBUILD.update({
    'sqrt': sqrt, 'abs': absolute, 'inv': lambda x: lift(_inv, (x,)), 'pow': power,
    'floordiv_i': floordiv, 'floordiv': floordiv, 'mod_i': mod, 'mod': mod,
    'len': length, 'at': at, 'slice': slice_, 'rev': reverse,
    'sorted': lambda s, k, r: sort(s, None if k is NONE else k, r),
    'aggr': lambda n, s: aggregate(n, s), 'join': lambda sp, s: join(sp, s),
    'fmt': lambda sp, x: fmt(sp, x),
})


# --------------------------------------------------------------------------------------------------
# Printing.

def show(t, depth=0, lim=400):
    s = _show(t, 0)
    return s if len(s) <= lim else s[:lim] + '...'


def _show(t, d):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(_show(x, d + 1) for x in t) + ')'
        return repr(t)
    if d > 40:
        return '...'
    o, a = t.op, t.args
    if o == 'num':
        return str(a[0])
    if o == 'sym':
        return a[0]
    if o == 'bv':
        return '$%d' % a[0]
    if o == 'const':
        return a[1] if isinstance(a[1], str) else repr(a[1])
    if o in ('true', 'false', 'none'):
        return o.capitalize()
    if o == 'poly':
        out = []
        for m, c in a[0]:
            f = [_show(x, d + 1) + ('' if e == 1 else '^%d' % e) for x, e in m]
            if c == -1 and f:
                out.append('-' + '*'.join(f))
            elif c != 1 or not f:
                out.append('*'.join([str(c)] + f))
            else:
                out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return _show(a[0], d + 1)
        if a[1] is FALSE and a[2] is TRUE:
            return 'not(' + _show(a[0], d + 1) + ')'
        return 'if(%s, %s, %s)' % tuple(_show(x, d + 1) for x in a)
    if o == 'ge':
        return '[%s >= %s]' % (_show(a[0], d + 1), a[1])
    if o == 'gt':
        return '[%s > %s]' % (_show(a[0], d + 1), a[1])
    if o == 'eq':
        return '[%s == %s]' % (_show(a[0], d + 1), _show(a[1], d + 1))
    if o in ('seq', 'tuple'):
        return '[' + ', '.join(_show_part(p, d + 1) for p in a[0]) + ']'
    if o == 'set':
        return '{' + ', '.join(_show_part(p, d + 1) for p in a[0]) + '}'
    if o == 'str':
        return 'S"' + ''.join(p.replace('\n', '\\n') if isinstance(p, str) else '{' + _show(p, d + 1) + '}' for p in a[0]) + '"'
    if o == 'fmt':
        return _show(a[1], d + 1) + (':' + a[0] if a[0] else '')
    if o == 'at':
        return '%s[%s]' % (_show(a[0], d + 1), _show(a[1], d + 1))
    if o == 'fld':
        return '%s.%s' % (_show(a[1], d + 1), a[0])
    if o == 'cont':
        return _show(a[0], d + 1)
    if o == 'sum':
        return 'SUM($%d < %s: %s)' % (a[0], _show(a[1], d + 1), _show(a[2], d + 1))
    if o in ('exists', 'first', 'last'):
        return '%s($%d < %s: %s)' % (o, a[0], _show(a[1], d + 1), _show(a[2], d + 1))
    return '%s(%s)' % (o, ', '.join(_show(x, d + 1) for x in a))


def _show_part(p, d):
    if p[0] == 'item':
        if p[1] is TRUE:
            return _show(p[2], d)
        return '%s if %s' % (_show(p[2], d), _show(p[1], d))
    if p[0] == 'sub':
        return '*' + _show(p[1], d)
    return 'for $%d < %s: [%s]' % (p[1], _show(p[2], d), ', '.join(_show_part(q, d) for q in p[3]))


def cofactor_sym(t, phi, val):
    """Restrict the diagram by the boolean symbol phi; None when phi also occurs elsewhere."""
    if t is phi:
        return TRUE if val else FALSE
    r = cofactor(t, phi, val)
    for a in ('truth',):
        r = cofactor(r, _mk(a, phi), val)
    if phi in r.syms:
        return None
    return r


def FACT(c, t):
    """The condition t simplified where c holds (and cut to it)."""
    return _restrict(t, c) if t.op == 'ite' else t
