"""
Abstract heap: for every field an ordered list of update layers.

  hset(guard, key, value)     the field of the object `key` becomes value
  happ(guard, key, seq)       the sequence held by `key` is extended
  hloop(h, (n,), (layers,))   the layers of all iterations 0 .. n - 1, in order
  mark(loop, field)           the updates of the previous iterations of a loop under analysis

The heap is never concretised; a read walks the layers and yields a guarded value.
"""

from . import terms as tm
from .terms import T, raw, ite, AND, OR, NOT, TRUE, FALSE, NONE, const, lift, typ, subst
from . import decl as ty


def elem_type(t):
    if isinstance(t, tuple):
        if t[0] in ('list', 'seq', 'set'):
            return t[1] if len(t) > 1 else '?'
        if t[0] == 'flist':
            return t[2]
        if t[0] == 'opt':
            return elem_type(t[1])
        if t[0] == 'tuple':
            s = set(t[1:])
            if len(s) == 1:
                return t[1]
    if t == 'str':
        return 'str'
    return '?'


tm.ELEM_TYPE[0] = elem_type


def _typ_at(t):
    s = typ(t.args[0])
    if s == 'nd':
        k = t.args[1]
        return 'nd' if typ(k) == 'nd' or k.op == 'tuple' and any(p[0] == 'item' and (p[2].op == 'sl' or typ(p[2]) == 'nd') for p in k.args[0]) else '?'
    if isinstance(s, tuple) and s[0] == 'tuple' and t.args[1].op == 'num':
        k = int(t.args[1].args[0])
        if -len(s) < k < len(s) - 1:
            return s[1:][k]
    if isinstance(s, tuple) and s[0] in ('seq',) and len(s) > 1 and s[1] == 'nd':
        return 'nd'
    r = elem_type(s)
    if r == '?' and t.args[0].op == 'seq':
        r = content_elem(t.args[0]) or '?'
    return r


def seq_type(t):
    if isinstance(t, tuple):
        if t[0] in ('list', 'set'):
            return ('seq', t[1] if len(t) > 1 else '?')
        if t[0] == 'flist':
            return ('seq', t[2])
        if t[0] == 'opt':
            return seq_type(t[1])
        if t[0] == 'dict':
            return ('map',) + t[1:]
    return t if t == 'str' else ('seq', '?')


def _typ_new(t):
    c = t.args[0]
    return (c, '?') if c in ('list', 'set') else ('dict', '?', '?') if c == 'dict' else ('obj', c)


def _typ_seq(t):
    return 'seq'


tm.TYPED_OPS.update({
    'at': _typ_at, 'fld': lambda t: t.args[2], 'carry': lambda t: t.args[3], 'new': _typ_new,
    'cont': lambda t: seq_type(typ(t.args[0])), 'hread': lambda t: typ(t.args[3]), 'call': lambda t: t.args[2],
    'groups': lambda t: t.args[1], 'foldv': lambda t: t.args[2], 'mget': lambda t: map_val_type(t.args[0]), 'lval': lambda t: ('list', '?'),
    'smeth': lambda t: SM_TYPES.get(t.args[0], '?'), 'live': lambda t: typ(t.args[0]),
    'keys': lambda t: ('seq', map_key_type(t.args[0])), 'values': lambda t: ('seq', map_val_type(t.args[0])),
})

SM_TYPES = {'split': ('seq', 'str'), 'strip': 'str', 'replace': 'str', 'lower': 'str', 'upper': 'str',
            'rstrip': 'str', 'lstrip': 'str', 'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool',
            'find': 'int', 'count': 'int', 'zfill': 'str', 'splitlines': ('seq', 'str'), 'title': 'str',
            'index': 'int', 'rfind': 'int', 'partition': ('seq', 'str'), 'readline': 'str', 'encode': '?',
            'isspace': 'bool', 'rsplit': ('seq', 'str')}


def map_val_type(m):
    t = typ(m)
    return t[2] if isinstance(t, tuple) and t[0] in ('map', 'dict') and len(t) > 2 else '?'


def map_key_type(m):
    t = typ(m)
    return t[1] if isinstance(t, tuple) and t[0] in ('map', 'dict') and len(t) > 2 else '?'


tm.NEVER_NONE |= {'new', 'lval', 'hloop', 'py', 'bound', 'map', 'live', 'keys', 'values', 'listof'}


# --------------------------------------------------------------------------------------------------
# References.

def cls_of(t):
    ty_ = typ(t)
    if isinstance(ty_, tuple) and ty_[0] == 'opt':
        ty_ = ty_[1]
    if isinstance(ty_, tuple) and ty_[0] == 'obj':
        return ty_[1]
    return None


OLD = {'sym', 'fld', 'at', 'bv'}


def is_old(t):
    """The object existed before the analysed function was entered."""
    if t.op == 'sym':
        return not t.args[0].startswith('phi#')
    if t.op == 'fld':
        return is_old(t.args[1])
    if t.op == 'at':
        s = t.args[0]
        if s.op == 'sym' and isinstance(typ(s), tuple) and typ(s)[0] == 'tuple':
            return is_old(s)
        return is_old(s) if s.op in ('cont', 'at', 'sorted', 'slice', 'rev', 'lremove') else False
    if t.op == 'cont':
        return is_old(t.args[0])
    if t.op in ('sorted', 'slice', 'rev', 'live', 'lremove'):
        return is_old(t.args[0])
    return False


def distinct_seq(s):
    """The sequence has no two equal elements."""
    if s.op in ('cont', 'carry'):
        l = s.args[0] if s.op == 'cont' else s.args[2]
        f = row_of(l)
        if f is not None and f.args[0] in ty.DISJOINT:
            return True
        if s.op == 'carry':
            return s in DISTINCT_LISTS
        if l.op == 'fld':
            c = cls_of(l.args[1])
            return (c, l.args[0]) in ty.DISTINCT
        return l in DISTINCT_LISTS
    if s.op in ('sorted', 'rev', 'slice', 'live', 'lremove'):
        return distinct_seq(s.args[0])
    return s in DISTINCT_LISTS or s.op == 'values' and s.args[0].op == 'groups'


DISTINCT_LISTS = set()


def root(t):
    while t.op in ('fld', 'at', 'cont', 'mget'):
        t = t.args[1] if t.op == 'fld' else t.args[0]
    return t


def filled(t):
    """The new object whose content, read by a function that is not followed, the object belongs to."""
    r = root(t)
    if r.op == 'call' and r.args[0].endswith(' fills') and r.args[1].op == 'tuple' and t is not r:
        x = r.args[1].args[0][0][2]
        return x if x.op == 'new' else None
    return None


# Allocation sites whose objects are not stored in the heap: a value read from the heap is not such
# an object.  A site is assumed to be private until a store is seen; the analysis is then repeated.
SITE = {}
STORED = set()
ASSUMED = set()
RUNNING = [False]


class Restart(Exception):
    pass


def private(n, t):
    site = SITE.get(n.args[1])
    if site is None or site in STORED or not RUNNING[0]:
        return False
    if t.op not in ('fld', 'at', 'mget', 'carry', 'hread'):
        return False
    r = t
    while True:
        if r.op == 'fld':
            r = r.args[1]
        elif r.op in ('at', 'cont', 'mget', 'sorted', 'rev', 'slice', 'live', 'values'):
            r = r.args[0]
        else:
            break
    if t.op == 'fld':
        if r.op == 'new':
            return False
    elif r.op == 'sym':
        if r.args[0].startswith('phi#') and ':$c@' not in r.args[0]:
            return False
    elif r.op == 'hread':
        if occurs(n, r):
            return False
    elif r.op != 'carry':
        return False
    ASSUMED.add(site)
    return True


def stored(v):
    """The value v is stored in the heap."""
    if not RUNNING[0] or typ(v) in ('str', 'int', 'num', 'bool'):
        return
    for k in _new_ids(v):
        site = SITE.get(k)
        if site is not None and site not in STORED:
            STORED.add(site)
            if site in ASSUMED:
                raise Restart()


# Containers which are stored in one field of one created object only (their owner).
OWNER = {}
OWNER_USED = set()
LEAK = set()
LEAK_USED = set()
KINDS = ('list', 'set', 'dict')


def _is_container(t):
    k = typ(t)
    if isinstance(k, tuple) and k[0] == 'opt':
        k = k[1]
    return k == '?' or isinstance(k, tuple) and k[0] in ('list', 'flist', 'dict', 'set', 'seq', 'map')


def _own(site, place):
    old = OWNER.get(site)
    if old is None:
        OWNER[site] = place
    elif old == place or old == 'many':
        return
    else:
        OWNER[site] = 'many'
    if site in OWNER_USED and RUNNING[0]:
        raise Restart()


WRITES = {}
WRITES_USED = set()


def forget():
    for x in (STORED, ASSUMED, OWNER, OWNER_USED, LEAK, LEAK_USED, WRITES, WRITES_USED):
        x.clear()


def owned(f, o, v):
    """The value v is stored in the field f of the object o."""
    if f[0] != '$':
        k = (f, cls_of(o))
        w = WRITES.setdefault(k, set())
        for x in _alts(v):
            site = SITE.get(x.args[1], '?') if x.op == 'new' and o.op == 'new' and o.args[2] == x.args[2] else '?'
            if site not in w:
                w.add(site)
                if k in WRITES_USED and RUNNING[0]:
                    raise Restart()
    for x in _alts(v):
        if x.op == 'new' and x.args[0] in KINDS:
            site = SITE.get(x.args[1])
            if site is not None:
                if f != '$c' and o.op == 'new' and o.args[2] == x.args[2]:
                    _own(site, (f, cls_of(o)))
                else:
                    _own(site, 'many')
        elif x.op in ('fld', 'carry', 'hread'):
            if x.op == 'fld' and x.args[1].op == 'call' and x.args[0] == f and cls_of(x.args[1]) == cls_of(o):
                # the unknown state of an object after a function that is not followed
                continue
            if _is_container(x):
                _leak(read_of(x)[0])
        elif x in PTS:
            if _is_container(x):
                for site in PTS[x][0]:
                    _own(site, 'many')
                if PTS[x][1]:
                    _leak('*')
        elif x.op in ('foldv', 'live'):
            if _is_container(x):
                _leak('*')
        if x.op != 'new':
            for k in _new_ids(x):
                site = SITE.get(k)
                if site is not None and f == '$c':
                    _own(site, 'many')


def _leak(f):
    if f not in LEAK:
        LEAK.add(f)
        if LEAK_USED and RUNNING[0]:
            if f == '*' or f in LEAK_USED:
                raise Restart()


def read_of(t):
    if t.op == 'fld':
        return t.args[0], t.args[1]
    if t.op == 'carry':
        return t.args[1], t.args[2]
    if t.op == 'hread':
        return t.args[0], t.args[1]
    return None, None


def not_owned(n, t):
    """The container n is not the one in the field which t reads."""
    if n.args[0] not in KINDS or not RUNNING[0] or t.op not in ('fld', 'carry', 'hread'):
        return False
    f, o = read_of(t)
    if f[0] == '$' or '*' in LEAK or not _is_container(t):
        return False
    site = SITE.get(n.args[1])
    w = OWNER.get(site)
    if site is None or w is None or w == 'many' or w[0] in LEAK:
        return False
    if w[0] == f:
        if cls_of(o) is None or cls_of(o) == w[1]:
            return False
    OWNER_USED.add(site)
    LEAK_USED.add(w[0])
    return True


def owner_eq(n, t):
    """Equality of the container n with the container that t reads from a created object of the owner's class."""
    if n.args[0] not in KINDS or not RUNNING[0] or t.op not in ('fld', 'carry', 'hread'):
        return None
    f, o = read_of(t)
    if f[0] == '$' or o.op != 'new' or '*' in LEAK or f in LEAK:
        return None
    site = SITE.get(n.args[1])
    k = (f, cls_of(o))
    if site is None or OWNER.get(site) != k or WRITES.get(k) != {site} or len(n.args[2]) != len(o.args[2]):
        return None
    OWNER_USED.add(site)
    LEAK_USED.add(f)
    WRITES_USED.add(k)
    return AND(*[tm.eq(x, y) for x, y in zip(n.args[2], o.args[2])])


_nids = {}


NOREF = {'fld', 'carry', 'hread', 'cont', 'eq', 'str', 'fmt', 'len', 'poly', 'keys', 'isnone', 'ge', 'gt', 'sym', 'event'}


def _new_ids(t):
    """Objects that the value may refer to."""
    r = _nids.get(t)
    if r is None:
        if t.op == 'new':
            r = {t.args[1]}
        elif t.op in NOREF or typ(t) in ('str', 'int', 'num', 'bool'):
            r = ()
        elif t.op == 'ite':
            r = _new_ids(t.args[1]) | _new_ids(t.args[2])
        elif t.op in ('seq', 'tuple'):
            r = _parts_ids(t.args[0])
        else:
            r = set()
            for x in tm.subterms(t):
                r |= _new_ids(x)
        r = _nids[t] = frozenset(r)
    return r


def _parts_ids(ps):
    r = set()
    for p in ps:
        if p[0] == 'item':
            r |= _new_ids(p[2])
        elif p[0] == 'sub':
            r |= _new_ids(p[1])
        else:
            r |= _parts_ids(p[3])
    return r


# Types of the elements of created lists, by allocation site.
ELEM = {}
ELEM_USED = set()


def join_type(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if '?' in (a, b):
        return '?'
    if a == 'none' or b == 'none':
        x = b if a == 'none' else a
        return x if isinstance(x, tuple) and x[0] == 'opt' else ('opt', x)
    if {a, b} <= {'int', 'num', 'bool'}:
        return 'num' if 'num' in (a, b) else 'int'
    if isinstance(a, tuple) and a[0] == 'opt' or isinstance(b, tuple) and b[0] == 'opt':
        x = a[1] if isinstance(a, tuple) and a[0] == 'opt' else a
        y = b[1] if isinstance(b, tuple) and b[0] == 'opt' else b
        z = join_type(x, y)
        return '?' if z == '?' else ('opt', z)
    return '?'


def content_elem(s):
    if s.op == 'ite':
        return join_type(content_elem(s.args[1]), content_elem(s.args[2]))
    if s.op in ('seq', 'tuple'):
        t = None
        for p in _flat_parts(s.args[0]):
            if p[0] == 'item':
                t = join_type(t, typ(p[2]))
            else:
                t = join_type(t, content_elem(p[1]))
        return t
    t = typ(s)
    if isinstance(t, tuple) and t[0] in ('seq', 'list', 'set'):
        return t[1]
    return '?'


def has_tuples(s):
    return s.op == 'seq' and any(p[0] == 'item' and p[2].op == 'tuple' for p in _flat_parts(s.args[0]))


def _flat_parts(ps):
    for p in ps:
        if p[0] == 'loop':
            yield from _flat_parts(p[3])
        else:
            yield p


def note_elems(o, s):
    for x in _alts(o):
        if x.op != 'new' or x.args[0] not in ('list', 'set'):
            continue
        site = SITE.get(x.args[1])
        if site is None:
            continue
        t = content_elem(s)
        if t is None:
            continue
        u = join_type(ELEM.get(site), t)
        if u != ELEM.get(site):
            ELEM[site] = u
            if site in ELEM_USED and RUNNING[0]:
                raise Restart()


def _alts(t):
    if t.op == 'ite':
        return _alts(t.args[1]) + _alts(t.args[2])
    return [t]


def list_type(o):
    if o.op == 'new':
        site = SITE.get(o.args[1])
        if site is not None and ELEM.get(site) is not None:
            ELEM_USED.add(site)
            return ('seq', ELEM[site])
    return ('seq', '?')


# Loop variable -> (objects it may be, may it be anything else).
PTS = {}


def refs(t):
    if t.op == 'new':
        return frozenset((SITE.get(t.args[1], t.args[1]),)), False
    if t.op == 'ite':
        a, x = refs(t.args[1])
        b, y = refs(t.args[2])
        return a | b, x or y
    if t in PTS:
        return PTS[t]
    if tm.is_value(t) or typ(t) in ('str', 'int', 'num', 'bool'):
        return frozenset(), False
    return frozenset(), True


def phi_is_not(p, t):
    """The loop variable p is not the object t."""
    pt = PTS.get(p)
    if pt is None:
        return False
    if t.op == 'new':
        if SITE.get(t.args[1], t.args[1]) in pt[0]:
            i = LOOP_INDEX.get(int(p.args[0][4:].split(':')[0]))
            return i is not None and i in t.args[2]
        if not pt[1]:
            return True
        site = SITE.get(t.args[1])
        if site is None or site in STORED or not RUNNING[0]:
            return False
        ASSUMED.add(site)
        return True
    return not pt[1] and is_old(t)


LOOP_INDEX = {}


def at_start(n, t):
    """t was read at the start of the iteration in which the object n is created."""
    r = root(t)
    while r.op == 'carry':
        i = LOOP_INDEX.get(r.args[0])
        if i is None:
            return False
        if i in n.args[2]:
            return True
        r = root(r.args[2])
    return False


def compatible(x, y):
    """An object may have both types."""
    for t in (x, y):
        if isinstance(t, tuple) and t[0] == 'opt':
            return compatible(x[1] if t is x else x, y[1] if t is y else y)
    if x == y or '?' in (x, y) or x is None or y is None:
        return True
    if {x, y} <= {'num', 'int', 'bool'} if isinstance(x, str) and isinstance(y, str) else False:
        return True
    kx, ky = (t[0] if isinstance(t, tuple) else t for t in (x, y))
    seqs = {'list', 'flist', 'seq'}
    if kx in seqs and ky in seqs:
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            return True
        return compatible(x[-1], y[-1])
    if kx != ky:
        return False
    if kx == 'obj':
        return True
    if kx in ('set', 'dict'):
        return all(compatible(p, q) for p, q in zip(x[1:], y[1:]))
    return True


_occ = {}


def occurs(n, t):
    """The created object occurs in the term (of whatever iteration)."""
    k = (n.args[1], t)
    r = _occ.get(k)
    if r is None:
        r = (t.op == 'new' and t.args[1] == n.args[1]) or any(occurs(n, x) for x in tm.subterms(t))
        _occ[k] = r
    return r


def row_of(a):
    """The container of rows from which a row is taken."""
    if a.op == 'at' and a.args[0].op in ('cont', 'carry'):
        f = a.args[0].args[0] if a.args[0].op == 'cont' else a.args[0].args[2]
        if f.op == 'fld' and f.args[0] in ty.ROWS:
            return f
    return None


def group_list(t):
    return t.op == 'mget' and t.args[0].op == 'groups' \
        or t.op == 'at' and t.args[0].op == 'values' and t.args[0].args[0].op == 'groups'


def in_groups(t):
    while t.op in ('at', 'cont', 'mget', 'sorted', 'rev', 'slice', 'live', 'values'):
        t = t.args[0]
    return t.op == 'groups'


def refeq(a, b):
    return lift(_refeq, (a, b))


def _refeq(a, b):
    if a is b:
        return TRUE
    if a.op == 'unknown':
        return a
    if b.op == 'unknown':
        return b
    if a is NONE or b is NONE:
        return tm.isnone(b if a is NONE else a)
    if a.op == 'new' and b.op == 'new':
        if a.args[1] != b.args[1]:
            return FALSE
        return AND(*[tm.eq(x, y) for x, y in zip(a.args[2], b.args[2])])
    if (a.op == 'new' and is_old(b)) or (b.op == 'new' and is_old(a)):
        return FALSE
    if a.op == 'py' and b.op == 'py':
        return FALSE
    for x, y in ((a, b), (b, a)):
        # the lists of a grouping are objects of their own
        if group_list(x) and (y.op == 'new' or is_old(y)) and not occurs(y, x):
            return FALSE
        if y.op == 'new' and x.op in ('at', 'mget') and in_groups(x) and not occurs(y, x):
            return FALSE
    if (a in PTS and phi_is_not(a, b)) or (b in PTS and phi_is_not(b, a)):
        return FALSE
    if (a.op == 'new' and private(a, b)) or (b.op == 'new' and private(b, a)):
        return FALSE
    if (a.op == 'new' and b.op == 'fld' and root(b).op == 'new') or (b.op == 'new' and a.op == 'fld' and root(a).op == 'new'):
        # a field that was never set
        return FALSE
    if (a.op == 'new' and at_start(a, b)) or (b.op == 'new' and at_start(b, a)):
        return FALSE
    if (a.op == 'new' and root(b).op == 'call' and not occurs(a, b)) \
            or (b.op == 'new' and root(a).op == 'call' and not occurs(b, a)):
        # results of functions that are not followed are not objects which the function does not get
        return FALSE
    fa, fb = filled(a), filled(b)
    if fa is not None and fb is not None and fa is not fb and _refeq(fa, fb) is FALSE \
            or fa is not None and is_old(b) or fb is not None and is_old(a):
        # what was read from a file into different new objects
        return FALSE
    if (a.op == 'new' and not_owned(a, b)) or (b.op == 'new' and not_owned(b, a)):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'new':
            r = owner_eq(x, y)
            if r is not None:
                return r
    ca, cb = cls_of(a), cls_of(b)
    if ca is not None and cb is not None and ca != cb:
        return FALSE
    if a.op == 'fld' and b.op == 'fld' and isinstance(typ(a), tuple) and typ(a)[0] in ('list', 'flist', 'dict', 'set'):
        # containers are owned by their objects
        if a.args[0] != b.args[0]:
            return FALSE
        return refeq(a.args[1], b.args[1])
    if a.op == 'fld' and b.op == 'fld' and a.args[0] == b.args[0] and (cls_of(a.args[1]), a.args[0]) in ty.OWNED \
            and cls_of(a.args[1]) == cls_of(b.args[1]):
        return refeq(a.args[1], b.args[1])
    if a.op == 'at' and b.op == 'at':
        sa, sb = a.args[0], b.args[0]
        if sa is sb and distinct_seq(sa):
            return tm.eq(a.args[1], b.args[1])
        fa, fb = row_of(a), row_of(b)
        if fa is not None and fb is not None and fa.args[0] == fb.args[0]:
            # rows of a matrix
            return AND(refeq(fa, fb), tm.eq(a.args[1], b.args[1]))
        if sa.op == 'cont' and sb.op == 'cont':
            fa, fb = row_of(sa.args[0]), row_of(sb.args[0])
            if fa is not None and fb is not None and fa.args[0] == fb.args[0] and fa.args[0] in ty.DISJOINT:
                return AND(refeq(sa.args[0], sb.args[0]), tm.eq(a.args[1], b.args[1]))
    ta, tb = typ(a), typ(b)
    if isinstance(ta, tuple) and isinstance(tb, tuple) and {ta[0], tb[0]} & {'list', 'flist', 'dict', 'set'} and ta[0] != tb[0] \
            and 'opt' not in (ta[0], tb[0]):
        if {ta[0], tb[0]} != {'list', 'flist'}:
            return FALSE
    if not compatible(ta, tb):
        return FALSE
    if a.op == 'new' or b.op == 'new':
        n, o = (a, b) if a.op == 'new' else (b, a)
        if o.op == 'const' or tm.is_value(o):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return tm.atom(raw('eq', a, b))


tm.REFEQ[0] = _refeq


# --------------------------------------------------------------------------------------------------
# Layers.

tm.BINDERS.add('hloop')


def hset(g, k, v):
    return raw('hset', g, k, v)


def happ(g, k, v):
    return raw('happ', g, k, v)


def hloop(n, i, subs):
    subs = merge_sets(tuple(subs))
    if not subs or n is const(0):
        return ()
    if n is const(1):
        return subst_layers(tuple(subs), {i: const(0)})
    return (tm.binder('hloop', i, (n,), tuple(subs)),)


def merge_sets(ls):
    """Consecutive stores to the same object are one store."""
    out = []
    for l in ls:
        if out and l.op == 'hset' and out[-1].op == 'hset' and out[-1].args[1] is l.args[1]:
            p = out.pop()
            g, h = p.args[0], l.args[0]
            out.append(hset(OR(g, h), l.args[1], ite(h, l.args[2], tm.simplify_under(AND(g, NOT(h)), p.args[2]))))
        else:
            out.append(l)
    return tuple(out)


def open_hloop(l, name='i'):
    h, outer, inner = l.args
    i = tm.fresh(name, 'int')
    return i, outer[0], subst_layers(inner, {tm.bv(h): i})


def subst_layers(ls, m):
    out = []
    for l in ls:
        out.extend(norm_layer(subst(l, m)))
    return tuple(out)


def norm_layer(l):
    if l.op in ('hset', 'happ'):
        if l.args[0] is FALSE:
            return ()
        return (l,)
    if l.op == 'hloop':
        inner = []
        for x in l.args[2]:
            inner.extend(norm_layer(x))
        if not inner or l.args[1][0] is const(0):
            return ()
        if tuple(inner) != l.args[2] or l.args[1][0] is const(1):
            i = tm.fresh('i', 'int')
            return hloop(l.args[1][0], i, subst_layers(tuple(inner), {tm.bv(l.args[0]): i}))
        return (l,)
    return (l,)


# `ite` over layers never happens: the constructors are not lifted
def _re_hset(g, k, v):
    return raw('hset', tm.truth(g) if g.op not in ('ite', 'true', 'false') else g, k, v)


tm.REBUILD['hset'] = _re_hset
tm.REBUILD['happ'] = lambda g, k, v: raw('happ', tm.truth(g) if g.op not in ('ite', 'true', 'false') else g, k, v)
tm.REBUILD['fld'] = lambda f, o, t: lift(lambda x: raw('fld', f, x, t), (o,))
tm.REBUILD['hread'] = lambda f, o, l, r: lift(lambda x: raw('hread', f, x, l, r), (o,))
tm.REBUILD['cont'] = lambda o: lift(lambda x: content_of_value(x), (o,))
tm.REBUILD['carry'] = lambda i, f, o, t: lift(lambda x: x if f == '$c' and x.op in ('seq', 'tuple') else raw('carry', i, f, x, t), (o,))
tm.REBUILD['mark'] = lambda a, b: raw('mark', a, b)


def content_of_value(x):
    if x.op == 'lval':
        return x.args[0]
    if x.op in ('seq', 'tuple', 'str'):
        return x
    return raw('cont', x)


def guard_layers(g, ls):
    if g is TRUE:
        return ls
    if g is FALSE:
        return ()
    out = []
    for l in ls:
        if l.op in ('hset', 'happ'):
            c = AND(g, l.args[0])
            if c is not FALSE:
                out.append(raw(l.op, c, l.args[1], l.args[2]))
        elif l.op == 'hloop':
            i, n, subs = open_hloop(l)
            out.extend(hloop(n, i, guard_layers(g, subs)))
        else:
            out.append(l)
    return tuple(out)


def merge_heaps(g, h1, h2):
    """g ? h1 : h2"""
    if h1 is h2 or g is TRUE:
        return h1
    if g is FALSE:
        return h2
    out = {}
    ng = NOT(g)
    for f in set(h1) | set(h2):
        a, b = h1.get(f, ()), h2.get(f, ())
        if a is b or a == b:
            out[f] = a
            continue
        p = 0
        while p < len(a) and p < len(b) and a[p] is b[p]:
            p += 1
        sa, sb = a[p:], b[p:]
        if len(sa) == 1 and len(sb) == 1 and sa[0].op == sb[0].op == 'hset' and sa[0].args[0] is TRUE and sb[0].args[0] is TRUE \
                and sa[0].args[1] is sb[0].args[1]:
            out[f] = a[:p] + (hset(TRUE, sa[0].args[1], ite(g, sa[0].args[2], sb[0].args[2])),)
            continue
        if f == '$c':
            # the content of containers that are created in one of the branches
            old = {l.args[1].args[1] for l in a[:p] if l.op == 'hset' and l.args[1].op == 'new'}
            both = {l.args[1] for l in sa if l.op == 'hset'} & {l.args[1] for l in sb if l.op == 'hset'}
            sa, ra = created(sa, old, both)
            sb, rb = created(sb, old, both)
            out[f] = a[:p] + merge_created(g, sa, ra) + merge_created(ng, sb, rb)
            continue
        out[f] = a[:p] + guard_layers(g, sa) + guard_layers(ng, sb)
    return out


def created(ls, old, both):
    new = set()
    for n, l in enumerate(ls):
        if l.op == 'hset' and l.args[0] is TRUE and l.args[1].op == 'new' and l.args[1].args[0] in ('list', 'dict', 'set') \
                and l.args[1].args[1] not in old and l.args[1] not in both and l.args[1].args[1] not in [ls[k].args[1].args[1] for k in new]:
            new.add(n)
    return ls, new


def merge_created(g, ls, new):
    out = []
    for n, l in enumerate(ls):
        out.extend((l,) if n in new else guard_layers(g, (l,)))
    return tuple(out)


class Opaque(Exception):
    pass


def apply_layers(f, o, layers, r):
    """Value of the field f of the object o after the layers, r - value before."""
    start = 0
    for k in range(len(layers) - 1, -1, -1):
        l = layers[k]
        if l.op == 'hset' and l.args[0] is TRUE and refeq(l.args[1], o) is TRUE:
            r = l.args[2]
            start = k + 1
            break
    for l in layers[start:]:
        r = apply_layer(f, o, l, r)
    return r


# Loop -> the containers it writes (None while it is not known) and the containers read in it that it does not write.
CARRIED = {}


def apply_layer(f, o, l, r):
    if l.op == 'hset':
        c = AND(l.args[0], refeq(l.args[1], o))
        return ite(c, l.args[2], r)
    if l.op == 'happ':
        c = AND(l.args[0], refeq(l.args[1], o))
        if c is FALSE:
            return r
        return append_content(r, c, l.args[2])
    if l.op == 'mark':
        t = typ(r)
        if f == '$c' and o.op == 'new' and l.args[0] in CARRIED:
            keys, seen = CARRIED[l.args[0]]
            if keys and all(refeq(k, o) is FALSE for k in keys):
                seen.append(o)
                return r
            if keys is None and (t == 'seq' or t == ('seq', '?')) and has_tuples(r):
                seen.append(o)
        if f == '$c' and (t == 'seq' or t == ('seq', '?')):
            t = list_type(o)
        return raw('carry', l.args[0], f, o, t)
    if l.op == 'hloop':
        return apply_loop(f, o, l, r)
    raise Opaque(l.op)


def append_content(r, c, s):
    """Sequence r extended with s when c."""
    if c is TRUE:
        return tm.concat(r, s)
    if c is FALSE:
        return r
    # keep one sequence: guarded items
    if s.op in ('seq', 'tuple') and all(p[0] == 'item' for p in s.args[0]) and r.op != 'ite':
        ps = tuple(('item', AND(c, p[1]), p[2]) for p in s.args[0])
        return tm.concat(r, tm.seq(ps))
    return ite(c, tm.concat(r, s), r)


def leaves(subs, binders=()):
    """(leaf layer, nested binders ((j, n), ...)) of the opened subs."""
    for l in subs:
        if l.op == 'hloop':
            j, n, ss = open_hloop(l, 'j')
            yield from leaves(ss, binders + ((j, n),))
        else:
            yield l, binders


def solve(key, o, i, bad):
    """Value of i for which the key equals o, or None.  bad - symbols that may not occur in it."""
    r = _unify(key, o, i)
    if r is None:
        return None
    if any(tm.occurs(b, r) for b in bad):
        return None
    return r


def _lin(a, b, i):
    """Solve a(i) == b for i with coefficient +-1."""
    d = tm.sub(a, b)
    if d.op == 'ite':
        return None
    p = tm.poly_dict(d)
    c = p.get(((i, 1),))
    if c not in (1, -1):
        return None
    rest = dict(p)
    del rest[((i, 1),)]
    rr = tm.from_poly(rest)
    if tm.occurs(i, rr):
        return None
    return tm.mul(const(-c), rr)


def _unify(key, o, i):
    if key.op == 'at' and o.op == 'at':
        if key.args[0] is o.args[0] and distinct_seq(key.args[0]):
            return _lin(key.args[1], o.args[1], i)
        fa, fb = row_of(key), row_of(o)
        if fa is not None and fb is not None and refeq(fa, fb) is TRUE:
            return _lin(key.args[1], o.args[1], i)
        if key.args[0].op == o.args[0].op == 'cont':
            ra, rb = key.args[0].args[0], o.args[0].args[0]
            fa, fb = row_of(ra), row_of(rb)
            if fa is not None and fb is not None and fa.args[0] in ty.DISJOINT and refeq(fa, fb) is TRUE:
                if tm.occurs(i, ra):
                    return _lin(ra.args[1], rb.args[1], i)
                return _lin(key.args[1], o.args[1], i)
        return None
    if key.op == 'fld' and o.op == 'fld' and key.args[0] == o.args[0]:
        t = typ(key)
        if isinstance(t, tuple) and t[0] in ('list', 'flist', 'dict', 'set') or (cls_of(key.args[1]), key.args[0]) in ty.OWNED:
            return _unify(key.args[1], o.args[1], i)
        return None
    if key.op == 'new' and o.op == 'new' and key.args[1] == o.args[1]:
        for x, y in zip(key.args[2], o.args[2]):
            if tm.occurs(i, x):
                return _lin(x, y, i)
        return None
    if key is i:
        return o
    return None


OPENED = {}


def opened(l, o, r):
    """The opened loop and its leaves; the same symbols are used again where they cannot be captured."""
    e = OPENED.get(l)
    if e is None or not e[4].isdisjoint(o.syms) or not e[4].isdisjoint(r.syms):
        i, n, subs = open_hloop(l)
        ls = tuple(leaves(subs))
        e = (i, n, subs, ls, frozenset([i] + [j for _, bs in ls for j, _ in bs]))
        OPENED.setdefault(l, e)
    return e[:4]


def blocked(f, o, l, r):
    """A read without closed form: only the updates that may concern the object matter."""
    def prune(l):
        i, n, subs = open_hloop(l)
        out = []
        for s in subs:
            if s.op == 'hloop':
                out.extend(prune(s))
            elif s.op in ('hset', 'happ'):
                if AND(s.args[0], refeq(s.args[1], o)) is not FALSE:
                    out.append(s)
            else:
                out.append(s)
        return hloop(n, i, out)
    p = prune(l)
    if len(p) != 1 or p[0].op != 'hloop':
        p = (l,)
    return raw('hread', f, o, p[0], r)


def apply_loop(f, o, l, r):
    i, n, subs, ls = opened(l, o, r)
    lv = []
    for leaf, bs in ls:
        if leaf.op == 'mark':
            return blocked(f, o, l, r)
        c = AND(leaf.args[0], refeq(leaf.args[1], o))
        if c is FALSE:
            continue
        lv.append((leaf, bs, c))
    if not lv:
        return r
    sols = set()
    indep = True
    ok = True
    for leaf, bs, c in lv:
        t = solve(leaf.args[1], o, i, [i] + [j for j, _ in bs])
        if t is None:
            sols.add(None)
            # independent of i
            if tm.occurs(i, leaf.args[1]):
                indep = False
        else:
            indep = False
            sols.add(t)
    if len(sols) == 1 and None not in sols:
        t = sols.pop()
        inst = subst_layers(subs, {i: t})
        rr = apply_layers(f, o, inst, r)
        v = ite(AND(tm.le(const(0), t), tm.lt(t, n)), rr, r)
        if o.op == 'new' and o.args[2] and unset(f, o, r):
            # the object was created by the loop
            v = without(v, r)
        return v
    if indep and all(not any(tm.occurs(j, leaf.args[1]) for j, _ in bs) for leaf, bs, c in lv):
        kinds = {leaf.op for leaf, bs, c in lv}
        if kinds == {'happ'}:
            ps = emit(subs, o)
            p = tm.mk_loop_part(n, i, ps)
            return tm.concat(r, tm.seq([p])) if p is not None else r
        if kinds == {'hset'}:
            cond = hit(subs, o)
            k = tm.last(n, i, cond)
            e = tm.exists(n, i, cond)

            def at_last(kk):
                return apply_layers(f, o, subst_layers(subs, {i: kk}), r)
            v = lift(at_last, (k,))
            v = drop_miss(v, r, cond, i, k)
            return ite(e, v, r)
    return blocked(f, o, l, r)


def unset(f, o, r):
    return r.op == 'cont' and r.args[0] is o if f == '$c' else r.op == 'fld' and r.args[0] == f and r.args[1] is o


def without(v, r):
    """The value without the alternatives r."""
    if v.op != 'ite':
        return v
    if v.args[1] is r:
        return without(v.args[2], r)
    if v.args[2] is r:
        return without(v.args[1], r)
    return ite(tm.atom(v.args[0]), without(v.args[1], r), without(v.args[2], r))


def drop_miss(v, r, cond, i, k):
    """At the last hit the condition holds."""
    c = subst(cond, {i: k})
    return tm.simplify_under(c, v)


def emit(subs, o):
    ps = []
    for l in subs:
        if l.op == 'happ':
            c = AND(l.args[0], refeq(l.args[1], o))
            if c is FALSE:
                continue
            v = l.args[2]
            if c is TRUE:
                ps.extend(tm.parts(v))
            elif v.op in ('seq', 'tuple') and all(p[0] == 'item' for p in v.args[0]):
                ps.extend(('item', AND(c, p[1]), p[2]) for p in v.args[0])
            else:
                i = tm.fresh('i')
                p = tm.mk_loop_part(ite(c, const(1), const(0)), i, tm.parts(v))
                if p is not None:
                    ps.append(p)
        elif l.op == 'hloop':
            i, n, ss = open_hloop(l)
            p = tm.mk_loop_part(n, i, emit(ss, o))
            if p is not None:
                ps.append(p)
    return ps


def hit(subs, o):
    r = FALSE
    for l in subs:
        if l.op == 'hloop':
            i, n, ss = open_hloop(l)
            r = OR(r, tm.exists(n, i, hit(ss, o)))
        else:
            r = OR(r, AND(l.args[0], refeq(l.args[1], o)))
    return r
