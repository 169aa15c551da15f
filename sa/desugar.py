"""
Rewritings of the syntax tree before it is interpreted.

for i in range(len(x)): ... x[i] ...     with a local list x that no statement of the function changes, when i is
used for x[i] only, is the loop over the elements of x.
"""

import ast
import copy

_memo = {}


def loop(fn, s):
    """The loop statement to interpret instead of s."""
    k = id(s)
    if k in _memo:
        return _memo[k][1]
    r = _loop(fn, s)
    _memo[k] = (s, r)
    return r


def _is_len_range(it):
    return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 \
        and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'len' \
        and len(it.args[0].args) == 1 and isinstance(it.args[0].args[0], ast.Name)


def _loop(fn, s):
    if not isinstance(s.target, ast.Name) or not _is_len_range(s.iter):
        return s
    i, x = s.target.id, s.iter.args[0].args[0].id
    par = {}
    for p in ast.walk(fn):
        for c in ast.iter_child_nodes(p):
            par[c] = p
    stores = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.arg) and n.arg == x:
            return s
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            if any(isinstance(m, ast.Name) and m.id in (x, i) for m in ast.walk(n)):
                return s
        if isinstance(n, ast.Name) and n.id == x:
            p = par[n]
            if isinstance(n.ctx, ast.Store):
                stores += 1
                if not (isinstance(p, ast.Assign) and isinstance(p.value, ast.ListComp) and len(p.targets) == 1):
                    return s
            elif isinstance(p, ast.Attribute) or isinstance(p, ast.Subscript) and not isinstance(p.ctx, ast.Load):
                return s
            elif isinstance(p, (ast.Assign, ast.Return, ast.Tuple, ast.List, ast.AugAssign, ast.keyword)):
                return s
            elif isinstance(p, ast.Call) and not (isinstance(p.func, ast.Name) and p.func.id in
                                                  ('len', 'sum', 'min', 'max', 'sorted', 'zip', 'enumerate')):
                return s
    if stores != 1:
        return s
    inside = {id(n) for b in s.body for n in ast.walk(b)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == i and n is not s.target:
            p = par[n]
            if id(n) not in inside or not (isinstance(p, ast.Subscript) and p.slice is n and isinstance(p.ctx, ast.Load)
                                           and isinstance(p.value, ast.Name) and p.value.id == x):
                return s
    e = '%s[%s]' % (x, i)

    class R(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if isinstance(n.slice, ast.Name) and n.slice.id == i and isinstance(n.value, ast.Name) and n.value.id == x:
                return ast.copy_location(ast.Name(e, ast.Load()), n)
            self.generic_visit(n)
            return n
    t = copy.deepcopy(s)
    t.body = [R().visit(b) for b in t.body]
    t.iter = t.iter.args[0].args[0]
    t.target = ast.copy_location(ast.Name(e, ast.Store()), s.target)
    return t


# --------------------------------------------------------------------------------------------------
# loops over a list that grows in the loop

_growing = {}


def growing(s):
    """The statements of a loop over a list which the loop extends (None: it does not)."""
    k = id(s)
    if k not in _growing:
        _growing[k] = (s, _grow(s))
    return _growing[k][1]


def _grow(s):
    if not isinstance(s.iter, ast.Name):
        return None
    x = s.iter.id
    grows = False
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == x and n.func.attr in ('append', 'extend'):
                grows = True
    if not grows:
        return None
    i = '$index of ' + x
    src = ast.parse('i = 0\nwhile i < len(x):\n    y = x[i]\n    i = i + 1\n').body
    w = src[1]
    for n in ast.walk(ast.Module(src, [])):
        if isinstance(n, ast.Name) and n.id in ('i', 'x'):
            n.id = i if n.id == 'i' else x
    w.body[0].targets = [s.target]
    w.body += s.body
    w.orelse = s.orelse
    for n in [src[0], w, w.body[0], w.body[1]]:
        for m in ast.walk(n):
            if m in w.body[2:]:
                continue
            if isinstance(m, (ast.stmt, ast.expr)) and not any(m is q for b in s.body for q in ast.walk(b)):
                ast.copy_location(m, s)
    return src


# --------------------------------------------------------------------------------------------------
# grouping loops

def _d_get(e):
    """D[K], D.get(K) -> (D, K)"""
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
        return e.value.id, e.slice
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and len(e.args) == 1 \
            and not e.keywords and isinstance(e.func.value, ast.Name):
        return e.func.value.id, e.args[0]
    return None


def _d_put(st):
    """D[K] = V, D.update([(K, V)]), D.update({K: V}) -> (D, K, V)"""
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
            and isinstance(st.targets[0].value, ast.Name):
        return st.targets[0].value.id, st.targets[0].slice, st.value
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
            and st.value.func.attr == 'update' and len(st.value.args) == 1 and isinstance(st.value.func.value, ast.Name):
        a = st.value.args[0]
        if isinstance(a, ast.Dict) and len(a.keys) == 1 and a.keys[0] is not None:
            return st.value.func.value.id, a.keys[0], a.values[0]
        if isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) == 1 and isinstance(a.elts[0], (ast.Tuple, ast.List)) \
                and len(a.elts[0].elts) == 2:
            return st.value.func.value.id, a.elts[0].elts[0], a.elts[0].elts[1]
    return None


def _append(st):
    """X.append(E) -> (X, E)"""
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
            and st.value.func.attr == 'append' and len(st.value.args) == 1:
        return st.value.func.value, st.value.args[0]
    return None


def grouping(body):
    """(dictionary, assignments, key expressions, element expressions) of a loop that groups by a key."""
    body = [s for s in body if not isinstance(s, ast.Pass)
            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    pre, gets, keys, elems, dicts = [], {}, [], [], set()

    def get(e):
        if isinstance(e, ast.Name) and e.id in gets:
            return gets[e.id]
        return _d_get(e)

    def note(x):
        dicts.add(x[0])
        keys.append(x[1])

    def appended(sts):
        """Statements that append the element to the group of the key."""
        n = 0
        loc = {}
        for s in sts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and _d_get(s.value):
                gets[s.targets[0].id] = _d_get(s.value)
                continue
            a = _append(s)
            if a is not None:
                x = get(a[0])
                if x is None:
                    return False
                note(x)
                elems.append(a[1])
                n += 1
                continue
            p = _d_put(s)
            if p is not None and get(p[2]) is not None:
                note(p)
                note(get(p[2]))
                continue
            return False
        return n == 1

    def created(sts, empty):
        if len(sts) != 1:
            return False
        p = _d_put(sts[0])
        if p is None or not isinstance(p[2], ast.List) or len(p[2].elts) != (0 if empty else 1):
            return False
        note(p)
        elems.extend(p[2].elts)
        return True

    for k, s in enumerate(body):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            g = _d_get(s.value)
            if g is not None and isinstance(s.value, ast.Call):
                gets[s.targets[0].id] = g
            else:
                pre.append((s.targets[0].id, s.value))
            continue
        rest = body[k + 1:]
        if isinstance(s, ast.If):
            t, pos = s.test, True
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, pos = t.operand, not pos
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                return None
            o, r = t.ops[0], t.comparators[0]
            if isinstance(o, (ast.In, ast.NotIn)):
                if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == 'keys' and not r.args:
                    r = r.func.value
                if not isinstance(r, ast.Name):
                    return None
                note((r.id, t.left))
                if isinstance(o, ast.NotIn):
                    pos = not pos
            elif isinstance(o, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                x = get(t.left)
                if x is None:
                    return None
                note(x)
                if isinstance(o, ast.Is):
                    pos = not pos
            else:
                return None
            has, no = (s.body, s.orelse) if pos else (s.orelse, s.body)
            if not has:
                if not created(no, True) or not appended(rest):
                    return None
            elif rest or not no or not created(no, False) or not appended(has):
                return None
            break
        a = _append(s)
        if a is not None and not rest and isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Attribute) \
                and a[0].func.attr == 'setdefault' and len(a[0].args) == 2 and isinstance(a[0].args[1], ast.List) \
                and not a[0].args[1].elts and isinstance(a[0].func.value, ast.Name):
            note((a[0].func.value.id, a[0].args[0]))
            elems.append(a[1])
            break
        return None
    else:
        return None
    if len(dicts) != 1:
        return None
    return dicts.pop(), pre, keys, elems


# ----------------------------------------------------------------------------------------------------
# x = x + [...] for a list x that nothing else refers to: x += [...]

_ext = {}


def extension(fn, s):
    """The statement to interpret instead of the assignment s."""
    k = id(s)
    if k not in _ext:
        _ext[k] = (s, _extension(fn, s))
    return _ext[k][1]


def _self_sum(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
        and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
        and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id


def _extension(fn, s):
    if not _self_sum(s):
        return s
    x = s.targets[0].id
    if any(isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not fn and
           any(isinstance(m, ast.Name) and m.id == x for m in ast.walk(n)) for n in ast.walk(fn)):
        return s
    par = {}
    for p in ast.walk(fn):
        for c in ast.iter_child_nodes(p):
            par[c] = p
    if any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(s.value.right)):
        return s
    for n in ast.walk(fn):
        if isinstance(n, ast.arg) and n.arg == x or isinstance(n, (ast.Global, ast.Nonlocal)) and x in n.names:
            return s
        if not isinstance(n, ast.Name) or n.id != x:
            continue
        p = par[n]
        if isinstance(n.ctx, ast.Store):
            if not (isinstance(p, ast.Assign) and len(p.targets) == 1):
                return s
            if not _self_sum(p) and not isinstance(p.value, (ast.List, ast.ListComp)):
                return s
        elif isinstance(n.ctx, ast.Del):
            return s
        elif isinstance(p, ast.BinOp) and _self_sum(par.get(p)) and p.left is n:
            continue
        elif isinstance(p, ast.Return) or isinstance(p, ast.For) and p.iter is n or isinstance(p, ast.comprehension):
            if isinstance(p, (ast.For, ast.comprehension)) and any(m is s for m in ast.walk(p)):
                return s
        elif isinstance(p, ast.Compare) and isinstance(p.ops[0], (ast.In, ast.NotIn)) and p.left is not n:
            continue
        elif isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'len':
            continue
        elif isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load) and not isinstance(p.slice, ast.Slice):
            continue
        else:
            return s
    r = ast.AugAssign(target=copy.copy(s.targets[0]), op=ast.Add(), value=s.value.right)
    return ast.copy_location(r, s)
