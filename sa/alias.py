"""Which places hold the same mutable container.

Containers are values in the interpreter; a place is where one is stored:
    ("v", frame, name)   a variable
    ("h", object, attr)  an attribute
    ("e", place, key)    an entry of the container at another place
A state keeps links between places that were bound to one container.  Changing a container in place writes the new value to every
place linked with it (a link whose ends no longer hold the same value is out of date and ignored).
("d", place, factory) remembers the default factory of a dictionary.
"""
import ast

from . import terms as t
from .terms import mk, const

CONT = ("list", "concat", "map", "flatmap", "dict", "set", "mkset", "accum", "dictmap", "listcast", "mu", "guarded")


def container(v):
    return v.op in CONT


def holds(v):
    return container(v) or v.op == "tuple" and any(holds(x) for x in v.args)


def link(st, p, q):
    if p != q:
        st.links |= {frozenset((p, q))}


def within(p, q):
    """p is q or an entry (of an entry...) of q"""
    while p != q:
        if p[0] != "e":
            return False
        p = p[1]
    return True


def drop(st, p, inside=False):
    """Something else is bound to p; inside: only its entries change places."""
    if st.links:
        gone = lambda q: within(q[1] if q[0] == "d" else q, p) and not (inside and (q == p or q[0] == "d"))
        st.links = frozenset(l for l in st.links if not any(gone(q) for q in l))


def root(p):
    while p[0] in ("e", "d"):
        p = p[1]
    return p


def leave(st, sid):
    if st.links:
        # what was linked through a variable that goes away stays linked
        for l in [l for l in st.links if any(root(q)[0] == "v" and root(q)[1] == sid for q in l)]:
            mine = [q for q in l if root(q)[0] == "v" and root(q)[1] == sid]
            if len(l) == 2 and len(mine) == 1:
                other = [q for q in l if q not in mine]
                for m in st.links:
                    if m is not l and mine[0] in m:
                        o2 = [q for q in m if q != mine[0]]
                        if o2 and o2[0] != other[0] and not (root(o2[0])[0] == "v" and root(o2[0])[1] == sid):
                            link(st, other[0], o2[0])
        st.links = frozenset(l for l in st.links if not any(root(q)[0] == "v" and root(q)[1] == sid for q in l))


def outside(st, p, sid):
    """Another place of the same container that stays when the frame goes."""
    seen, todo = set(), [p]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        r = root(q)
        if not (r[0] == "v" and r[1] == sid):
            return q if get(st, q) is get(st, p) else None
        todo += [x for l in st.links if q in l for x in l if x != q and x[0] != "d"]
        if q[0] == "e":
            todo += [("e", x, q[2]) for l in st.links if q[1] in l for x in l if x != q[1] and x[0] != "d"]
    return None


def get(st, p):
    if p[0] == "v":
        return st.vars.get((p[1], p[2]))
    if p[0] == "h":
        return st.heap.get((p[1], p[2]))
    b = get(st, p[1])
    if b is None:
        return None
    if b.op == "dict":
        r = [c for a, c in b.args[0] if a is p[2]]
        return r[0] if len(r) == 1 else None
    if b.op in ("list", "tuple") and t.is_num(p[2]) and 0 <= p[2].args[0] < len(b.args):
        return b.args[p[2].args[0]]
    return None


def put(I, st, p, v, loc, depth=0):
    from .interp import Ev
    if p[0] == "v":
        st.vars[(p[1], p[2])] = v
    elif p[0] == "h":
        st.heap[(p[1], p[2])] = v
        st.ev(Ev("set", p[1], (const(p[2]), v), (), None, loc, func=I.stack[-1] if I.stack else ""))
    else:
        b = get(st, p[1])
        if b.op == "dict":
            nb = mk("dict", tuple((a, v if a is p[2] else c) for a, c in b.args[0]))
        else:
            xs = list(b.args)
            xs[p[2].args[0]] = v
            nb = mk(b.op, *xs)
        change(I, st, p[1], b, nb, loc, depth + 1)


def change(I, st, p, old, new, loc, depth=0):
    from .interp import Budget
    if depth > 40:
        raise Budget("containers that hold one another")
    if get(st, p) is new:
        return
    others = [q for l in st.links if p in l for q in l if q != p and q[0] != "d" and get(st, q) is old]
    put(I, st, p, new, loc, depth)
    for q in others:
        # (an entry of a place that was just written holds the new value already)
        if get(st, q) is old:
            change(I, st, q, old, new, loc, depth + 1)


def write(I, p, old, new, st, loc):
    """The container at p (of value old) was changed in place."""
    st = st.copy()
    if old is new:
        return st
    if p[0] == "e" and p[1][0] == "e" or old is None or get(st, p) is old:
        change(I, st, p, old, new, loc)
    else:
        put(I, st, p, new, loc)
    return st


def place(I, node, st, fr):
    """Where the value of an expression is stored, if the expression names a place."""
    if isinstance(node, ast.Name):
        for sid in fr.chain:
            if (sid, node.id) in st.vars:
                return ("v", sid, node.id)
        r = I.p.resolve(fr.module, node.id)
        if r is not None and r[0] == "expr":
            b = mk("module", r[2].name)
            if (b, node.id) in st.heap:
                return ("h", b, node.id)
        return None
    if isinstance(node, ast.Attribute):
        b = value(I, node.value, st, fr)
        return ("h", b, node.attr) if b is not None and (b, node.attr) in st.heap else None
    key = None
    if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
        base, key = node.value, node.slice
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("setdefault", "get") and node.args and \
            not any(isinstance(x, ast.Starred) for x in node.args):
        base, key = node.func.value, node.args[0]
    if key is None:
        return st.ret[1] if isinstance(node, ast.Call) and st.ret is not None and get(st, st.ret[1]) is st.ret[0] else None
    p = place(I, base, st, fr)
    if p is None:
        return None
    k, b = value(I, key, st, fr), get(st, p)
    if k is None or b is None:
        return None
    if b.op == "list" and t.is_num(k) and k.args[0] < 0:
        k = const(k.args[0] + len(b.args))
    p = ("e", p, k)
    return p if get(st, p) is not None else None


GROW = ("append", "extend", "add", "update", "setdefault", "insert", "remove", "discard", "clear", "appendleft")


def value(I, node, st, fr):
    """The value of an expression that has no effect (else None)."""
    if isinstance(node, ast.Constant):
        return const(node.value)
    mark = list(I.collectors[-1].items) if I.collectors else None
    try:
        r = I.ev(node, st.copy(), fr)
    finally:
        if mark is not None:
            I.collectors[-1].items[:] = mark
    if len(r) != 1 or r[0][0].vars != st.vars or r[0][0].heap != st.heap or len(r[0][0].trace) != len(st.trace):
        return None
    return r[0][1]


def shape(I, node, v, st, fr):
    """Where the containers in the value of an expression are stored already: a place, {key: shape} of a display, or None."""
    if not holds(v):
        return None
    if isinstance(node, (ast.List, ast.Tuple)) and v.op in ("list", "tuple") and len(node.elts) == len(v.args) and not any(isinstance(x, ast.Starred) for x in node.elts):
        r = {const(i): shape(I, x, y, st, fr) for i, (x, y) in enumerate(zip(node.elts, v.args))}
        r = {k: x for k, x in r.items() if x is not None}
        return r or None
    if isinstance(node, ast.Dict) and v.op == "dict" and len(node.keys) == len(v.args[0]) and all(k is not None for k in node.keys):
        r = {k: shape(I, x, y, st, fr) for x, (k, y) in zip(node.values, v.args[0])}
        r = {k: x for k, x in r.items() if x is not None}
        return r or None
    if isinstance(node, ast.Call) and v.op == "dict" and node.args and isinstance(node.func, (ast.Name, ast.Attribute)):
        n = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
        if n == "defaultdict" and len(node.args) == 1:
            f = value(I, node.args[0], st, fr)
            return ("d", f) if f is not None else None
    base = None
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "dict", "tuple") and len(node.args) == 1:
        base = node.args[0]
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy":
        base = node.args[0] if len(node.args) == 1 else node.func.value if not node.args else None
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and node.slice.lower is None and node.slice.upper is None and node.slice.step is None:
        base = node.value
    if base is not None:
        # a new container of the same entries
        p = place(I, base, st, fr)
        if p is None or get(st, p) is not v:
            return None
        ents = v.args[0] if v.op == "dict" else [(const(i), x) for i, x in enumerate(v.args)] if v.op in ("list", "tuple") else []
        return {k: ("e", p, k) for k, x in ents if container(x)} or None
    p = place(I, node, st, fr)
    return p if p is not None and get(st, p) is v else None


def connect(st, p, src):
    if isinstance(src, dict):
        for k, x in src.items():
            connect(st, ("e", p, k), x)
    elif src is not None:
        if src[0] == "d" and len(src) == 2:
            st.links |= {frozenset((("d", p, src[1]),))}
        elif not within(src, p) and not within(p, src):
            link(st, p, src)


def factory(st, p):
    seen, todo = set(), [p]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for l in st.links:
            for x in l:
                if x[0] == "d" and x[1] == q:
                    return x[2]
            if q in l:
                todo += [x for x in l if x != q]
    return None


def bind(I, tg, src, v, st, fr):
    """The target of an assignment now holds what is stored at src (changes st)."""
    if isinstance(tg, (ast.Tuple, ast.List)):
        if any(isinstance(x, ast.Starred) for x in tg.elts):
            return
        for i, x in enumerate(tg.elts):
            w = v.args[i] if v.op in ("tuple", "list") and i < len(v.args) else None
            if w is None or not holds(w):
                continue
            sub = src.get(const(i)) if isinstance(src, dict) else ("e", src, const(i)) if src[0] in "vhe" else None
            if sub is not None:
                bind(I, x, sub, w, st, fr)
        return
    if not container(v):
        return
    n = ast.copy_location(ast.parse(ast.unparse(tg), mode="eval").body, tg) if not isinstance(tg, ast.Name) else tg
    p = place(I, n, st, fr)
    if p is not None and get(st, p) is v:
        connect(st, p, src)


def item(I, node, i, st, fr):
    """shape of the i-th item of an iteration over an expression"""
    if isinstance(node, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in node.elts) and i < len(node.elts):
        v = value(I, node.elts[i], st, fr)
        return shape(I, node.elts[i], v, st, fr) if v is not None else None
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and not node.keywords:
        if node.func.id == "zip":
            r = {const(j): item(I, x, i, st, fr) for j, x in enumerate(node.args)}
            return {k: x for k, x in r.items() if x is not None} or None
        if node.func.id == "enumerate" and len(node.args) == 1:
            r = item(I, node.args[0], i, st, fr)
            return {const(1): r} if r is not None else None
        if node.func.id in ("list", "tuple", "iter") and len(node.args) == 1:
            return item(I, node.args[0], i, st, fr)
        return None
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("values", "items") and not node.args:
        p = place(I, node.func.value, st, fr)
        b = get(st, p) if p is not None else None
        if b is None or b.op != "dict" or i >= len(b.args[0]):
            return None
        e = ("e", p, b.args[0][i][0])
        return e if node.func.attr == "values" else {const(1): e}
    p = place(I, node, st, fr)
    b = get(st, p) if p is not None else None
    return ("e", p, const(i)) if b is not None and b.op in ("list", "tuple") and i < len(b.args) else None
